"""C07: evaluation results do not depend on leftovers of earlier evaluations.

Reaching-definitions with index classes: a value read from a quantity that the same
evaluation also writes must have been written earlier in this evaluation, for every
entry that can be read."""
from ..exchange import ADD, driver, fn
from ..index import full_loop
from ..pair import split_index
from ..poly import Poly, ZERO, ONE
from ..registry import spec_of
from ..universe import each, short, COMPUTE
from ..whole import whole
from .c06 import Typer, vsize
from .c08 import KINDS

# per-entry marks by which a model declares an entry inactive or still valid
STATUS = {"Flying_Point_Flag", "Influence_State", "Gradient_Weight_Evaluation_Flag"}
RESET = ("PutScalar", "operator=", "Import", "Random")


class Cell:
    """Which entries an address denotes: class (own, bond, any, global, flat) and component."""
    __slots__ = ("cls", "comp", "len")

    def __init__(self, cls, comp, ln):
        self.cls, self.comp, self.len = cls, comp, ln


def cell(e, T, a):
    s = e.sem
    if whole_length(e, T, a):
        return Cell("whole", "all", 1)
    rel, ln = a.rel, a.len
    if rel is None:
        sp = spec_of(a.label)
        if sp is None:
            return Cell("any", None, 1)
        rel, ln = sp[0], sp[1]
    if rel == "GLOBAL":
        k = a.off.const_value()
        return Cell("global", int(k) // 8 if k is not None else None, ln)
    if rel == "BOND":
        c = a.off.t.get((), 0)
        return Cell("bond" if T.bond(a.off, ln)[0] == "ok" else "any", int(c) // 8 % ln, ln)
    flat = T.single(a.off, 8)
    if flat is not None and s.A.keys[flat][0] == "iter" and ln > 1 and (T.counts_points(s.trip(s.A.keys[flat][1]), ln) or vsize(s, s.trip(s.A.keys[flat][1]))):
        return Cell("own", "all", ln)
    si = split_index(a.off, ln)
    if si is None:
        return Cell("any", None, ln)
    k = T.point(si[0], 0)[0]
    return Cell("own" if k in ("counter", "owned list") else "any", si[1], ln)


def whole_length(e, T, a):
    """The address runs over the full stored length of the quantity."""
    s = e.sem
    it = T.single(a.off, 8)
    if it is None or s.A.keys[it][0] != "iter":
        return False
    t = T.single(s.trip(s.A.keys[it][1]))
    inf = s.A.info[t] if t is not None else {}
    if not (inf.get("name") or "").endswith("::MyLength") or not inf.get("args"):
        return False
    return all(any(fk[1] == x[1] for x, _ in e.vec_info(inf["args"][0])) for fk, _ in a.cands)


def covers(w, r):
    if w.cls == "whole":
        return True
    return w.cls == r.cls and w.cls in ("own", "bond", "global") and (w.comp == r.comp or w.comp == "all")


def compares(s, this):
    """(member offset, literal, call) for equality tests of string members."""
    for ins, bc, A, mem in s.calls:
        if bc and bc.startswith("std::operator==<char") and len(A) == 2:
            b, off = s.base_of(A[0])
            lit = [s.A.info[x].get("s") for x in A[1].atoms()]
            if b == this and off.const_value() is not None and len(lit) == 1 and lit[0] is not None:
                yield off.const_value(), lit[0], ins


class Flow:
    def __init__(self, e, compute):
        self.e, self.s, self.f = e, e.sem, e.f
        self.T = Typer(e, compute)
        s = self.s
        self.writes, self.resets = {}, {}
        self.dead = self.excluded()
        for st in s.stores:
            a = e.access(st[1])
            if a is not None:
                c = cell(e, self.T, a)
                for fk, step in a.cands:
                    self.writes.setdefault((fk[1], step), []).append((st[0], st[1], c, len(a.cands) == 1))
        for ins, bc, args, mem in s.calls:
            if not bc or not bc.startswith("Epetra_") or not args:
                continue
            m = bc.rsplit("::", 1)[-1]
            whole = m in RESET or m == "Scale" and len(args) == 2 and args[1].is_zero() or m == "Update" and len(args) in (4, 6) and args[-2 if len(args) == 4 else -1] is not None and self.overwrites(m, args)
            if whole:
                for fk, step in e.vec_info(args[0]):
                    self.resets.setdefault((fk[1], step), []).append(ins)
        for ev in s.events:
            if ev.kind in ("memcpy", "memmove", "memset"):
                a = e.access(ev.d["args"][0])
                if a is not None and a.off.is_zero():
                    for fk, step in a.cands:
                        self.resets.setdefault((fk[1], step), []).append(ev.ins)

    @staticmethod
    def overwrites(m, args):
        # Update(a, A, this) and Update(a, A, b, B, this): last scalar is the factor of the old contents
        return args[-1].is_zero() or len(args) == 4 and args[3].is_zero()

    def before(self, i, j):
        return i.blk == j.blk and i.pos < j.pos or i.blk != j.blk and self.f.dominates(i.blk, j.blk)

    def covered(self, key, ins, addr, c):
        for r in self.resets.get(key, ()):
            if self.before(r, ins):
                return "reset as a whole"
            if self.reset_with_view(r, ins, addr):
                return "reset as a whole"
        ws = self.writes.get(key, ())
        for i, ad, w, sure in ws:
            if sure and ad == addr and self.before(i, ins):
                return "written in the same pass"
        if self.split(ins, [i for i, ad, w, sure in ws if sure and ad == addr]):
            return "written in the same pass"
        # complete earlier passes
        groups = {}
        for i, ad, w, sure in ws:
            if sure and covers(w, c):
                if w.cls == "whole":
                    groups.setdefault(("whole",) + tuple(self.f.nest(i.blk)), []).append(i)
                    continue
                n = self.f.nest(i.blk)
                if w.cls == "global":
                    if self.before(i, ins):
                        return "written before"
                    continue
                if n:
                    groups.setdefault(tuple(n), []).append(i)
        inside = self.f.nest(ins.blk)
        heads, how = set(), None
        for n, ii in groups.items():
            full = n[0] == "whole"
            n = n[1:] if full else n
            own = [L for L in n if L not in inside]
            if not own:
                continue
            if (full or c.cls == "own") and len(own) != len(n) or not full and c.cls == "bond" and len(n) - len(own) > 1:
                continue
            if self.complete(own, ii):
                how = how or "written by an earlier pass"
            elif any(self.marked(n, i) for i in ii):
                how = "written for all entries not marked inactive"
            else:
                continue
            heads.add(self.f.loops[own[-1]].h)
        if heads and self.cut(0 if not inside else self.f.loops[inside[0]].h, ins.blk, heads):
            return how
        return how if heads and self.cut(0, ins.blk, heads) else None

    def excluded(self):
        """Edges taken only for option texts that the constructor rejects."""
        s, f, cs = self.s, self.f, self.e.c.ctor
        out = set()
        if not cs or cs is True:
            return out
        cthis = cs.A.tab.get(("arg", cs.f.args[0]["id"]))
        allowed, closed = {}, set()
        for off, lit, ins in compares(cs, cthis):
            allowed.setdefault(off, set()).add(lit)
            if any(cs.f.can_throw_only(x) for x in cs.f.succ[ins.blk]):
                closed.add(off)
        tests = []
        for off, lit, ins in compares(s, self.e.this):
            br = f.blocks[ins.blk][-1]
            if br.op == "br" and len(f.succ[ins.blk]) == 2 and s.opv(br.a[0]) == s.val.get(ins.id):
                tests.append((off, lit, ins.blk, f.succ[ins.blk][1]))
        for off, lit, blk, no in tests:
            if off in closed:
                seen = {lit} | set(l for o, l, b, n in tests if o == off and b != blk and len(f.pred[n]) == 1 and f.dominates(n, blk))
                if seen >= allowed[off]:
                    out.add((blk, no))
        return out

    def reset_with_view(self, r, ins, addr):
        """The pointer read through is only set when the reset has happened."""
        s, f = self.s, self.f
        if f.nest(r.blk) or f.rpo.index(r.blk) > f.rpo.index(ins.blk):
            return False
        g = s.block_conds(None)[0]
        b, off = s.base_of(addr)
        if b is None or s.A.keys[b][0] not in ("phi", "rec"):
            return False
        k = s.A.keys[b]
        st = s.A.info[b].get("start")
        if k[0] == "rec" and st is not None:
            b, off = s.base_of(st)
            k = s.A.keys[b] if b is not None else ("",)
        if k[0] != "phi":
            return False
        return all(x.is_zero() or g.get(blk) == g.get(r.blk) for blk, x in zip(k[2], k[3]))

    def marked(self, n, i):
        """The write happens in every iteration whose entry carries no inactive mark."""
        s, f = self.s, self.f
        blk = i.blk
        for L in n:
            if not full_loop(self.e, L):
                return False
            g = s.block_conds(L)[0].get(blk)
            if g is None or not self.only_marks(g):
                return False
            blk = f.loops[L].h
        return True

    def only_marks(self, p):
        s = self.s
        for a in p.atoms():
            k = s.A.keys[a]
            if k[0] in ("gt0", "eq0", "ge0", "not", "and", "or"):
                if not all(self.only_marks(x) for x in k[1:] if isinstance(x, Poly)):
                    return False
            elif k[0] == "load":
                ac = self.e.access(k[1])
                if ac is None or ac.label not in STATUS:
                    return False
            else:
                return False
        return True

    def split(self, ins, ws):
        """Every path of the iteration from its start to ins passes one of the writes."""
        if not ws:
            return False
        L = self.f.loop_of[ins.blk]
        start = self.f.loops[L].h if L is not None and L >= 0 else 0
        return self.cut(start, ins.blk, set(i.blk for i in ws if i.blk != ins.blk))

    def cut(self, start, goal, marks, body=None):
        """No path start -> goal avoids the marked blocks."""
        if start in marks:
            return True
        seen, todo = {start}, [start]
        while todo:
            b = todo.pop()
            if b == goal and b != start:
                return False
            for x in self.f.succ[b]:
                if (b, x) in self.dead:
                    continue
                if body is not None and x not in body and x != goal:
                    continue
                if x == goal:
                    return False
                if x in marks or x in seen or self.f.can_throw_only(x):
                    continue
                seen.add(x)
                todo.append(x)
        return start != goal

    def complete(self, loops, ws):
        """The writes happen in every iteration of every loop of the nest (innermost first)."""
        f = self.f
        marks = set(i.blk for i in ws)
        for L in loops:
            lp = f.loops[L]
            if not full_loop(self.e, L):
                return False
            for b in lp.b:
                if lp.h in f.succ[b] and b != lp.h or b == lp.h and lp.h in f.succ[b]:
                    if b in marks or b == lp.h:
                        continue
                    if not self.cut(lp.h, b, marks, lp.b):
                        return False
            marks = {lp.h}
        return True


def run(ctx):
    ctx.rule = ("For every evaluation and every quantity (at a new-step or step-free level) that it both reads and writes: each read "
                "must be dominated by a reset of the whole quantity, by a write of the same entry in the same pass, or, for owned "
                "points and bonds, by an earlier complete pass that writes that entry for every owned point or bond unconditionally. "
                "Entries of neighbor points count only as covered by a reset of the whole quantity.  In the driver, a vector into which "
                "block contributions are summed must be reset on every path before the loop over the blocks, and a scratch vector "
                "before each block.")
    each(ctx, one, KINDS)
    assembly(ctx)
    ctx.need("assembled contributions", 25)
    ctx.need("evaluations analysed", 55)
    ctx.need("quantities read and written", 100)
    ctx.need("reads examined", 1000)


def assembly(ctx):
    """Sums of block contributions into the driver's vectors."""
    for F in driver():
        f = F.f
        exported = set(o.vec for o in F.ops if o.kind == "export" and o.mode == ADD)
        passed_on = set(o.src for o in F.ops if o.kind == "add" and o.src in exported)
        for o in F.ops:
            if not (o.kind == "export" and o.mode == ADD or o.kind == "add" and o.src in exported):
                continue
            ctx.count("assembled contributions")
            n = f.nest(o.ins.blk)
            resets = [r for r in F.ops if r.kind in ("reset", "set") and r.vec == o.vec and F.before(r.ins, o.ins)]
            extra = [len([L for L in n if L not in f.nest(r.ins.blk)]) for r in resets]
            per_block = o.kind == "export" and o.vec in passed_on
            ok = any(x == 0 if per_block or not n else x == 1 or x == 0 and o.kind == "export" for x in extra)
            if not ok and not extra and not per_block:
                ok = reset_by_callers(F, o, 1 if n else 0)
            if ok and not per_block and o.kind == "add" and n and 0 in extra:
                ok = False
            ctx.obligation(ok)
            what = "block contributions of %s" % "/".join(sorted(o.fid)) if o.fid else "block contributions"
            where = "%s (%s)" % (o.ins.where(), o.ins.func())
            if ok:
                ctx.sample("%s: %s summed at %s, reset before" % (f.dem.split("(")[0], what, where))
            else:
                ctx.violation("%s:sum:%s" % (f.dem.split("(")[0].replace("PeridigmNS::", ""), "%s%s" % (o.vec[0], o.vec[1]) if o.vec[0] == "m" else "local"), where,
                              "%s sums %s into a vector that is not reset before the first and only before the first block on every path" % (f.dem.split("(")[0], what),
                              path=[o.ins.path()])


def reset_by_callers(F, o, loops, depth=0):
    """Every caller resets the vector on every path before the call."""
    cs = whole().callers.get(F.f.dem, ())
    if not cs or o.vec[0] != "m" or depth > 2:
        return False
    for g, ins in cs:
        G = fn(g.dem)
        n = g.nest(ins.blk)
        rs = [r for r in G.ops if r.kind in ("reset", "set") and r.vec == o.vec and G.before(r.ins, ins)]
        if not any(len([L for L in n if L not in g.nest(r.ins.blk)]) <= (0 if loops else 1) for r in rs):
            return False
    return True


def one(ctx, c, kind, e):
    s = e.sem
    ctx.count("evaluations analysed")
    F = Flow(e, c.family == COMPUTE)
    keys, seen = set(), set()
    for ins, addr, v in s.loads:
        if ins.ty != "d":
            continue
        a = e.access(addr)
        if a is None:
            continue
        for fk, step in a.cands:
            key = (fk[1], step)
            if step == "N" or key not in F.writes and key not in F.resets or fk[1] in STATUS:
                continue
            keys.add(key)
            w = cell(e, F.T, a)
            if (key, addr, ins.blk) in seen:
                continue
            seen.add((key, addr, ins.blk))
            ctx.count("reads examined")
            why = F.covered(key, ins, addr, w)
            ctx.obligation(why is not None)
            where = "%s (%s)" % (ins.where(), ins.func())
            if why:
                ctx.count("reads " + why)
                ctx.sample("%s::%s reads %s(%s) at %s: %s" % (short(c), kind, fk[1], step, where, why))
            else:
                ctx.violation("%s::%s:%s" % (short(c), kind, fk[1]), where,
                              "%s::%s reads %s before this evaluation has written the entries read: the result depends on what an "
                              "earlier evaluation left there" % (short(c), kind, fk[1]), path=[ins.path()])
    ctx.count("quantities read and written", len(keys))
