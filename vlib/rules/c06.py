"""C06: model data is accessed at the right point, component and bond.

Index typing: every address into a quantity is put in the normal form
8*(components*point + component) or 8*components*bond and each index is typed by
where it comes from."""
from fractions import Fraction
from ..poly import Poly, ZERO, ONE
from ..universe import each, short, METHODS, COMPUTE
from ..pair import split_index
from ..registry import spec_of

KNOWN_SHAPES = {"iter", "psum", "rec", "tsum", "load", "arg"}


def run(ctx):
    ctx.rule = ("Every load and store that resolves to a quantity must have byte offset 8*(n*p + c), 0<=c<n, with p typed as a "
                "point: the loop counter of a loop running over exactly the owned points, an entry of the owned-point list, or "
                "the entry 1+k (0<=k<count) of a neighborhood record whose cursor advances by exactly 1+count per point; per-bond "
                "quantities must be addressed at (bonds of all earlier points) + k.  Reads of the neighborhood list itself must be "
                "the count at the cursor or such an entry.")
    ctx.assumptions += ["lists handed in by the driver are well formed (ids of stored points; each record is count, then that many ids)",
                        "views of different fields do not overlap"]
    each(ctx, one, METHODS)
    ctx.need("evaluations analysed", 80)
    ctx.need("point accesses typed", 2500)
    ctx.need("bond accesses typed", 250)
    ctx.need("neighborhood list reads typed", 150)


class Typer:
    def __init__(self, e, compute):
        self.e, self.s, self.compute = e, e.sem, compute
        s = e.sem
        ps = [a for a in e.f.args]
        ints = [a for a in ps if a["t"] == "i32"]
        ptrs = [a for a in ps if a["t"] == "p"][1:]
        self.owned = s.A.tab.get(("arg", ints[0]["id"])) if ints and not compute else None
        self.ids = s.A.tab.get(("arg", ptrs[0]["id"])) if len(ptrs) > 1 and not compute else None
        self.list = s.A.tab.get(("arg", ptrs[1]["id"])) if len(ptrs) > 1 and not compute else None
        self.memo = {}

    def single(self, p, coef=1):
        """The atom if p is coef*atom."""
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if c == coef and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def counts_points(self, t, mult=1):
        a = self.single(t, mult)
        if a is None:
            return False
        if self.owned is not None and a == self.owned:
            return True
        k = self.s.A.keys[a]
        if self.compute or self.owned is None:
            return k[0] in ("load", "call", "vsize", "arg", "pure")
        return k[0] == "vsize"

    def cursor_of(self, addr):
        """(cursor atom, address of the record) if addr lies in a record at a cursor."""
        s = self.s
        b, off = s.base_of(addr)
        if b is None:
            return None
        if s.A.keys[b][0] == "rec":
            return b, Poly.atom(b)
        recs = [a for a in off.atoms() if s.A.keys[a][0] == "rec"]
        if len(recs) == 1:
            return recs[0], Poly.atom(b) + Poly.atom(recs[0]).scale(4)
        return None

    def count_at(self, recaddr):
        """Load atoms of the count stored at the record."""
        s = self.s
        for a, k in enumerate(s.A.keys):
            if k[0] == "load" and k[1] == recaddr:
                yield Poly.atom(a)

    def same_count(self, L, step, n, u=1, c=0):
        """step == c + u*n, also when written with a case for n == 0."""
        s = self.s
        full = Poly.const(c) + n.scale(u)
        if step == full:
            return True
        x = s.expand(step, L)
        hit = {a: v for a, v in ((s.A.tab.get(("gt0", n)), 1), (s.A.tab.get(("eq0", n)), 0)) if a is not None and a in x.atoms()}
        return bool(hit) and s.assign(x, hit) == full and s.assign(x, {a: 1 - v for a, v in hit.items()}) in (Poly.const(c), full)

    def advances(self, cur, step, n, u):
        s, f = self.s, self.e.f
        L = f.header.get(f.defs[s.A.keys[cur][1]].blk)
        return L is not None and self.same_count(L, step, n, u, u)

    def limit(self, L):
        """Number of iterations; for a bound re-read every iteration, the bound."""
        s, f = self.s, self.e.f
        t = s.trip(L)
        a = self.single(t)
        if a is not None and s.A.keys[a][0] == "trip":
            br = f.blocks[f.loops[L].h][-1]
            if br.op == "br" and br.a:
                c = self.single(s.opv(br.a[0]))
                if c is not None and s.A.keys[c][0] == "gt0":
                    x = s.A.keys[c][1] + s.iter_atom(L)
                    if not s.depends(x, lambda k: k == ("iter", L)):
                        return x
        return t

    def good_cursor(self, cur, rec):
        """The cursor starts at the list's beginning and advances by 1+count per point."""
        r = self.memo.get(cur)
        if r is None:
            s = self.s
            inf = s.A.info[cur]
            ptr = rec == Poly.atom(cur)
            u = 4 if ptr else 1
            st, step = inf.get("start"), inf.get("step")
            why = None
            if st is None or step is None:
                why = "cursor that does not advance by a single rule"
            elif (not ptr and st != ZERO) or (ptr and self.list is not None and st != Poly.atom(self.list)):
                why = "cursor that does not start at the first record"
            elif not any(self.advances(cur, step, n, u) for n in self.count_at(rec)):
                why = "cursor that advances by %s instead of one plus the number of neighbors" % s.show(step.scale(Fraction(1, u)), 3)
            r = self.memo[cur] = (why,)
        return r[0]

    def neighbor(self, addr):
        """None if addr is entry 1+k of a record, else why not; '?' if not list-like."""
        s = self.s
        c = self.cursor_of(addr)
        if c is None:
            return "?"
        cur, rec = c
        bad = self.good_cursor(cur, rec)
        if bad:
            return bad
        d = addr - rec
        if d == ZERO:
            return "count"
        it = [a for a in d.atoms()]
        if len(it) == 1 and s.A.keys[it[0]][0] == "iter" and d - Poly.const(4) == Poly.atom(it[0]).scale(4):
            L = s.A.keys[it[0]][1]
            if any(s.trip(L) == n for n in self.count_at(rec)):
                return None
            return "position that runs to %s instead of the number of neighbors" % s.show(s.trip(L), 3)
        if all(s.A.keys[a][0] in KNOWN_SHAPES for a in it):
            return "position %s of the neighborhood record" % s.show(d.scale(Fraction(1, 4)), 3)
        return "?"

    def point(self, idx, blk):
        """(kind, None) if idx is a valid point; (None, why) if wrong; ('?', why) if unknown."""
        s, f = self.s, self.e.f
        a = self.single(idx)
        if a is None:
            if idx.is_const():
                return None, "the fixed point %s" % idx.const_value()
            if all(s.A.keys[x][0] in KNOWN_SHAPES for x in idx.atoms()):
                return None, "point %s" % s.show(idx, 3)
            return "?", "point %s" % s.show(idx, 3)
        k = s.A.keys[a]
        if k[0] == "iter":
            t = self.limit(k[1])
            if self.counts_points(t):
                return "counter", None
            return None, "point number running to %s instead of the number of owned points" % s.show(t, 3)
        if k[0] == "load":
            b, off = s.base_of(k[1])
            if b is not None and self.ids is not None and b == self.ids:
                it = self.single(off, 4)
                if it is not None and s.A.keys[it][0] == "iter" and self.counts_points(s.trip(s.A.keys[it][1])):
                    return "owned list", None
                return None, "entry %s of the list of owned points" % s.show(off.scale(Fraction(1, 4)), 3)
            w = self.neighbor(k[1])
            if w is None:
                return "neighbor", None
            if w == "count":
                return None, "the number of neighbors used as a point"
            if w != "?":
                return None, "a point read from the neighborhood list at a " + w
            if b is not None and self.list is not None and b == self.list and all(s.A.keys[x][0] in KNOWN_SHAPES for x in off.atoms()):
                return None, "entry %s of the neighborhood list" % s.show(off.scale(Fraction(1, 4)), 3)
            if b is not None and s.A.keys[b][0] not in ("arg", "rec") and off.const_value() is None:
                return "other list", None
            return "?", s.show(idx, 3)
        if k[0] in ("call", "pure"):
            return "lookup", None
        return "?", "point %s" % s.show(idx, 3)

    def strip_null(self, n):
        """A count that is zero only when a pointer is null."""
        s = self.s
        a = self.single(n)
        if a is not None and s.A.keys[a][0] == "sel":
            k = s.A.keys[a]
            t = self.single(k[1])
            if t is not None and s.A.keys[t][0] == "eq0" and self.single(s.A.keys[t][1]) is not None and s.A.info[self.single(s.A.keys[t][1])]["ptr"]:
                return [x for x in k[2:] if isinstance(x, Poly) and x != ZERO]
        return [n]

    def bond(self, off, ln):
        s, f = self.s, self.e.f
        c = off.t.get((), Fraction(0))
        comp = None
        for cc in range(ln):
            if (c - 8 * cc) % (8 * ln) == 0:
                comp = cc
        idx = None if comp is None else (off - Poly.const(8 * comp)).scale(Fraction(1, 8 * ln))
        its, ps, rest = [], [], []
        for m, co in (idx.t.items() if idx is not None else ()):
            k = s.A.keys[m[0][0]] if len(m) == 1 and m[0][1] == 1 and co == 1 else None
            if k and k[0] == "iter":
                its.append(k[1])
            elif k and k[0] == "psum":
                ps.append(k)
            else:
                rest.append(m)
        if idx is not None and not rest and len(its) == 1 and len(ps) == 1:
            inner, outer = its[0], ps[0][1]
            t = s.trip(inner)
            if f.loops[inner].par == outer and (t in self.strip_null(ps[0][2]) or self.same_count(outer, ps[0][2], t)) and (self.compute or self.counts_points(s.trip(outer))):
                return "ok", None
        if idx is not None and not rest and len(its) == 1 and not ps:
            t = self.single(s.trip(its[0]))
            if t is not None and s.A.keys[t][0] in ("vsize", "tsum"):
                return "ok", None
        where = "bond %s" % s.show(idx if idx is not None else off.scale(Fraction(1, 8 * ln)), 3)
        if all(s.A.keys[a][0] in KNOWN_SHAPES for a in off.atoms()):
            return None, where
        return "?", where


def one(ctx, c, kind, e):
    ctx.count("evaluations analysed")
    s, f = e.sem, e.f
    T = Typer(e, c.family == COMPUTE)
    seen = set()
    for ins, addr in [(x[0], x[1]) for x in s.stores] + [(x[0], x[1]) for x in s.loads]:
        a = e.access(addr)
        if a is None:
            continue
        if (a.key, a.off, a.fid) in seen:
            continue
        seen.add((a.key, a.off, a.fid))
        rel, ln = a.rel, a.len
        if rel is None:
            sp = spec_of(a.label)
            if sp is None:
                ctx.count("accesses to quantities only known at run time")
                continue
            rel, ln = sp[0], sp[1]
        where = "%s (%s)" % (ins.where(), ins.func())
        if rel == "GLOBAL":
            k = a.off.const_value()
            res = ("ok", None) if k is not None and k % 8 == 0 and 0 <= k < 8 * ln else (None, "entry %s of a global quantity of %d" % (s.show(a.off.scale(Fraction(1, 8)), 3), ln))
            ctx.count("global accesses typed")
        elif rel == "BOND":
            res = T.bond(a.off, ln)
            ctx.count("bond accesses typed")
        else:
            si = split_index(a.off, ln)
            flat = T.single(a.off, 8)
            ctx.count("point accesses typed")
            if flat is not None and s.A.keys[flat][0] == "iter" and ln > 1 and (T.counts_points(s.trip(s.A.keys[flat][1]), ln) or vsize(s, s.trip(s.A.keys[flat][1]))):
                res = ("flat", None)
            elif si is None:
                if all(s.A.keys[x][0] in KNOWN_SHAPES for x in a.off.atoms()):
                    res = (None, "offset %s, which is not a component of a point with %d components" % (s.show(a.off.scale(Fraction(1, 8)), 3), ln))
                else:
                    res = ("?", "offset %s" % s.show(a.off.scale(Fraction(1, 8)), 3))
            elif si[0].is_const() and s.A.keys[a.fid][0] != "view":
                ctx.count("accesses through merged pointers")
                continue
            else:
                res = T.point(si[0], ins.blk)
                if res[0] not in (None, "?"):
                    ctx.count("points given by " + res[0])
        report(ctx, c, kind, a.label, a.step, ins, where, res)
    if T.list is None:
        return
    for ins, addr, v in s.loads:
        b, off = s.base_of(addr)
        if b is None or ins.ty != "i32":
            continue
        k = s.A.keys[b]
        inlist = b == T.list or (k[0] == "rec" and s.A.info[b].get("start") == Poly.atom(T.list))
        if not inlist or addr in seen:
            continue
        seen.add(addr)
        ctx.count("neighborhood list reads typed")
        w = T.neighbor(addr)
        if w is None or w == "count":
            res = ("ok", None)
        elif w == "?":
            res = ("?" if not all(s.A.keys[x][0] in KNOWN_SHAPES for x in off.atoms()) else None, "entry %s" % s.show(off.scale(Fraction(1, 4)), 3))
        else:
            res = (None, w)
        report(ctx, c, kind, "neighborhood list", "", ins, "%s (%s)" % (ins.where(), ins.func()), res)


def vsize(s, t):
    return len(t.t) == 1 and any(s.A.keys[a][0] == "vsize" for a in t.atoms())


def report(ctx, c, kind, label, step, ins, where, res):
    ctx.obligation(res[0] not in (None, "?"))
    if res[0] == "?":
        ctx.undecided("%s::%s: %s at %s, %s" % (short(c), kind, label, where, res[1]))
    elif res[0] is None:
        ctx.violation("%s::%s:%s" % (short(c), kind, label), where, "%s::%s accesses %s at %s" % (short(c), kind, label, res[1]), path=[ins.path()])
    else:
        ctx.sample("%s::%s %s(%s): %s" % (short(c), kind, label, step, where))
