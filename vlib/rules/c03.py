"""C03: bond damage never heals.

For every damage model: the new-step bond damage starts the evaluation as a copy
of the previous-step bond damage (whole-vector copy, or a full loop over the
bonds), and every later write is at least the value it replaces."""
from fractions import Fraction
from ..poly import Poly, ZERO, ONE
from ..universe import models, each, tasks, short, DAMAGE, MATERIAL, CONTACT, COMPUTE
from ..model import Eval
from ..pair import prior
from ..index import bond_loop, unconditional
from ..mono import Order, interval

BD = "Bond_Damage"
CONFIRMED = ["CriticalStretchDamageModel", "InterfaceAwareDamageModel", "JohnsonCookDamageModel",
             "UserDefinedTimeDependentCriticalStretchDamageModel", "VonMisesStressDamageModel", "InitialDamageModel"]
# admissible values of the constants (checked by the constructors or documented)
PARAMS = {"Threshold Damage": (Fraction(0), Fraction(999, 1000)), "Critical Damage": (Fraction(1, 1000), Fraction(999, 1000))}


def is_bd(e, vec, step):
    fs = e.vec_info(vec)
    return len(fs) == 1 and fs[0][0][1] == BD and fs[0][1] == step


def whole_writes(e):
    """Operations on whole vectors holding new-step bond damage: (event, is copy of the previous step)."""
    out = []
    for ev in e.sem.events:
        if ev.kind == "veccopy" and is_bd(e, ev.d["dst"], "NP1"):
            out.append((ev, is_bd(e, ev.d["src"], "N")))
        elif ev.kind == "putscalar" and is_bd(e, ev.d["vec"], "NP1"):
            out.append((ev, False))
        elif ev.kind in ("memcpy", "memmove", "memset"):
            d = ev.d["args"]
            a = e.access(d[0])
            if a is not None and a.label == BD and a.step == "NP1":
                b = e.access(d[1]) if ev.kind != "memset" else None
                out.append((ev, bool(b is not None and b.label == BD and b.step == "N" and b.off == a.off)))
    for ins, bc, args, mem in e.sem.calls:
        if bc and bc.startswith("Epetra_MultiVector::") and args and bc.split("::")[1] in ("Update", "Scale", "Random", "Multiply", "Abs", "Reciprocal", "ReciprocalMultiply", "SetSeed", "ReplaceMap", "Import", "Export") and is_bd(e, args[0], "NP1"):
            m = bc.split("::")[1]
            cp = False
            if m == "Update" and len(args) == 4:
                cp = args[1].const_value() == 1 and args[3].const_value() == 0 and is_bd(e, args[2], "N")
            if m == "Scale" and len(args) == 3:
                cp = args[1].const_value() == 1 and is_bd(e, args[2], "N")

            class Ev:
                pass
            ev = Ev()
            ev.ins, ev.kind = ins, m
            out.append((ev, cp))
    return out


def writes(e, step="NP1"):
    out = []
    for st in e.sem.stores:
        if st[0].x.get("vt") != "d":
            continue
        a = e.access(st[1])
        if a is not None and a.label == BD and a.step == step:
            out.append((st, a))
    return out


def order(e, L, replace=None, capped=()):
    """capped: quantities shown to stay at most one."""
    s = e.sem

    def ranges(k):
        if k[0] == "load":
            a = e.access(k[1])
            if a is not None and a.label == BD:
                return Fraction(0), Fraction(1)
            if a is not None and a.label in capped:
                return None, Fraction(1)
        return None

    def prange(k):
        if k[0] == "load":
            b, off = s.base_of(k[1])
            if b == e.this and off.is_const():
                ps = e.member_params(int(off.const_value()))
                if len(ps) == 1:
                    return PARAMS.get(ps[0])
        return None

    def positive(p):
        iv = interval(s, p, prange)
        return iv is not None and iv[0] > 0
    return Order(e, L, ranges, positive, replace)


def before(e, a, b):
    """Instruction a is executed before b whenever b is (and is not in a loop b is outside of)."""
    f = e.f
    if a.blk == b.blk:
        ids = [i.id for i in f.blocks[a.blk]]
        return ids.index(a.id) < ids.index(b.id)
    return f.dominates(a.blk, b.blk)


def run(ctx):
    ctx.rule = ("For every damage evaluation: the new-step bond damage must be set from the previous-step bond damage for all "
                "bonds on every path before anything else is written to it, and every later write must be >= the value it "
                "replaces under its execution condition (case split on comparisons, linear facts).  A model that never writes "
                "bond damage while stepping must leave both time levels equal at initialisation.")
    ctx.assumptions += ["bond damage lies between 0 and 1", "floating-point arithmetic read as real arithmetic",
                        "views of different fields do not overlap",
                        "time levels are exchanged between steps (the evaluation sees the last accepted state as previous step)"]
    for n in CONFIRMED:
        if not any(short(c) == n for c, k in tasks(["computeDamage"], [DAMAGE], empty=True)):
            ctx.undecided("damage model %s is no longer found" % n)
    each(ctx, stepping, ["computeDamage"], [DAMAGE], empty=True)
    # no other evaluation may touch bond damage
    each(ctx, others, ["precompute", "computeForce", "computeFluxDivergence", "computeStoredElasticEnergyDensity", "compute", "pre_compute"], [MATERIAL, CONTACT, COMPUTE])
    ctx.need("bond damage writes examined", 6)
    ctx.need("damage evaluations analysed", 6)


def stepping(ctx, c, kind, e):
    ctx.count("damage evaluations analysed")
    decide(ctx, models(), c, kind, e)


def others(ctx, c, kind, e):
    ctx.count("other evaluations analysed")
    for st, a in writes(e) + writes(e, "N"):
        L = e.f.loop_of[st[0].blk]
        ok, why = order(e, L).ge(st[2], prior(e, st), e.sem.block_conds(L)[0].get(st[0].blk, ONE))
        report(ctx, c, kind, st[0], ok, "writes bond damage that may be smaller than before", why)
    for ev, cp in whole_writes(e):
        report(ctx, c, kind, ev.ins, False, "overwrites the whole bond damage", ev.kind)


def report(ctx, c, kind, ins, ok, msg, why):
    ctx.obligation(ok)
    where = "%s (%s)" % (ins.where(), ins.func())
    if ok:
        ctx.sample("%s::%s at %s: %s" % (short(c), kind, where, "never lowers the bond damage"))
    else:
        ctx.violation("%s::%s:%s" % (short(c), kind, msg[:40]), where, "%s::%s %s" % (short(c), kind, msg), why=why, path=[ins.path()])


def decide(ctx, M, c, kind, e):
    s, f = e.sem, e.f
    ws = writes(e)
    ww = whole_writes(e)
    for st, a in writes(e, "N"):
        ok = s.zero(st[2] - prior(e, st))
        report(ctx, c, kind, st[0], ok, "changes bond damage of the previous step", s.show(st[2], 2)[:200])
    if not ws and not ww:
        decide_constant(ctx, M, c, kind, e)
        return
    rets = [b for b in f.rpo if f.blocks[b] and f.blocks[b][-1].op == "ret"]
    copies = [ev for ev, cp in ww if cp and f.loop_of[ev.ins.blk] in (None, -1) and all(f.dominates(ev.ins.blk, r) for r in rets)]
    last = None
    for ev in copies:
        if last is None or before(e, last.ins, ev.ins):
            last = ev
    loopcopy = None
    if last is None:
        # a full loop that sets every bond to at least its previous-step value
        for st, a in ws:
            bl = bond_loop(e, a.off)
            if bl is None or not unconditional(e, st[0].blk, *bl):
                continue
            n = previous(e, a)
            if n is None:
                continue
            ok, why = order(e, bl[1]).ge(st[2], n, ONE)
            if ok:
                loopcopy = st
                break
    ctx.count("starts from the previous step")
    ok = last is not None or loopcopy is not None
    anchor = last.ins if last else loopcopy[0] if loopcopy else (ws[0][0][0] if ws else ww[0][0].ins)
    report(ctx, c, kind, anchor, ok, "does not start the new-step bond damage from the previous-step bond damage", "no copy of the previous step reaches every bond on every path")
    for ev, cp in ww:
        if cp and (last is None or ev is last):
            continue
        if last is not None and before(e, ev.ins, last.ins):
            continue
        if loopcopy is not None and before(e, ev.ins, loopcopy[0]) and e.f.loop_of[ev.ins.blk] in (None, -1):
            continue
        ctx.count("bond damage writes examined")
        report(ctx, c, kind, ev.ins, False, "overwrites the whole bond damage", ev.kind)
    first = last.ins if last else loopcopy[0] if loopcopy else None
    for st, a in ws:
        if loopcopy is not None and st is loopcopy:
            ctx.count("bond damage writes examined")
            continue
        if last is not None and not before(e, last.ins, st[0]) and before(e, st[0], last.ins):
            continue                # overwritten by the copy
        ctx.count("bond damage writes examined")
        L = f.loop_of[st[0].blk]
        L = None if L == -1 else L
        cond = s.block_conds(L)[0].get(st[0].blk, ONE)
        p = prior(e, st)
        o = order(e, L)
        ok, why = o.ge(st[2], p, cond)
        if not ok:
            driven, w2 = by_monotone_quantity(e, st, a, p, cond, L)
            if driven:
                ok = True
                ctx.count("writes driven by a non-decreasing quantity")
            elif w2:
                why = "%s; %s" % (why, w2)
        report(ctx, c, kind, st[0], ok, "may lower the bond damage of a bond", why)


def previous(e, a):
    """Load atom of the previous-step bond damage at the same place, if the evaluation reads it."""
    return prev_load(e, BD, a)


def prev_load(e, label, a):
    s = e.sem
    for ins, addr, v in s.loads:
        b = e.access(addr)
        if b is not None and b.label == label and b.step == "N" and b.off == a.off and len(v.t) == 1:
            return v
    return None


def by_monotone_quantity(e, st, a, p, cond, L):
    """val = F(Q new) where Q is another bond quantity that never decreases, F is the
    same function every step, and the bond damage is written nowhere else: then the
    previous bond damage is F(Q previous)."""
    s = e.sem
    if len(writes(e)) != 1 or cond != ONE:
        return False, None
    for st2, q in [(x, e.access(x[1])) for x in s.stores if x[0].x.get("vt") == "d"]:
        if q is None or q.rel != "BOND" or q.label == BD or q.step != "NP1" or q.off != a.off:
            continue
        # last value of Q before the write of the damage
        b, off = s.base_of(st2[1])
        addr = st2[1]
        x = content_before(e, st[0], b, addr)
        qn = prev_load(e, q.label, q)
        if x is None or qn is None:
            continue
        cap = (q.label,) if order(e, L).ge(ONE, x, cond)[0] else ()
        ok, why = order(e, L, capped=cap).ge(x, qn, cond)
        if not ok:
            return False, "driving quantity %s may decrease: %s" % (q.label, why)
        at = [t for t in x.atoms() if x.t.get(((t, 1),)) is not None and s.A.keys[t][0] in ("phi", "sel", "fn")]
        for t in at:
            k = x.t[((t, 1),)]
            rest = x - Poly({((t, 1),): k})
            qat = (qn - rest).scale(Fraction(1) / k)
            # F(previous): the damage value with the driving quantity replaced
            if not s.depends(st[2], lambda kk: kk == s.A.keys[t]):
                continue
            pv = replace_deep(s, st[2], t, qat)
            ok, why = order(e, L, capped=cap).ge(st[2], pv, cond)
            return (True, None) if ok else (False, why)
    return False, None


def content_before(e, ins, base, addr):
    """Value at addr at the end of the block of ins."""
    s = e.sem
    v, stop = s.lookup(base, addr, 8, mem_at(e, ins, base))
    return v


def mem_at(e, ins, base):
    """Version of object base at the end of the block of ins (the driving quantity is not written later in it)."""
    return e.sem.mem_out[ins.blk].get(base)


def replace_deep(s, p, at, by, memo=None):
    memo = {} if memo is None else memo
    out = ZERO
    for m, c in p.t.items():
        t = Poly.const(c)
        for a, ex in m:
            r = replace_atom(s, a, at, by, memo)
            if ex > 0:
                for _ in range(ex):
                    t = s.mul(t, r)
            else:
                for _ in range(-ex):
                    t = s.mul(t, s.inv(r))
        out = out + t
    return s.bnorm(out)


def replace_atom(s, a, at, by, memo):
    if a == at:
        return by
    if a in memo:
        return memo[a]
    k = s.A.keys[a]
    r = Poly.atom(a)
    if s.depends(r, lambda kk: kk == s.A.keys[at]):
        if k[0] == "phi":
            # merge whose conditions depend on the replaced value as well: write it as selections
            r = phi_as_sel(s, k, at, by, memo)
        elif k[0] == "sel":
            c, x, y = (replace_deep(s, z, at, by, memo) for z in k[1:4])
            r = s.select(c, x, y, "d")
        elif k[0] in ("gt0", "eq0"):
            d = replace_deep(s, k[1], at, by, memo)
            r = s.compare("ogt" if k[0] == "gt0" else "oeq", d, ZERO)
        elif k[0] == "fn":
            r = s.pure(k[1], [replace_deep(s, z, at, by, memo) for z in k[2:]])
        elif k[0] == "poly":
            r = replace_deep(s, k[1], at, by, memo)
    memo[a] = r
    return r


def phi_as_sel(s, k, at, by, memo):
    blk = k[1]
    L = s.f.loop_of[blk]
    G, edge = s.block_conds(None if L == -1 else L)
    r = None
    for frm, v in zip(k[2], k[3]):
        v = replace_deep(s, v, at, by, memo)
        w = edge.get((frm, blk))
        if w is None:
            return Poly.atom(s.A.tab[k])
        w = replace_deep(s, w, at, by, memo)
        r = v if r is None else s.select(w, v, r, "d")
    return r


def decide_constant(ctx, M, c, kind, e):
    """Nothing is written while stepping: both time levels must agree from the start."""
    ctx.count("evaluations that leave bond damage alone")
    f = c.methods.get("initialize")
    if f is None or sum(len(b) for b in f.blocks) < 3:
        return
    i = Eval(M, c, "initialize")
    s = i.sem
    ws, wn = writes(i), writes(i, "N")
    ok = not ws and not wn
    anchor = ws[0][0][0] if ws else (wn[0][0][0] if wn else None)
    for st, a in wn + ws:
        bl = bond_loop(i, a.off)
        if bl is None or not unconditional(i, st[0].blk, *bl):
            continue
        other = "NP1" if a.step == "N" else "N"
        for at in st[2].atoms():
            k = s.A.keys[at]
            if k[0] == "load" and st[2] == Poly.atom(at):
                b = i.access(k[1])
                if b is not None and b.label == BD and b.step == other and b.off == a.off:
                    ok = True
    for ev in s.events:
        if ev.kind == "veccopy":
            ok = ok or (is_bd(i, ev.d["dst"], "N") and is_bd(i, ev.d["src"], "NP1")) or (is_bd(i, ev.d["dst"], "NP1") and is_bd(i, ev.d["src"], "N"))
    if anchor is None and not ok:
        return
    if anchor is None:
        ctx.obligation(True)
        return
    ctx.count("bond damage writes examined")
    report(ctx, c, "initialize", anchor, ok, "leaves the two time levels of the bond damage different", None)
