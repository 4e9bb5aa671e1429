"""C23: what is written is the state of the step just solved, and a step is closed once.

Exchange analysis of the driver with the output as the use of the state, and a path
analysis of the step loops: solve, output, then one exchange of the time levels."""
from ..exchange import fn
from ..whole import whole
from . import c22


ALWAYS = c22.STATE | {"Force_Density", "Contact_Force_Density", "External_Force_Density"}


class Quiet:
    def __getattr__(self, n):
        return lambda *a, **k: None


def run(ctx):
    ctx.rule = ("On every path from a change of one of the driver's vectors to the output, the vector is handed to the blocks in "
                "between. In every step loop, the blocks exchange their time levels exactly once per step, after the output of the "
                "step, for every block, and nothing is evaluated between that exchange and the next step. The time given to the "
                "output is the time the boundary conditions of that step were applied for.")
    ctx.assumptions += ["a loop over the blocks visits all of them", "boundary conditions are applied to the driver's vectors in place"]
    c22.table(Quiet())
    c22.settings()
    for f in whole().funcs:
        if f.dem.startswith("PeridigmNS::Peridigm::"):
            F = fn(f.dem)
            written(ctx, F)
            steps(ctx, F)
    ctx.need("outputs reached", 5)
    ctx.need("changes of state followed", 40)
    ctx.need("step loops", 3)
    ctx.need("times compared", 1)


def outputs(F):
    """Output calls, and calls of helpers that write once."""
    out = [o.ins for o in F.ops if o.kind == "output"]
    for i, dem in c22.helpers(F):
        G = fn(dem)
        inner = outputs(G)
        if inner and not any(G.f.nest(x.blk) for x in inner):
            out.append(i)
    return out


def written(ctx, F):
    outs = outputs(F)
    ctx.count("outputs reached", len(outs))
    if not outs:
        return
    for vec, lab in sorted(c22.OWNER.items(), key=lambda x: x[1]):
        w = c22.Flow(F, vec, "output")
        if lab not in ALWAYS and not any(e[3] == "H" for e in w.ev):
            continue  # quantities of optional physics
        for c in w.ev:
            if c[3] != "W":
                continue
            ctx.count("changes of state followed")
            hit, _ = w.forward(c)
            ctx.obligation(not hit)
            if not hit:
                ctx.sample("%s: %s changed at %s is handed over before it is written" % (c22.name(F), lab, c[4].where()))
            else:
                ctx.violation("%s:%s:stale" % (c22.name(F), lab), "%s (%s)" % (c[4].where(), c[4].func()),
                              "%s changes %s and writes output (%s) without handing over the new values" % (c22.name(F), lab, hit[0][4].where().split("/")[-1]),
                              path=[c[4].path()])


def advances(F):
    """(block, instruction, complete) of every exchange of time levels of the blocks."""
    f = F.f
    for o in F.ops:
        if o.kind == "advance":
            n = f.nest(o.ins.blk)
            if n:
                lp = f.loops[n[0]]
                yield lp.h, o.ins, all(f.dominates(o.ins.blk, b) for b in lp.b if lp.h in f.succ[b])
            else:
                yield o.ins.blk, o.ins, False
    for i, dem in c22.helpers(F):
        G = fn(dem)
        for h, ins, full in advances(G):
            yield i.blk, i, full and all(G.f.dominates(h, b) for b in G.f.rpo if G.f.blocks[b][-1].op == "ret")


def steps(ctx, F):
    f = F.f
    outs = [i for i in outputs(F) if f.nest(i.blk)]
    if not outs:
        return
    advs = list(advances(F))
    for L in sorted(set(f.nest(i.blk)[-1] for i in outs)):
        lp = f.loops[L]
        ctx.count("step loops")
        out = [i for i in outs if i.blk in lp.b]
        adv = [(b, i, full) for b, i, full in advs if b in lp.b]
        use = out + [o.ins for o in F.ops if o.kind == "eval" and o.ins.blk in lp.b] + \
            [i for i, dem in c22.helpers(F) if i.blk in lp.b and uses(dem)]
        where = lambda i: "%s (%s)" % (i.where(), i.func())
        say = c22.name(F)
        for b, i, full in adv:
            ctx.count("time level exchanges")
            ctx.obligation(full)
            if not full:
                ctx.violation("%s:partial" % say, where(i), "%s exchanges the time levels of some blocks only" % say, path=[i.path()])
        heads = set(b for b, _, _ in adv)
        for i in out:
            ctx.count("outputs in step loops")
            ok = not inside(f, lp, i, {lp.h}, heads, adv)
            ctx.obligation(ok)
            if not ok:
                ctx.violation("%s:open" % say, where(i), "%s can start the next step after this output without exchanging the time levels" % say, path=[i.path()])
        for b, i, full in adv:
            own = f.nest(b)[0] if f.nest(b) and f.loops[f.nest(b)[0]].h == b and f.nest(b)[0] != L else None
            for u in use + [x for _, x, _ in adv]:
                if u is i or own is not None and u.blk in f.loops[own].b:
                    continue
                ok = not inside(f, lp, last(f, b, i, own), {u.blk}, {lp.h}, (), u)
                ctx.obligation(ok)
                ctx.count("order facts")
                if not ok:
                    ctx.violation("%s:order" % say, where(u), "%s uses the blocks in the same step after exchanging their time levels (%s)" % (say, i.where().split("/")[-1]), path=[u.path(), i.path()])
        times(ctx, F, lp, out)


def uses(dem):
    return any(o.kind in ("eval", "output") for o in fn(dem).ops)


class At:
    def __init__(self, blk, pos):
        self.blk, self.pos = blk, pos


def last(f, b, i, own):
    return i if own is None else At(b, 10 ** 9)


def inside(f, lp, start, goal, stop, adv, u=None):
    """A path inside loop lp from start to a goal block avoiding the stop blocks."""
    if u is not None and u.blk == start.blk and u.pos > start.pos:
        return True
    if any(b == start.blk and i.blk == b and i.pos > start.pos for b, i, _ in adv):
        return False
    seen, todo = set(), [start.blk]
    while todo:
        for x in f.succ[todo.pop()]:
            if x in goal:
                return True
            if x in seen or x in stop or x not in lp.b or f.can_throw_only(x):
                continue
            seen.add(x)
            todo.append(x)
    return False


def times(ctx, F, lp, outs):
    s = F.s
    bcs = [(i, A) for i, bc, A, m in s.calls if bc and bc.endswith("::applyBoundaryConditions") and i.blk in lp.b and len(A) == 3]
    for i, bc, A, m in s.calls:
        if not any(i is o for o in outs):
            continue
        t = A[2] if len(A) > 2 else None
        b = origin(s, t)
        for j, B in bcs:
            c, off = s.base_of(B[1])
            if b is None or c is None:
                ctx.count("times not compared")
                continue
            ctx.count("times compared")
            ok = b == c and not any(s.base_of(a)[0] == c and between(F.f, lp, j, st, i) for st, a, v, ver in s.stores)
            ctx.obligation(ok)
            if not ok:
                ctx.violation("%s:time" % c22.name(F), "%s (%s)" % (i.where(), i.func()),
                              "%s writes the state for another time than the boundary conditions of the step were applied for (%s)" % (c22.name(F), j.where().split("/")[-1]),
                              path=[i.path(), j.path()])


def origin(s, t):
    """The variable a value is the content of."""
    a = t.atoms() if t is not None else ()
    if len(a) == 1 and len(t.t) == 1:
        k = s.A.keys[next(iter(a))]
        if k[0] == "load" and list(t.t.values()) == [1]:
            return s.base_of(k[1])[0]
    return None


def between(f, lp, a, m, b):
    return m.blk in lp.b and inside(f, lp, a, {m.blk}, {lp.h}, (), m) and inside(f, lp, m, {b.blk}, {lp.h}, (), b)
