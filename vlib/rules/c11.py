"""C11: user-defined expressions are pure functions of their documented inputs.

Typestate of run-time compiled functions over all paths: inputs set, result cleared,
executed, read; every failure ends in an error."""
import os
from ..exchange import driver
from ..paths import Explorer
from ..sem import base_callee
from ..whole import whole

RT = "PG_RuntimeCompiler::Function::"
RESULT = "value"


def stem(path):
    return os.path.splitext(os.path.basename(path))[0]


def run(ctx):
    ctx.rule = ("On every path, a run-time compiled expression is executed only after its body was accepted and each of its variables "
                "was set successfully, with its result variable cleared since the previous execution; its result is read only after a "
                "successful execution; and no path returns normally after a failed step. Coordinates are set from consecutive "
                "components, times and results correspond.")
    ctx.assumptions += ["a variable that an expression overwrites is not an input of a later evaluation at the same point"]
    W = whole()
    names = variables(ctx)
    users = [f for f in W.calling(r"^PG_RuntimeCompiler::Function::(execute|varValueFill|addBody|getValueOfVar)") if not f.internal]
    touch = set(f.dem for f in users)
    roots = [f for f in users if not any(c.dem in touch for c, _ in W.callers.get(f.dem, ()))]
    done = set()
    for f in roots:
        done |= explore(ctx, f, names, touch)
    for f in users:
        if f.dem not in done:
            explore(ctx, f, names, touch)
        inputs(ctx, f, names)
    precision(ctx)
    ctx.need("expression kinds", 3)
    ctx.need("executions", 4)
    ctx.need("inputs set", 8)


def variables(ctx):
    """Source file stem -> variable names in order of declaration."""
    out = {}
    W = whole()
    for f in W.calling(r"^PG_RuntimeCompiler::Function::addVar$"):
        s = W.sem(f)
        L = [(ins.blk, ins.pos, s.texts[ins.id][2]) for ins, bc, A, m in s.calls if bc == RT + "addVar" and len(A) == 3]
        L.sort(key=lambda x: (f.rpo.index(x[0]), x[1]))
        out.setdefault(stem(f.file), [x[2] for x in L])
        ctx.count("expression kinds")
    return out


def kind(f, names):
    return names.get(stem(f.file)) or ()


def explore(ctx, f0, names, touch):
    W = whole()
    cnt = set()

    def report(f, ins, tag, msg):
        ctx.obligation(False)
        ctx.violation("%s:%s" % (f.dem.split("(")[0].replace("PeridigmNS::", ""), tag), "%s (%s)" % (ins.where(), ins.func()), msg, path=[ins.path()])

    def step(f, ins, st):
        bc = base_callee(ins.callee) if ins.callee else None
        if not bc or not bc.startswith(RT):
            return None
        m = bc[len(RT):].split("[")[0]
        vs = kind(f, names)
        filled, failed, ready = st
        if m == "addBody":
            return [((filled, failed, ready), 1), ((filled, ins.where(), False), 0)]
        if m == "varValueFill":
            k = ex.val(ex.known, ins.a[1])
            cnt.add(("inputs set", ins.id, f.dem))
            ok = filled | {k}
            return [((ok, failed, ready), 1), ((filled, ins.where(), ready), 0)]
        if m == "execute":
            cnt.add(("executions", ins.id, f.dem))
            if failed:
                report(f, ins, "unchecked", "the expression is evaluated although setting it up failed (%s)" % failed.split("/")[-1])
            for k, v in enumerate(vs):
                ctx.count("variables required")
                if k not in filled:
                    report(f, ins, "unset:%s" % v, "the expression is evaluated without %s" % ("clearing its result" if v == RESULT else "setting %s" % v))
                else:
                    ctx.obligation()
            r = vs.index(RESULT) if RESULT in vs else None
            filled = filled - {r}
            return [((filled, failed, True), 1), ((filled, ins.where(), False), 0)]
        if m == "getValueOfVar":
            cnt.add(("results read", ins.id, f.dem))
            ctx.obligation(ready)
            if not ready:
                report(f, ins, "notrun", "the result is read on a path on which the expression was not evaluated successfully")
            return [(st, None)]
        return [(st, None)]

    def descend(f, ins):
        return W.by_dem.get(ins.callee) if ins.callee in touch else None

    ex = Explorer(step, descend, count=8)
    for st, v in ex.run(f0, (frozenset(), None, False)):
        ctx.obligation(st[1] is None)
        if st[1] is not None:
            where = st[1]
            ctx.violation("%s:swallowed" % f0.dem.split("(")[0].replace("PeridigmNS::", ""), "%s (%s)" % (where, f0.dem.split("(")[0]),
                          "a failure to set up or evaluate the expression (%s) is not reported" % where.split("/")[-1])
    for k, _, _ in cnt:
        ctx.count(k)
    ctx.count("paths with distinct status", ex.n)
    ctx.sample("%s: %d states explored" % (f0.dem.split("(")[0], ex.n))
    return ex.visited


def component(s, v):
    """(base address, byte offset) of a value loaded from memory, or the parameter."""
    a = v.atoms()
    if len(v.t) == 1 and len(a) == 1:
        k = s.A.keys[next(iter(a))]
        if k[0] == "load":
            return k[1]
    return None


def inputs(ctx, f, names):
    """Coordinates come from consecutive components; the value reported for one of two
    times is that of the evaluation at this time."""
    s = whole().sem(f)
    vs = kind(f, names)
    fills = {}
    seq = []
    for ins, bc, A, m in sorted(((i, b, a, m) for i, b, a, m in s.calls if b and b.startswith(RT)), key=lambda x: (f.rpo.index(x[0].blk), x[0].pos)):
        op = bc[len(RT):]
        if op == "varValueFill" and A[1].const_value() is not None and int(A[1].const_value()) < len(vs):
            n = vs[int(A[1].const_value())]
            fills.setdefault(n, []).append((ins, A[2]))
            seq.append((n, ins, A[2]))
        elif op.startswith("getValueOfVar"):
            seq.append(("get", ins, None))
    if all(n in fills for n in "xyz"):
        tri = [[component(s, v) for _, v in fills[n]] for n in "xyz"]
        ins = fills["x"][0][0]
        if all(len(t) == 1 and t[0] is not None for t in tri):
            d = [(t[0] - tri[0][0]).const_value() for t in tri]
            ctx.count("coordinate triples")
            ctx.obligation(d == [0, 8, 16])
            if d != [0, 8, 16]:
                ctx.violation("%s:coordinates" % f.dem.split("(")[0].replace("PeridigmNS::", ""), "%s (%s)" % (ins.where(), ins.func()), "x, y and z are not set from consecutive components of one position")
            reference(ctx, f, s, ins, tri[0][0])
        elif all(len(fills[n]) == 1 for n in "xyz"):
            ids = [arg_index(s, f, fills[n][0][1]) for n in "xyz"]
            if all(i is not None for i in ids):
                callers_pass(ctx, f, ids)
    outs = {}
    t = None
    for n, ins, v in seq:
        if n == "t":
            t = v
        elif n == "get" and t is not None:
            for st, addr, val, ver in s.stores:
                if any(s.A.keys[a][0] == "call" and s.A.keys[a][1] == ins.id for a in val.atoms()) and arg_index(s, f, addr) is not None:
                    tv = component(s, t)
                    ti = arg_index(s, f, tv) if tv is not None else arg_index(s, f, t)
                    if ti is not None:
                        outs[arg_index(s, f, addr)] = (ti, ins)
    if len(outs) == 2:
        (a, (ta, i1)), (b, (tb, i2)) = sorted(outs.items())
        ctx.count("pairs of times and results")
        ctx.obligation(ta < tb)
        if not ta < tb:
            ctx.violation("%s:times" % f.dem.split("(")[0].replace("PeridigmNS::", ""), "%s (%s)" % (i1.where(), i1.func()), "the value reported for one time is that of the evaluation at %s" % ("the other time" if ta > tb else "the same time as the other value"))


def precision(ctx):
    """A number of the input deck that is turned into expression text keeps its digits."""
    W = whole()
    for f in W.calling(r"^std::(ostream::operator<<|__cxx11::to_string|to_string)"):
        if not any("ParameterList" in c for _, c in W.callees[f.dem]):
            continue
        s = W.sem(f)
        of = {}
        for ins, bc, A, m in s.calls:
            of[ins.id] = (ins, bc, A)

        def root(v):
            """Stream object at the head of a chain of insertions."""
            for _ in range(50):
                b = s.base_of(v)[0]
                if b is None:
                    return None
                k = s.A.keys[b]
                if k[0] == "call" and k[1] in of and "operator<<" in (of[k[1]][1] or ""):
                    v = of[k[1]][2][0]
                else:
                    return b if k[0] == "alloca" else None
            return None

        def from_deck(v):
            return any(s.A.keys[a][0] == "load" and any(s.A.keys[x][0] == "param" for x in s.A.keys[a][1].atoms()) for a in v.atoms())
        for ins, bc, A, m in s.calls:
            if "to_string(double)" in (ins.callee or "") and any(from_deck(a) for a in A):
                ctx.obligation(False)
                ctx.violation("%s:digits" % f.dem.split("(")[0].replace("PeridigmNS::", ""), "%s (%s)" % (ins.where(), ins.func()), "a number from the input is turned into text with six decimals")
            if (ins.callee or "") != "std::ostream::operator<<(double)" or not from_deck(A[1]):
                continue
            r = root(A[0])
            if r is None:
                continue
            words = [i for i, b, a, _ in s.calls if b and b.startswith("std::operator<<<") and a and root(a[0]) == r and "_Setprecision" not in i.callee]
            if words:
                continue                        # a message
            ok = False
            for i, b, a, _ in s.calls:
                if not b or not f.dominates(i.blk, ins.blk) or (i.blk == ins.blk and i.pos > ins.pos):
                    continue
                if b == "std::ios_base::precision" and any(x == r for x in a[0].atoms()):
                    ok = a[1].const_value() is not None and a[1].const_value() >= 16
                elif b.startswith("std::operator<<<") and "_Setprecision" in i.callee and root(a[0]) == r:
                    ok = a[1].const_value() is not None and a[1].const_value() >= 16
            ctx.count("numbers turned into expressions")
            ctx.obligation(ok)
            if not ok:
                ctx.violation("%s:digits" % f.dem.split("(")[0].replace("PeridigmNS::", ""), "%s (%s)" % (ins.where(), ins.func()), "a number from the input loses digits when it is turned into text")


def arg_index(s, f, v):
    if v is None:
        return None
    for k, a in enumerate(f.args):
        if v == s.val.get(a["id"]):
            return k
    return None


def reference(ctx, f, s, ins, addr):
    """The positions handed to an expression are the reference positions."""
    b = s.base_of(addr)[0]
    k = s.A.keys[b] if b is not None else (None,)
    if k[0] != "view":
        return
    h = [x for a in k[1].atoms() for x in [s.A.keys[a]] if x[0] == "load"]
    place = s.base_of(h[0][1])[0] if h else None
    got = set()
    for i, bc, A, m in s.calls:
        g = whole().by_dem.get(i.callee)
        if g is not None and g.dem.startswith("PeridigmNS::Peridigm::") and len(A) == 2 and place is not None and s.base_of(A[0])[0] == place:
            t = whole().sem(g)
            for _, bc2, A2, _ in t.calls:
                if bc2 and bc2.startswith("Teuchos::RCP<") and len(A2) == 2 and t.base_of(A2[1])[1] is not None:
                    got.add(t.base_of(A2[1])[1].const_value())
    moving = set(o.vec[1] for F in driver() for o in F.ops if o.kind == "import" and o.vec[0] == "m" and F.f.dem.startswith("PeridigmNS::Peridigm::"))
    if got and moving and None not in got:
        ctx.count("reference positions handed over")
        ctx.obligation(not got & moving)
        if got & moving:
            ctx.violation("%s:reference" % f.dem.split("(")[0].replace("PeridigmNS::", ""), "%s (%s)" % (ins.where(), ins.func()), "the expression is evaluated at positions other than the reference positions")


def callers_pass(ctx, f, ids):
    for g, ins in whole().callers.get(f.dem, ()):
        s = whole().sem(g)
        for i, bc, A, m in s.calls:
            if i is ins:
                cs = [component(s, A[k]) for k in ids]
                if all(c is not None for c in cs):
                    d = [(c - cs[0]).const_value() for c in cs]
                    ctx.count("coordinate triples")
                    ctx.obligation(d == [0, 8, 16])
                    if d != [0, 8, 16]:
                        ctx.violation("%s:coordinates" % g.dem.split("(")[0].replace("PeridigmNS::", ""), "%s (%s)" % (i.where(), i.func()), "x, y and z are not passed from consecutive components of one position")
