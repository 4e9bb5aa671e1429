"""C12: failures of mesh and results database operations are never lost.

Every database call is followed along all paths with the outcomes success and failure;
a path on which one failed must not come to a normal end."""
from ..paths import Explorer
from ..sem import base_callee
from ..whole import whole

OPENING = ("ex_open_int", "ex_create_int", "ex_open", "ex_create")
NO_STATUS = ("ex_opts", "ex_err", "ex_inquire_int", "ex_config", "ex_inquire")


def status_call(ins):
    c = ins.callee or ""
    return c.split("(")[0].startswith("ex_") and ins.ty == "i32" and c not in NO_STATUS


def short(c):
    return c[:-4] if c.endswith("_int") else c


def run(ctx):
    ctx.rule = ("On no path does a function end normally after a database call failed: the negative status reaches a test that ends in an "
                "error. Failures are injected at every call in turn and followed through copies, tests, merges and the reporting helpers.")
    ctx.assumptions += ["a failing database call returns a negative status", "calls on a database that could not be opened fail", "a positive status is a warning"]
    W = whole()
    users = [f for f in W.funcs if not f.internal and any(status_call(i) for i in f.instrs() if i.op in ("call", "invoke"))]
    touch = set(f.dem for f in users)
    for f in users:
        sites = [i for i in f.instrs() if i.op in ("call", "invoke") and status_call(i)]
        for site in sites:
            ctx.count("database calls")
            inject(ctx, f, site, touch)
    ctx.need("database calls", 60)


def inject(ctx, f, site, touch, first=None, depth=0):
    W = whole()
    first = first or site

    def step(g, ins, st):
        if ins is site:
            if st:
                return [(st, -1 if st == 2 else 0)]
            opens = site.callee in OPENING
            return [(2 if opens else 1, -1), (0, 3 if opens else 0)]
        if status_call(ins):
            return [(st, -1 if st == 2 else 3 if ins.callee in OPENING else 0)]
        return None

    def descend(g, ins):
        # reporting helpers and functions that work on the same database
        h = W.by_dem.get(ins.callee)
        if h is None or h is f:
            return None
        return h if sum(len(b) for b in h.blocks) < 400 and ex.knows(g, ins) else None
    ex = Explorer(step, descend)
    lost = handed = False
    for st, v in ex.run(f, 0):
        if st and (v is None or v == 0):
            lost = True
        elif st:
            handed = True                       # the failure is returned to the caller
    ctx.count("states followed", ex.n)
    if handed and not f.dem.startswith("main_") and depth < 4:
        for g, ins in W.callers.get(f.dem, ()):
            inject(ctx, g, ins, touch, first, depth + 1)
    ctx.obligation(not lost)
    if lost:
        ctx.violation("%s:%s" % (f.dem.split("(")[0].replace("PeridigmNS::", ""), short(first.callee)), "%s (%s)" % (first.where(), first.func()),
                      "a failure of %s goes unnoticed: %s continues to its normal end" % (short(first.callee), f.dem.split("(")[0].replace("PeridigmNS::", "")))
