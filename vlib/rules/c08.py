"""C08: evaluations never modify previous-step state or their inputs.

Effect analysis: the set of (quantity, time level) pairs an evaluation can write,
through any pointer, whole-vector operation or callee, must not contain a
previous-step level, a quantity supplied by the driver, or the point and
neighbor lists."""
from ..poly import Poly
from ..universe import each, short
from ..pair import prior

# quantities that only the driver (or the input) sets
SUPPLIED = {"Model_Coordinates", "Coordinates", "Displacement", "Velocity", "Volume", "Horizon", "Block_Id", "Element_Id",
            "Proc_Num", "Temperature", "Temperature_Change", "Fluid_Pressure_Y", "Fluid_Pressure_U", "Fluid_Pressure_V",
            "Concentration", "Density", "Self_Volume", "Neighbor_Volume", "Self_Centroid_X", "Self_Centroid_Y", "Self_Centroid_Z",
            "Neighbor_Centroid_X", "Neighbor_Centroid_Y", "Neighbor_Centroid_Z"}
KINDS = ["precompute", "computeForce", "computeFluxDivergence", "computeStoredElasticEnergyDensity", "computeDamage", "compute", "pre_compute"]
MUTATORS = ("Update", "Scale", "Random", "Multiply", "Abs", "Reciprocal", "ReciprocalMultiply", "PutScalar", "Import", "Export",
            "ReplaceGlobalValue", "ReplaceGlobalValues", "ReplaceMyValue", "ReplaceMyValues", "SumIntoGlobalValue",
            "SumIntoGlobalValues", "SumIntoMyValue", "SumIntoMyValues", "operator=", "Norm2Weighted")


def run(ctx):
    ctx.rule = ("Effect analysis of each evaluation after inlining: every store, block copy/fill and whole-vector operation is "
                "resolved to the (quantity, time level) pairs it may write; a previous-step level, a driver-supplied quantity or "
                "an integer list argument among them is a violation unless the value written is provably the value present.")
    ctx.assumptions += ["views of different fields do not overlap", "library calls modify only their non-const arguments"]
    each(ctx, one, KINDS)
    ctx.need("evaluations analysed", 55)
    ctx.need("field stores examined", 1200)
    ctx.need("whole-vector writes examined", 60)


def verdict(ctx, c, kind, ins, label, step, ok):
    ctx.obligation(ok)
    where = "%s (%s)" % (ins.where(), ins.func())
    if ok:
        ctx.sample("%s::%s writes %s(%s) at %s" % (short(c), kind, label, step, where))
        return
    what = "previous-step values of %s" % label if step == "N" else label
    ctx.violation("%s::%s:%s(%s)" % (short(c), kind, label, step), where, "%s::%s modifies %s" % (short(c), kind, what), path=[ins.path()])


def one(ctx, c, kind, e):
    s = e.sem
    ctx.count("evaluations analysed")
    for st in s.stores:
        a = e.access(st[1])
        if a is not None:
            ctx.count("field stores examined")
            same = None
            for fk, step in a.cands:
                bad = step == "N" or fk[1] in SUPPLIED
                ok = not bad
                if bad:
                    if same is None:
                        same = s.zero(st[2] - prior(e, st))
                    ok = same
                verdict(ctx, c, kind, st[0], fk[1], step, ok)
            continue
        b, off = s.base_of(st[1])
        if b is None:
            continue
        k = s.A.keys[b]
        if k[0] == "arg" and st[0].x.get("vt") == "i32" and b != e.this:
            ctx.count("list stores examined")
            verdict(ctx, c, kind, st[0], "point or neighbor list", "-", s.zero(st[2] - prior(e, st)))
    for ev in s.events:
        if ev.kind in ("memcpy", "memmove", "memset"):
            a = e.access(ev.d["args"][0])
            if a is not None:
                ctx.count("block writes examined")
                for fk, step in a.cands:
                    verdict(ctx, c, kind, ev.ins, fk[1], step, step != "N" and fk[1] not in SUPPLIED)
    for ins, bc, args, mem in s.calls:
        if not bc or not bc.startswith("Epetra_") or not args:
            continue
        if bc.rsplit("::", 1)[-1] not in MUTATORS:
            continue
        for fk, step in e.vec_info(args[0]):
            ctx.count("whole-vector writes examined")
            verdict(ctx, c, kind, ins, fk[1], step, step != "N" and fk[1] not in SUPPLIED)
