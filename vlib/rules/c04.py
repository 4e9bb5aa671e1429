"""C04: results do not depend on a rigid translation.

Every load of a position, reference position or velocity component is replaced
by (value + shift of that component), with one symbol per quantity and
component.  No stored result, branch condition or call argument of the
evaluation may depend on a shift symbol after normalisation."""
from ..poly import Poly, ZERO
from ..universe import COMPUTE, models, spread, tasks, short
from ..model import Eval
from ..pair import split_index
from ..sem import PURE

SHIFT = {"Coordinates": "y", "Model_Coordinates": "x", "Velocity": "v"}
# quantities that are positions or displacements themselves, or an error measured against a field given in space
KINEMATIC = {"Coordinates", "Displacement", "Model_Coordinates", "Velocity", "Error"}
# quantities of motion, defined by the velocities (and the origin) themselves
MOTION = {"Kinetic_Energy", "Global_Kinetic_Energy", "Linear_Momentum", "Global_Linear_Momentum", "Angular_Momentum", "Global_Angular_Momentum"}
# models whose regions are placed in space by the user
PLACED = {"InitialDamageModel", "InterfaceAwareDamageModel", "Compute_Error"}
KINDS = ["initialize", "precompute", "computeForce", "computeFluxDivergence", "computeStoredElasticEnergyDensity", "computeDamage", "compute"]


def location(label):
    """Component of an input parameter that is a location in space, or None."""
    w = label.split()
    if w and w[-1] in ("X", "Y", "Z") and (len(w) == 1 or "Location" in w or "Position" in w):
        return "XYZ".index(w[-1])
    return None


def run(ctx):
    ctx.rule = ("For each material, damage, contact and derived-quantity evaluation: add a symbolic shift per component to every "
                "position, reference position and velocity read (and to input locations in space), value-number the inlined "
                "code, and require that no stored result, branch condition or call argument depends on a shift symbol.  "
                "Non-trivial: a stored result that depends on at least one position or velocity.")
    ctx.assumptions += ["floating-point arithmetic read as real arithmetic", "views of different fields do not overlap",
                        "initial damage regions, interfaces and user expressions are placed in space by the user and not moved"]
    spread(ctx, tasks(KINDS), lambda sub, t: evaluate(sub, models(), *t))
    ctx.need("evaluations reading positions or velocities", 35)
    ctx.need("results depending on positions or velocities", 300)


def buffer_key(s, base):
    return s.hatom(base)


def evaluate(ctx, M, c, kind):
    bufs = {}
    for attempt in range(4):
        und = []

        def subst(e, ins, acc):
            q = SHIFT.get(acc.label)
            if q is None or ins.ty != "d":
                return None
            si = split_index(acc.off, 3)
            if si is None:
                und.append(ins)
                return None
            return plain(e.sem, e._addr) + e.sem.atom("shift", q, si[1])

        def local(e, ins, addr):
            """Loads that are not field accesses."""
            s = e.sem
            if ins.ty != "d":
                return None
            base, off = s.base_of(addr)
            if base is None:
                return None
            if base == e.this and off.is_const():
                k = None
                for n in e.member_params(int(off.const_value())):
                    k = location(n) if k is None else k
                return plain(s, addr) + s.atom("shift", "x", k) if k is not None else None
            q = bufs.get(buffer_key(s, base))
            if q is None:
                return None
            v, ver = s.lookup(base, addr, 8, s.mem.get(base))
            if v is not None:
                return v
            si = split_index(off, 3)
            if si is None:
                und.append(ins)
                return None
            return s.loadatom(addr, base, ver, 8) + s.atom("shift", q, si[1])

        e = Eval(M, c, kind, subst=subst, local=local)
        s = e.sem
        if not any(k[0] == "shift" for k in s.A.tab):
            return
        # local arrays holding positions: same shift for the component stored
        new = dict(bufs)
        for ins, addr, val, ver in s.stores:
            if ins.x.get("vt") != "d" or e.access(addr) is not None:
                continue
            base, off = s.base_of(addr)
            if base is None or not s.depends(val, is_shift):
                continue
            bk = buffer_key(s, base)
            si = split_index(off, 3)
            if bk is None or si is None or bk in new:
                continue
            for q in SHIFT.values():
                if not s.depends(val - s.atom("shift", q, si[1]), is_shift):
                    new[bk] = q
        if new == bufs:
            break
        bufs = new
    ctx.count("evaluations reading positions or velocities")
    name = "%s::%s" % (short(c), kind)
    for ins in und:
        ctx.undecided("%s: component of a position read cannot be determined" % ins.where())

    def bad(ins, what, v):
        ctx.obligation(False)
        ctx.violation("%s:%s" % (name, what), "%s (%s)" % (ins.where(), ins.func()),
                      "%s: %s depends on absolute position or velocity" % (name, what), value=s.show(v, 4)[:800], path=[ins.path()])

    def reads(k):
        if k[0] != "load":
            return False
        a = e.access(k[1])
        return a is not None and a.label in SHIFT
    for ins, addr, val, ver in s.stores:
        a = e.access(addr)
        if a is not None and a.label in KINEMATIC | MOTION:
            continue
        if a is None:
            base, off = s.base_of(addr)
            if base is not None and s.depends(val, is_shift):
                q = bufs.get(buffer_key(s, base))
                si = split_index(off, 3)
                if q is not None and si is not None and not s.depends(val - s.atom("shift", q, si[1]), is_shift):
                    continue
                if s.A.keys[base][0] == "alloca" and all_tracked(e, base):
                    continue
                if c.family == COMPUTE and MOTION & labels(e):
                    continue
                if labels(e) <= KINEMATIC or short(c) in PLACED:
                    continue
                bad(ins, "a value kept in a local buffer", val)
            continue
        if s.depends(val, reads):
            ctx.count("results depending on positions or velocities")
            if s.depends(val, is_shift):
                bad(ins, a.label, val)
            else:
                ctx.obligation(True)
                ctx.sample("%s %s at %s" % (name, a.label, ins.where()))
    for ins in e.f.instrs():
        if ins.op == "br" and len(ins.a):
            v = s.opv(ins.a[0])
            if s.depends(v, reads):
                ctx.count("branches on positions or velocities")
                if s.depends(v, is_shift):
                    bad(ins, "a branch", v)
                else:
                    ctx.obligation(True)
    for ins, bc, args, mem in s.calls:
        if bc in PURE or "ostream" in (bc or "") or (bc or "").startswith(("llvm.", "std::pow", "std::sqrt", "std::abs")):
            continue
        for x in args:
            if s.depends(x, is_shift):
                bad(ins, "an argument of %s" % bc, x)


def is_shift(k):
    return k[0] == "shift"


def plain(s, addr):
    base, off = s.base_of(addr)
    v, ver = s.lookup(base, addr, 8, s.mem.get(base))
    if v is None:
        v = s.loadatom(addr, base, ver, 8)
    return v


def all_tracked(e, base):
    """Every load of the local object was resolved to a stored value."""
    s = e.sem
    for ins, addr, v in s.loads:
        b, off = s.base_of(addr)
        if b == base and any(s.A.keys[a][0] == "load" and s.A.info[a].get("base") == base for a in v.atoms()):
            return False
    # not handed to anyone else
    for ins, bc, args, mem in s.calls:
        if any(s.base_of(x)[0] == base for x in args):
            return False
    return True


def labels(e):
    """The quantities an evaluation produces."""
    labs = set()
    for ins, addr, val, ver in e.sem.stores:
        a = e.access(addr)
        if a is not None:
            labs.add(a.label)
    return labs
