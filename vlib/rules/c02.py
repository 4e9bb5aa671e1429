"""C02: a fully broken bond transmits nothing.

The loads of the bond damage inside the loops that accumulate pair
contributions are replaced by the constant one; every increment of a force,
flow or partial stress in those loops must then be the zero polynomial."""
from ..poly import ZERO, ONE
from ..universe import models, each, short, MATERIAL
from ..model import Eval
from ..pair import increments, neighbor_loops, has_tsum
from .c01 import configurations, bondwise

TRANSMITTED = ("Force_Density", "Partial_Stress")
# Material models confirmed to take bond damage into account (a model that reads the
# bond damage is recognised by itself; this list keeps one that stops reading it).
AWARE = ["ElasticBondBasedMaterial", "ElasticMaterial", "ElasticPlasticMaterial", "ElasticPlasticHardeningMaterial",
         "ViscoelasticMaterial", "LinearLPSPVMaterial", "MultiphysicsElasticMaterial",
         "ElasticHypoelasticCorrespondenceMaterial", "ElasticBondAssociatedCorrespondenceMaterial"]
PREPARE = ["initialize", "precompute"]


def transmitted(label):
    return label in TRANSMITTED


def reads_damage(e):
    for ins, addr, v in e.sem.loads:
        a = e.access(addr)
        if a is not None and a.label == "Bond_Damage":
            return True
    return False


def overwritten(e, k):
    """Is store k overwritten by a later store to the same address whenever it happens?"""
    s = e.sem
    ins, addr = s.stores[k][0], s.stores[k][1]
    for ins2, addr2, v2, ver2 in s.stores[k + 1:]:
        if addr2 == addr and e.f.postdominates(ins2.blk, ins.blk) and e.f.loop_of[ins.blk] == e.f.loop_of[ins2.blk]:
            return True
    return False


def carriers(M, c):
    """Per-bond quantities that are zero for a broken bond wherever the model sets them."""
    good, bad = set(), set()

    def subst(e, ins, acc):
        return ONE if acc.label == "Bond_Damage" else None
    for kind in PREPARE + ["computeForce"]:
        f = c.methods.get(kind)
        if f is None or sum(len(b) for b in f.blocks) < 3:
            continue
        e = Eval(M, c, kind, subst=subst)
        for k, (ins, addr, val, ver) in enumerate(e.sem.stores):
            if ins.x.get("vt") != "d":
                continue
            a = e.access(addr)
            if a is None or a.rel != "BOND" or a.label == "Bond_Damage":
                continue
            if e.sem.zero(val):
                good.add(a.label)
            elif not overwritten(e, k):
                bad.add(a.label)
    return good - bad


def run(ctx):
    ctx.rule = ("For each material evaluation that announces the bond damage: replace the bond-damage value inside the loops "
                "over neighbors by 1 in the value numbering and require every increment of a force, flow or partial-stress "
                "quantity made in these loops (or carried out of them in an accumulator) to be the zero polynomial.")
    ctx.assumptions += ["floating-point arithmetic read as real arithmetic", "views of different fields do not overlap"]
    each(ctx, one, ["computeForce"], [MATERIAL])
    ctx.need("damage-aware evaluations", 8)
    ctx.need("pair contributions examined", 40)


def one(ctx, c, kind, e0):
    M = models()
    aware = reads_damage(e0)
    if not aware:
        for k in PREPARE:
            f = c.methods.get(k)
            if f is not None and sum(len(b) for b in f.blocks) >= 3 and reads_damage(Eval(M, c, k)):
                aware = True
    if not aware and short(c) not in AWARE:
        ctx.count("evaluations without damage support")
        return
    ctx.count("damage-aware evaluations")
    carry = set()
    if any(c.methods.get(k) is not None for k in PREPARE):
        carry = carriers(M, c)
        for n in sorted(carry):
            ctx.info.setdefault("zero for broken bonds", []).append("%s: %s" % (short(c), n))
    incs0 = [i for i in increments(e0) if transmitted(i.acc.label)]
    loops = set()
    for i in incs0:
        for L in e0.f.nest(i.ins.blk):
            if is_bond_loop(e0, L):
                loops.add(L)
        for L in range(len(e0.f.loops)):
            if has_tsum(e0, i.inc, L):
                loops.add(L)
    if not loops:
        if incs0:
            ctx.count("evaluations without pair contributions")
        return
    blocks = set()
    for L in loops:
        blocks |= set(e0.f.loops[L].b)

    def subst(e, ins, acc):
        if ins.blk in blocks and acc.label == "Bond_Damage":
            return ONE
        if ins.blk in blocks and acc.label in carry:
            return ZERO
        return None
    e = Eval(M, c, kind, subst=subst)
    s = e.sem
    for i in increments(e):
        if not transmitted(i.acc.label):
            continue
        nest = [L for L in e.f.nest(i.ins.blk) if L in loops]
        late = [L for L in loops if has_tsum(e0, inc_at(incs0, i), L)]
        if not nest and not late:
            continue
        ctx.count("pair contributions examined")
        inc = i.inc
        L = nest[0] if nest else late[0]
        if nest:
            g = s.block_conds(L)[0].get(i.ins.blk)
            if g is not None and g.is_zero():
                inc = ZERO          # never reached for a broken bond
        ok, res = vanishes(e, inc, L)
        ctx.obligation(ok)
        name = "%s::%s %s" % (short(c), kind, i.acc.label)
        where = "%s (%s)" % (i.ins.where(), i.ins.func())
        if ok:
            ctx.sample("%s at %s: zero when the bond is broken" % (name, where))
        else:
            ctx.violation("%s::%s:%s" % (short(c), kind, i.acc.label), where,
                          "%s: a broken bond still contributes" % name, residual=res, path=[i.ins.path()])


def inc_at(incs, i):
    for j in incs:
        if j.ins.id == i.ins.id:
            return j.inc
    return ZERO


def is_bond_loop(e, L):
    """Innermost loop whose trip count is read from memory and varies with the point."""
    s = e.sem
    t = e.f.loops[L]
    for ins in e.f.instrs():
        if ins.blk in t.b and ins.op == "load":
            v = s.val.get(ins.id)
            if v is None or ins.ty != "d":
                continue
            for a in v.atoms():
                k = s.A.keys[a]
                if k[0] == "load":
                    b, off = s.base_of(k[1])
                    if any(s.A.keys[x][0] == "load" and L in s.avar(x) for x in off.atoms()):
                        return e.f.loops[L].kids == [] or all(not is_bond_loop(e, k2) for k2 in e.f.loops[L].kids)
    return False


def vanishes(e, inc, L):
    s = e.sem
    if s.zero(inc):
        return True, None
    x = s.expand(inc, L)
    for env, y in configurations(e, x):
        if s.zero(y) or bondwise(e, y):
            continue
        return False, s.show(y, 4)[:1200]
    return True, None
