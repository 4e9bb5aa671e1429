"""Shape of indices into point and bond data."""
from fractions import Fraction
from .poly import Poly, ZERO, ONE


def neighborhood(e):
    """Pointer argument atoms holding int lists (owned ids, neighborhoods)."""
    return [e.sem.A.tab.get(("arg", a["id"])) for a in e.f.args if a["t"] == "p"][1:]


def bond_loop(e, off, ln=1):
    """(outer loop, inner loop) if off addresses the bond of the current (point,
    neighbor) iteration: ln*8 bytes * (bonds of all earlier points + position), else None."""
    s = e.sem
    idx = off.scale(Fraction(1, 8 * ln))
    its, ps, rest = [], [], []
    for m, c in idx.t.items():
        if len(m) == 1 and m[0][1] == 1 and c == 1:
            k = s.A.keys[m[0][0]]
            if k[0] == "iter":
                its.append(k[1])
                continue
            if k[0] == "psum":
                ps.append(k)
                continue
        rest.append((m, c))
    if rest or len(its) != 1 or len(ps) != 1:
        return None
    inner, outer = its[0], ps[0][1]
    if e.f.loops[inner].par != outer:
        return None
    if s.trip(inner) != ps[0][2]:
        return None
    return outer, inner


def full_loop(e, L):
    """Loop leaves only through its header test (or by throwing)."""
    f = e.f
    lp = f.loops[L]
    for b in lp.b:
        for x in f.succ[b]:
            if x not in lp.b and b != lp.h and not f.can_throw_only(x):
                return False
    return True


def unconditional(e, blk, outer, inner):
    s = e.sem
    g = s.block_conds(inner)[0].get(blk)
    h = s.block_conds(outer)[0].get(e.f.loops[inner].h)
    t = s.block_conds(None)[0].get(e.f.loops[outer].h)
    return g == ONE and h == ONE and t == ONE and full_loop(e, inner) and full_loop(e, outer)
