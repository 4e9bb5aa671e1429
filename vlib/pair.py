"""Per-iteration increments of accumulated fields in neighbor loops."""
from fractions import Fraction
from .poly import Poly, ZERO, ONE


class Inc:
    """One accumulation: field, point index, component, increment, where."""
    __slots__ = ("ins", "acc", "idx", "comp", "inc", "loop", "raw", "local")


def split_index(off, ln):
    """Byte offset -> (point index, component) for ln doubles per point."""
    c = off.t.get((), Fraction(0))
    if c.denominator != 1 or int(c) % 8:
        return None
    k = int(c) // 8
    comp = k % ln
    rest = off - Poly.const(8 * comp)
    idx = rest.scale(Fraction(1, 8 * ln))
    if any(v.denominator != 1 for v in idx.t.values()):
        return None
    return idx, comp


def prior(e, store):
    """Value held at the address right before the store."""
    s = e.sem
    ins, addr, val, ver = store
    base, off = s.base_of(addr)
    v, stop = s.lookup(base, addr, 8, ver)
    if v is None:
        v = s.loadatom(addr, base, stop, 8)
    return v


def increments(e):
    """All stores of doubles to fields, as increments."""
    s = e.sem
    out = []
    for st in s.stores:
        ins, addr, val, ver = st
        if ins.x.get("vt") != "d":
            continue
        acc = e.access(addr)
        if acc is None or acc.rel == "BOND" or acc.rel == "GLOBAL" or not acc.len:
            continue
        si = split_index(acc.off, acc.len)
        i = Inc()
        i.ins, i.acc = ins, acc
        i.idx, i.comp = si if si else (None, None)
        i.raw = val
        i.inc = val - prior(e, st)
        i.loop = e.f.loop_of[ins.blk]
        i.local = False
        out.append(i)
    return out


def is_neighbor_index(e, idx, L):
    """The index varies with loop L and comes from memory (a list of points)."""
    s = e.sem
    if L is None or L not in s.pvar(idx):
        return False
    for a in idx.atoms():
        if s.A.keys[a][0] == "load" and L in s.avar(a):
            return True
    return False


def neighbor_loops(e, incs):
    """Loop -> neighbor accumulations in it."""
    out = {}
    for i in incs:
        if i.idx is None:
            continue
        for L in e.f.nest(i.ins.blk):
            if is_neighbor_index(e, i.idx, L):
                out.setdefault(L, []).append(i)
                break
    return out


def desum(e, p, L):
    """Per-iteration summand of a total over loop L, or None."""
    s = e.sem
    out = ZERO
    for m, c in p.t.items():
        f = [a for a, ex in m if s.A.keys[a][0] == "tsum" and s.A.keys[a][1] == L and ex == 1]
        if len(f) != 1:
            return None
        rest = Poly({tuple((a, ex) for a, ex in m if a != f[0]): c})
        out = out + s.mul(rest, s.A.keys[f[0]][2])
    return out


def has_tsum(e, p, L):
    s = e.sem
    return any(s.A.keys[a][0] == "tsum" and s.A.keys[a][1] == L for a in p.atoms())
