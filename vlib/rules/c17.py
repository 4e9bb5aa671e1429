"""C17: equivalent elastic constants describe the same material."""
import itertools
from fractions import Fraction

from ..model import Models, common_calls, str_of
from ..poly import ONE, Poly
from ..sem import Sem
from ..universe import MATERIAL, short, spread

CONSTANTS = {"Bulk Modulus": "K", "Shear Modulus": "G", "Young's Modulus": "E", "Poisson's Ratio": "n"}
MODES = {"3D": None, "plane strain": "Plane Strain", "plane stress": "Plane Stress"}
_e, _n = Poly.atom(0), Poly.atom(1)


class Rat:
    """Quotient of polynomials in Young's modulus and Poisson's ratio."""
    def __init__(self, a, b=ONE):
        self.a, self.b = a, b

    def __add__(self, o):
        return Rat(self.a.mul(o.b) + o.a.mul(self.b), self.b.mul(o.b))

    def __mul__(self, o):
        return Rat(self.a.mul(o.a), self.b.mul(o.b))

    def inverse(self):
        return Rat(self.b, self.a)

    def same(self, o):
        return (self.a.mul(o.b) - o.a.mul(self.b)).is_zero()


def num(x):
    return Rat(Poly.const(x))


E, N = Rat(_e), Rat(_n)


def bulk(mode, n):
    """Modulus against change of volume (of area in the plane variants)."""
    if mode == "plane strain":
        return E * (num(2) * (num(1) + num(-1) * n + num(-2) * n * n)).inverse()
    if mode == "plane stress":
        return E * (num(2) * (num(1) + num(-1) * n)).inverse()
    return E * (num(3) * (num(1) + num(-2) * n)).inverse()


def shear(n):
    return E * (num(2) * (num(1) + n)).inverse()


class Reading:
    """The constructor of a material with a given choice of constants in its input."""
    def __init__(self, f, given, flag):
        self.f, self.given, self.flag = f, given, flag
        self.set = {}
        self.first = None
        self.sem = Sem(f, extern=self.call, subst=self.load, prune=True, depth=10)

    def present(self, label):
        if label in self.set:
            return True
        if label in CONSTANTS:
            return label in self.given
        if label in MODES.values():
            return label == self.flag
        return None

    def call(self, sem, ins, bc, A):
        if self.first is None:
            self.first = ins
        if ins is self.first:
            self.set = {}                       # a new pass over the code
        if bc is None:
            return None
        if bc.startswith("Teuchos::ParameterList::isParameter"):
            lab = str_of(sem, ins, A[1])
            p = self.present(lab) if lab is not None else None
            if p is not None:
                return Poly.const(int(p))
        if bc.startswith("Teuchos::ParameterList::isType<"):
            lab = str_of(sem, ins, A[1])
            p = self.present(lab) if lab is not None else None
            if p is not None:
                return Poly.const(int(p and ("<bool" in bc) == (lab not in CONSTANTS)))
        if bc.startswith("Teuchos::ParameterList::set<") and len(A) >= 3:
            lab = str_of(sem, ins, A[1])
            if lab in CONSTANTS or lab in MODES.values():
                b = sem.base_of(A[2])[0]
                v = sem.do_load(ins, A[2], 8, False) if b is not None and sem.A.keys[b][0] == "alloca" else A[2]
                self.set[lab] = v
            return A[0]
        if bc.startswith("Teuchos::ParameterList::get<") and len(A) >= 3:
            lab = str_of(sem, ins, A[1])
            if (lab in CONSTANTS or lab in MODES.values()) and not self.present(lab):
                b = sem.base_of(A[2])[0]
                self.set[lab] = sem.do_load(ins, A[2], 8, False) if b is not None and sem.A.keys[b][0] == "alloca" else A[2]
                if lab in CONSTANTS:
                    self.given = self.given | {lab}
        return common_calls(sem, ins, bc, A)

    def load(self, sem, ins, addr):
        b, off = sem.base_of(addr)
        if b is None or not off.is_zero():
            return None
        k = sem.A.keys[b]
        if k[0] != "param":
            return None
        if k[2] in self.set:
            return self.set[k[2]]
        if k[2] in MODES.values():
            return Poly.const(int(k[2] == self.flag))
        if k[2] in CONSTANTS:
            return sem.atom("constant", CONSTANTS[k[2]]) if k[2] in self.given else sem.atom("missing", k[2])
        return None

    def member(self, off):
        """Value of a member when the constructor ends normally; None if it never does."""
        s, f = self.sem, self.f
        this = s.A.tab.get(("arg", f.args[0]["id"]))
        rets = [b for b in f.rpo if f.blocks[b] and f.blocks[b][-1].op == "ret" and b in s.mem_out]
        if not rets:
            return None
        addr = Poly.atom(this) + Poly.const(off)
        vs = []
        for b in rets:
            v, ver = s.lookup(this, addr, 8, s.mem_out[b].get(this))
            vs.append(v)
        return vs[0] if all(v is not None and v == vs[0] for v in vs) else s.atom("unknown")

    def untouched(self, p):
        s = self.sem
        a = next(iter(p.atoms()), None)
        return len(p.t) == 1 and a is not None and s.A.keys[a][0] == "load" and s.base_of(s.A.keys[a][1])[0] == s.A.tab.get(("arg", self.f.args[0]["id"]))

    def value(self, p, n):
        """The value as a function of Young's modulus and Poisson's ratio, or None."""
        s = self.sem
        par = {"K": bulk("3D", n), "G": shear(n), "E": E, "n": n}
        r = num(0)
        for m, c in p.t.items():
            t = num(c)
            for a, e in m:
                k = s.A.keys[a]
                if k[0] == "constant":
                    v = par[k[1]]
                elif k[0] == "poly":
                    v = self.value(k[1], n)
                elif k[0] == "phi":             # calls that are not modelled leave the members alone
                    vs = [self.value(x, n) for x in k[3] if not self.untouched(x)]
                    v = vs[0] if vs and all(x is not None and x.same(vs[0]) for x in vs) else None
                else:
                    return None
                if v is None or e.denominator != 1 if isinstance(e, Fraction) else v is None:
                    return None
                for _ in range(abs(int(e))):
                    t = t * (v if e > 0 else v.inverse())
            r = r + t
        return r


def run(ctx):
    ctx.rule = ("Each material's constructor is value-numbered once per set of elastic constants present in the input and per plane variant, with "
                "presence tests folded to constants; the resulting bulk and shear moduli, as rational functions of Young's modulus and Poisson's "
                "ratio, must equal those of the isotropic material, and any other number of constants must end in an error.")
    ctx.assumptions += ["floating-point arithmetic read as real arithmetic", "a bulk modulus in the input is the three-dimensional one"]
    M = Models([MATERIAL], ["BulkModulus", "ShearModulus"])
    items = []
    for c in sorted(M.concrete(), key=lambda c: c.name):
        offs = {}
        for k in ("BulkModulus", "ShearModulus"):
            f = c.methods.get(k)
            offs[k] = returned_member(f) if f is not None else None
        if None in offs.values() or c.ctor is None or not touches(c):
            continue
        ctx.count("materials with elastic constants")
        items.append((c, offs))
    spread(ctx, items, lambda sub, t: material(sub, *t))
    ctx.need("materials with elastic constants", 10)
    ctx.need("sets of constants followed", 300)


def returned_member(f):
    s = Sem(f)
    this = s.A.tab.get(("arg", f.args[0]["id"]))
    for b in f.rpo:
        t = f.blocks[b][-1]
        if t.op == "ret" and t.a:
            v = s.opv(t.a[0])
            if len(v.t) == 1:
                for a in v.atoms():
                    k = s.A.keys[a]
                    if k[0] == "load":
                        base, off = s.base_of(k[1])
                        if base == this and off.is_const():
                            return int(off.const_value())
    return None


def touches(c):
    """The class asks for elastic constants at all."""
    return any(ev.kind == "param" and ev.d["label"] in ("Young's Modulus", "Bulk Modulus") for ev in c.ctor.events)


def material(ctx, c, offs):
    name = short(c)
    where = "constructor of " + name
    first = next(iter(c.ctor_f.instrs()))
    singles = None
    for mode, flag in MODES.items():
        accepted = {}
        for r in range(5):
            for given in itertools.combinations(sorted(CONSTANTS), r):
                R = Reading(c.ctor_f, frozenset(given), flag)
                ctx.count("sets of constants followed")
                K = R.member(offs["BulkModulus"])
                if K is None:
                    continue
                accepted[given] = (R, K, R.member(offs["ShearModulus"]))
        fixed = any("Poisson's Ratio" in R.set for R, K, G in accepted.values())
        want = [frozenset(x) for x in ([("Bulk Modulus",), ("Young's Modulus",)] if fixed else itertools.combinations(sorted(CONSTANTS), 2))]
        for w in want:
            ok = tuple(sorted(w)) in accepted
            ctx.obligation(ok)
            if not ok:
                ctx.violation("%s:%s:%s:rejected" % (name, mode, names(w)), first.where(), "%s rejects the constants %s (%s)" % (where, names(w), mode))
        for given, (R, K, G) in sorted(accepted.items()):
            ok = frozenset(given) in want
            ctx.obligation(ok)
            if not ok:
                ctx.violation("%s:%s:%d constants" % (name, mode, len(given)), first.where(), "%s accepts %s (%s)" % (where, "the constants " + names(given) if given else "an input without elastic constants", mode))
                continue
            n = N
            if "Poisson's Ratio" in R.set:
                v = R.set["Poisson's Ratio"].const_value()
                n = num(v) if v is not None else N
            for what, p, ref in (("bulk modulus", K, bulk(mode, n)), ("shear modulus", G, shear(n))):
                v = R.value(p, n)
                ctx.count("moduli compared")
                if v is None:
                    ctx.undecided("%s: %s from %s (%s) is %s" % (name, what, names(given), mode, R.sem.show(p, 4)[:150]))
                    continue
                ok = v.same(ref)
                ctx.obligation(ok)
                if not ok:
                    at = culprit(R, p, first)
                    ctx.violation("%s:%s:%s:%s" % (at.split("(")[-1].rstrip(")"), mode, names(given), what), at,
                                  "%s: the %s formed from %s (%s) is %s, which is not that of the same material" % (name, what, names(given), mode, R.sem.show(p, 5)[:200]), value=R.sem.show(p, 6)[:500])


def culprit(R, p, first):
    for ins in R.f.instrs():
        if ins.id in R.sem.val and R.sem.val[ins.id] == p and ins.op in ("fdiv", "fmul", "fadd", "fsub", "load"):
            return "%s (%s)" % (ins.where(), ins.func())
    return first.where()


def names(w):
    return " and ".join(sorted(w))
