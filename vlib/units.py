"""Unit-of-measure inference on polynomial normal forms: linear unification of
exponent vectors (mass, length, time, temperature)."""
from fractions import Fraction
from .poly import Poly

DIM = ("M", "L", "T", "K")


class Unit:
    """Exponent vector plus a linear combination of unknown unit variables."""
    __slots__ = ("v", "u")

    def __init__(self, v=(0, 0, 0, 0), u=None):
        self.v = v
        self.u = u or {}

    def mul(self, o, k=1):
        u = dict(self.u)
        for x, c in o.u.items():
            n = u.get(x, 0) + c * k
            if n:
                u[x] = n
            else:
                u.pop(x, None)
        return Unit(tuple(a + b * k for a, b in zip(self.v, o.v)), u)

    def pow(self, k):
        return Unit(tuple(a * k for a in self.v), {x: c * k for x, c in self.u.items() if c * k})

    def known(self):
        return not self.u

    def __repr__(self):
        s = " ".join("%s^%s" % (d, e) if e != 1 else d for d, e in zip(DIM, self.v) if e)
        if self.u:
            s += " * " + " ".join("%s^%s" % (x, c) for x, c in self.u.items())
        return s or "1"


NONE = Unit()


class Conflict(Exception):
    pass


class Units:
    def __init__(self):
        self.sub = {}          # variable -> Unit

    def var(self, *key):
        return Unit(u={key: 1})

    def norm(self, x):
        """Apply the substitution (with path compression)."""
        if not x.u:
            return x
        r = Unit(x.v)
        for k, c in x.u.items():
            t = self.sub.get(k)
            if t is None:
                r = r.mul(Unit(u={k: 1}), c)
            else:
                if t.u and any(y in self.sub for y in t.u):
                    t = self.norm(t)
                    self.sub[k] = t
                r = r.mul(t, c)
        return r

    def unify(self, a, b):
        """True if a and b can be (and now are) equal."""
        d = self.norm(a.mul(b, -1))
        if not d.u:
            return all(e == 0 for e in d.v)
        k, c = next(iter(d.u.items()))
        rest = dict(d.u)
        del rest[k]
        self.sub[k] = Unit(d.v, rest).pow(Fraction(-1) / c)
        return True


def U(s):
    """Parse 'M L^-1 T^-2'."""
    v = [Fraction(0)] * 4
    for w in s.split():
        n, _, e = w.partition("^")
        v[DIM.index(n)] += Fraction(e or 1)
    return Unit(tuple(int(x) if x.denominator == 1 else x for x in v))


STRESS = "M L^-1 T^-2"
FIELD = {"Coordinates": "L", "Model_Coordinates": "L", "Displacement": "L", "Velocity": "L T^-1", "Acceleration": "L T^-2",
         "Volume": "L^3", "Horizon": "L", "Force_Density": "M L^-2 T^-2", "Contact_Force_Density": "M L^-2 T^-2",
         "External_Force_Density": "M L^-2 T^-2", "Force": "M L T^-2", "Contact_Force": "M L T^-2",
         "Internal_Force": "M L T^-2", "Bond_Damage": "", "Damage": "", "Temperature": "K", "Temperature_Change": "K",
         "Stored_Elastic_Energy_Density": STRESS, "Stored_Elastic_Energy": "M L^2 T^-2", "Kinetic_Energy": "M L^2 T^-2",
         "Strain_Energy": "M L^2 T^-2", "Partial_Stress": STRESS, "Cauchy_Stress": STRESS, "Unrotated_Cauchy_Stress": STRESS,
         "Piola_Stress": STRESS, "Von_Mises_Stress": STRESS, "Deformation_Gradient": "", "Density": "M L^-3", "Radius": "L",
         "Rotation_Tensor": "", "Left_Stretch_Tensor": "", "Unrotated_Rate_Of_Deformation": "T^-1", "Rate_Of_Deformation": "T^-1",
         "Equivalent_Plastic_Strain": "", "Linear_Momentum": "M L T^-1", "Angular_Momentum": "M L^2 T^-1",
         "Hourglass_Force_Density": "M L^-2 T^-2", "Velocity_Gradient": "T^-1", "Jacobian_Determinant": ""}
PARAM = {"Density": "M L^-3", "Bulk Modulus": STRESS, "Shear Modulus": STRESS, "Young's Modulus": STRESS, "Poisson's Ratio": "",
         "Yield Stress": STRESS, "Horizon": "L", "Thermal Expansion Coefficient": "K^-1", "Contact Radius": "L",
         "Spring Constant": "M T^-2 L^-1", "Friction Coefficient": "", "Critical Stretch": ""}
