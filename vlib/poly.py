"""Laurent polynomials over interned atoms, with exact rational coefficients.

A value of the analysed program is a polynomial in atoms; an atom stands for a
memory read, a call result, a loop counter, a merge, ...  Two values are known
equal when their normal forms are equal (value numbering)."""
from fractions import Fraction

MAXTERMS = 400


class Atoms:
    """Interning table: key -> small integer."""
    def __init__(self):
        self.tab = {}
        self.keys = []
        self.info = []

    def get(self, key, **info):
        i = self.tab.get(key)
        if i is None:
            i = len(self.keys)
            self.tab[key] = i
            self.keys.append(key)
            self.info.append(info)
        return i


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c}) if c else ZERO

    @staticmethod
    def atom(a):
        return Poly({((a, 1),): Fraction(1)})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def key(self):
        return tuple(sorted(self.t.items()))

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def __add__(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v += c
                if v:
                    r[m] = v
                else:
                    del r[m]
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        c = Fraction(c)
        if not c:
            return ZERO
        return Poly({m: v * c for m, v in self.t.items()})

    def mul(self, o):
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                elif m in r:
                    del r[m]
        return Poly(r)

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def with_atom(self, a, v):
        """The polynomial with atom a set to the constant v."""
        r = {}
        for m, c in self.t.items():
            k = []
            for b, e in m:
                if b == a:
                    c = c * Fraction(v) ** e
                else:
                    k.append((b, e))
            k = tuple(k)
            r[k] = r.get(k, 0) + c
        return Poly({m: c for m, c in r.items() if c})

    def coeff_of(self, a):
        """Split p = q*a + r for an atom a that occurs at most linearly; None otherwise."""
        q, r = {}, {}
        for m, c in self.t.items():
            e = 0
            rest = []
            for b, k in m:
                if b == a:
                    e = k
                else:
                    rest.append((b, k))
            if e == 0:
                r[m] = c
            elif e == 1:
                q[tuple(rest)] = c
            else:
                return None
        return Poly(q), Poly(r)


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n:
            d[a] = n
        else:
            del d[a]
    return tuple(sorted(d.items()))


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})
