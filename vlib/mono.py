"""Order facts between values: is a >= b wherever a given condition holds?

Merges and selections are resolved by splitting on the truth values of the
comparisons they depend on; each remaining case is decided by writing a - b as
a non-negative combination of at most three facts of that case (comparison
outcomes and ranges).  No search beyond that; what cannot be shown is reported
as not shown."""
from fractions import Fraction
from .poly import Poly, ZERO, ONE


class Order:
    def __init__(self, e, L, ranges=None, positive=None, replace=None):
        """ranges(k): (lo, hi) or None for an atom key; positive(p): is this
        coefficient polynomial known to be positive; replace: {atom: Poly}."""
        self.e, self.s, self.L = e, e.sem, L
        self.G, self.edge = self.s.block_conds(L)
        self.ranges, self.positive = ranges, positive
        self.replace = replace or {}
        self.steps = 0

    # -- substitution of truth values, deep in merges and selections
    def sub(self, p, env, need=None, depth=0):
        s = self.s
        out = ZERO
        for m, c in p.t.items():
            t = Poly.const(c)
            for a, ex in m:
                v = self.suba(a, env, need, depth)
                if v is None:
                    t = t.mul(Poly({((a, ex),): Fraction(1)}))
                elif ex > 0:
                    for _ in range(ex):
                        t = s.mul(t, v)
                else:
                    for _ in range(-ex):
                        t = s.mul(t, s.inv(v))
            out = out + t
        return s.bnorm(out)

    def suba(self, a, env, need, depth):
        s = self.s
        if a in env:
            return Poly.const(env[a])
        if a in self.replace:
            return self.sub(self.replace[a], env, need, depth + 1)
        k = s.A.keys[a]
        if depth > 14:
            return None
        if s.A.info[a].get("bool"):
            if k[0] in ("gt0", "eq0"):
                d = self.sub(k[1], env, need, depth + 1)
                c = d.const_value()
                if c is not None:
                    return ONE if (c > 0 if k[0] == "gt0" else c == 0) else ZERO
            if need is not None:
                need.append(a)
            return None
        if k[0] == "sel":
            c = self.sub(k[1], env, need, depth + 1)
            v = c.const_value()
            if v is None:
                return None
            return self.sub(k[2] if v else k[3], env, need, depth + 1)
        if k[0] == "phi" and k[1] in self.G:
            n = []
            for frm, v in zip(k[2], k[3]):
                w = self.edge.get((frm, k[1]))
                if w is None:
                    return None
                w = self.sub(w, env, n, depth + 1).const_value()
                if w == 1:
                    return self.sub(v, env, need, depth + 1)
            if need is not None:
                need += n
            return None
        if k[0] == "fn" and len(k) == 4 and k[1] in ("fmax", "fmin", "maxnum", "minnum", "max", "min"):
            x, y = self.sub(k[2], env, need, depth + 1), self.sub(k[3], env, need, depth + 1)
            c = s.compare("ogt", x, y)
            v = self.sub(c, env, need, depth + 1).const_value()
            if v is None:
                return None
            big = k[1] in ("fmax", "maxnum", "max")
            return x if bool(v) == big else y
        return None

    def ge(self, a, b, cond, env=None, depth=0):
        """(True, None) or (False, description of the case not shown)."""
        env = env or {}
        self.steps += 1
        s = self.s
        if self.steps > 4000:
            return False, "too many cases"
        need = []
        g = self.sub(cond, env, need)
        if g.is_zero():
            return True, None
        r = self.sub(a - b, env, need)
        if need and depth < 14:
            x = need[0]
            for v in (1, 0):
                e2 = dict(env)
                e2[x] = v
                ok, why = self.ge(a, b, cond, e2, depth + 1)
                if not ok:
                    return ok, why
            return True, None
        facts = []
        for x, v in env.items():
            k = s.A.keys[x]
            if k[0] not in ("gt0", "eq0"):
                continue
            d = self.sub(k[1], env)
            c = d.const_value()
            if c is not None:
                truth = c > 0 if k[0] == "gt0" else c == 0
                if truth != bool(v):
                    return True, None
                continue
            if k[0] == "gt0":
                facts.append(d if v else -d)
            elif v:
                facts += [d, -d]
        for x in set(r.atoms()) | set(y for f in facts for y in f.atoms()):
            rg = self.ranges(s.A.keys[x]) if self.ranges else None
            if rg:
                if rg[0] is not None:
                    facts.append(Poly.atom(x) - Poly.const(rg[0]))
                if rg[1] is not None:
                    facts.append(Poly.const(rg[1]) - Poly.atom(x))
        if self.nonneg(r, facts, 3):
            return True, None
        # contradictory case?
        for f in facts:
            if self.nonneg(-f, [h for h in facts if h is not f], 2, strict=True):
                return True, None
        return False, "%s >= 0 not shown when %s" % (s.show(r, 2)[:300], ", ".join("%s=%d" % (s.show(Poly.atom(x), 2)[:120], v) for x, v in env.items()))

    def nonneg(self, r, facts, n, strict=False):
        c = r.const_value()
        if c is not None:
            return c > 0 if strict else c >= 0
        if n == 0:
            return False
        m0 = max((m for m in r.t if m != ()), key=lambda m: (len(m), m))
        for f in facts:
            for mf, cf in f.t.items():
                if mf == ():
                    continue
                # coefficient k with k*f matching the leading monomial of r
                q = s_div(m0, mf)
                k = Poly({q: r.t[m0] / cf})
                kc = k.const_value()
                if kc is not None and kc <= 0:
                    continue
                if kc is None and not (self.positive and self.positive(k)):
                    continue
                rest = r - self.s.mul(k, f)
                if len(rest.t) >= len(r.t) + len(f.t):
                    continue
                if self.nonneg(rest, facts, n - 1, strict):
                    return True
        return False


def s_div(m, d):
    x = dict(m)
    for a, e in d:
        n = x.get(a, 0) - e
        if n:
            x[a] = n
        else:
            x.pop(a, None)
    return tuple(sorted(x.items()))


def interval(s, p, rng, depth=0):
    """Interval of p given ranges for its atoms (rng(key) -> (lo, hi) or None), or None."""
    lo = hi = Fraction(0)
    for m, c in p.t.items():
        a, b = Fraction(c), Fraction(c)
        for at, ex in m:
            r = rng(s.A.keys[at])
            if r is None and s.A.keys[at][0] == "poly" and depth < 6:
                r = interval(s, s.A.keys[at][1], rng, depth + 1)
            if r is None:
                return None
            x, y = Fraction(r[0]), Fraction(r[1])
            if ex < 0:
                if x <= 0 <= y:
                    return None
                x, y = 1 / y, 1 / x
                ex = -ex
            for _ in range(ex):
                v = (a * x, a * y, b * x, b * y)
                a, b = min(v), max(v)
        lo, hi = lo + a, hi + b
    return lo, hi
