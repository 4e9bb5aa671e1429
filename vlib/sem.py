"""Value numbering of one normalised function.

Every SSA value gets a polynomial normal form over atoms.  Loops are summarised
by recurrences (affine induction, prefix sums), memory by versions per object.
This is a fixed-point dataflow computation over the control-flow graph: no path
is enumerated and nothing is executed.

Assumptions (reported in the evidence): pointers derived from different fields,
arguments, locals or containers do not overlap; floating-point arithmetic is
read as real arithmetic; integer index arithmetic does not overflow."""
from fractions import Fraction
from math import gcd
from .poly import Poly, ZERO, ONE, Atoms, MAXTERMS

PURE = {"sqrt", "exp", "log", "log10", "pow", "fabs", "abs", "sin", "cos", "tan", "acos", "asin", "atan", "atan2",
        "cbrt", "floor", "ceil", "tanh", "sinh", "cosh", "fmod", "hypot", "std::sqrt", "std::pow", "std::abs",
        "std::fabs", "std::exp", "llvm.fabs.f64", "llvm.sqrt.f64", "llvm.pow.f64", "llvm.exp.f64", "llvm.smax.i32",
        "llvm.smin.i32", "llvm.umax.i32", "llvm.maxnum.f64", "llvm.minnum.f64", "fmax", "fmin", "llvm.powi.f64.i32",
        "llvm.smax.i64", "llvm.umax.i64", "llvm.smin.i64", "llvm.floor.f64", "llvm.ceil.f64", "llvm.abs.i32",
        "std::pow<double, int>", "__gnu_cxx::__promote_2<double, int, ...>"}
SIZES = {"double": 8, "int": 4, "float": 4, "bool": 1, "long": 8, "unsigned int": 4, "unsigned long": 8, "char": 1}
STEPNAME = {1: "NONE", 2: "N", 3: "NP1"}


def base_callee(dem):
    """Name without argument list (and without a leading return type)."""
    if dem is None:
        return None
    d, depth = dem, 0
    # strip argument list: last '(' at depth 0 of <>
    cut = None
    dep = 0
    i = 0
    while i < len(d):
        c = d[i]
        if c == "<" and not d[:i].endswith("operator"):
            dep += 1
        elif c == ">" and not d[:i].endswith(("operator-", "operator")):
            dep -= 1
        elif c == "(" and dep == 0 and not d[:i].endswith("operator"):
            cut = i
            break
        i += 1
    if cut is not None:
        d = d[:cut]
    # strip return type
    dep = 0
    last = 0
    for i, c in enumerate(d):
        if c == "<":
            dep += 1
        elif c == ">":
            dep -= 1
        elif c == " " and dep == 0 and not d[:i].endswith("operator") and not d[:i].endswith("unsigned"):
            last = i + 1
    return d[last:]


class Event:
    __slots__ = ("kind", "ins", "d")

    def __init__(self, kind, ins, **d):
        self.kind, self.ins, self.d = kind, ins, d


class Version:
    """Memory version of one object."""
    __slots__ = ("n", "kind", "prev", "addr", "val", "ins", "ins_list", "blk", "loopvar")
    cnt = 0

    def __init__(self, kind, prev=None, addr=None, val=None, ins=None, ins_list=None, blk=None, loopvar=frozenset()):
        self.kind, self.prev, self.addr, self.val, self.ins = kind, prev, addr, val, ins
        self.ins_list, self.blk, self.loopvar = ins_list, blk, loopvar


_DMAX = Fraction(2) ** 1024 - Fraction(2) ** 971
LIMITS = {"double max": _DMAX, "double lowest": -_DMAX, "double min": Fraction(1, 2 ** 1022), "double epsilon": Fraction(1, 2 ** 52), "double infinity": Fraction(2) ** 1024,
          "float max": Fraction(2) ** 128 - Fraction(2) ** 104, "int max": Fraction(2 ** 31 - 1), "int min": Fraction(-2 ** 31), "int lowest": Fraction(-2 ** 31)}


class Sem:
    def __init__(self, f, subst=None, extern=None, is_positive=None, prune=False, depth=6, pin=None):
        """subst(sem, ins, addr) may return a Poly to replace the value of a load;
        prune leaves out branches whose condition is a known constant."""
        self.prune = prune
        self.pin = pin or {}          # argument id -> value
        self.depth = depth            # merges looked through for the content of memory
        self.dead = set()             # edges not taken
        self.f = f
        self.A = Atoms()
        self.subst = subst
        self.extern = extern          # extra call models: f(sem, ins, name, args) -> Poly | None
        self.is_positive = is_positive
        self.val = {}
        self.recs = {}                # phi id -> dict(kind, step)
        self.ver_intern = {}
        self.loop_stores = {L.idx: set() for L in f.loops}   # bases stored in loop (previous pass)
        self.exit_subst_cache = {}
        self.run()

    # ---- atoms --------------------------------------------------------------
    def atom(self, *key, var=frozenset(), ptr=False, **info):
        i = self.A.tab.get(key)
        if i is None:
            i = self.A.get(key, var=var, ptr=ptr, **info)
        return Poly.atom(i)

    def key(self, a):
        return self.A.keys[a]

    def akind(self, a):
        return self.A.keys[a][0]

    def avar(self, a):
        return self.A.info[a]["var"]

    def pvar(self, p):
        s = frozenset()
        for a in p.atoms():
            s = s | self.A.info[a]["var"]
        return s

    def outer_of(self, blk):
        return frozenset(self.f.nest(blk))

    # ---- arithmetic ---------------------------------------------------------
    def mul(self, a, b):
        if len(a.t) * len(b.t) > MAXTERMS and len(a.t) > 1 and len(b.t) > 1:
            a, b = self.wrap(a), self.wrap(b)
        return a.mul(b)

    def wrap(self, p):
        """Opaque factor: p = c * m * atom(normalised p)."""
        if len(p.t) <= 1:
            return p
        k = p.key()
        c = k[0][1]
        q = p.scale(Fraction(1) / c)
        at = self.atom("poly", q, var=self.pvar(p))
        return at.scale(c)

    def inv(self, p):
        if p.is_zero():
            return self.atom("inv0")
        if len(p.t) == 1:
            (m, c), = p.t.items()
            return Poly({tuple((a, -e) for a, e in m): Fraction(1) / c})
        w = self.wrap(p)
        (m, c), = w.t.items()
        return Poly({tuple((a, -e) for a, e in m): Fraction(1) / c})

    def pure(self, name, args):
        v = frozenset()
        for a in args:
            v |= self.pvar(a)
        if name in ("pow", "std::pow", "llvm.pow.f64") or name.startswith("std::pow<") or name.startswith("llvm.powi"):
            e = args[1].const_value()
            if e is not None and e.denominator == 1 and 0 <= e <= 6:
                r = ONE
                for _ in range(int(e)):
                    r = self.mul(r, args[0])
                return r
            if e is not None and e.denominator == 1 and -6 <= e < 0:
                r = ONE
                for _ in range(int(-e)):
                    r = self.mul(r, args[0])
                return self.inv(r)
            if e == Fraction(1, 2):
                return self.pure("sqrt", args[:1])
            name = "pow"
        if name.startswith("std::"):
            name = name[5:].split("<")[0]
        if name.startswith("llvm."):
            name = name[5:].split(".")[0]
        if name == "fabs":
            name = "abs"
        if name == "abs":
            # |c*p| = |c||p|, and |p| = |-p|
            p = args[0]
            if p.is_const():
                return Poly.const(abs(p.const_value()))
            k = p.key()
            c = k[0][1]
            return self.atom("fn", "abs", p.scale(1 / c), var=v).scale(abs(c))
        if name == "sqrt":
            pre, q = self.sqrt_content(args[0])
            if pre is not None:
                return self.mul(pre, self.pure("sqrt", [q]))
            c = args[0].const_value()
            if c is not None and c >= 0:
                import math
                n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator:
                    return Poly.const(Fraction(n, d))
        return self.atom("fn", name, *args, var=v)

    def sqrt_content(self, p):
        """p = m^2 * q for the largest monomial m common to all terms: (|m|, q)."""
        if len(p.t) < 1 or p.is_const():
            return None, p
        com = None
        for m in p.t:
            d = dict(m)
            if com is None:
                com = d
            else:
                com = {a: (min(e, d[a]) if (e > 0 and d[a] > 0) else max(e, d[a]) if (e < 0 and d[a] < 0) else 0) for a, e in com.items() if a in d}
            com = {a: e for a, e in com.items() if abs(e) >= 2}
            if not com:
                return None, p
        mono, pre = [], ONE
        for a, e in sorted(com.items()):
            h = abs(e) // 2 * (1 if e > 0 else -1)
            mono.append((a, -2 * h))
            if h % 2 and not self.positive(a):
                ab = self.atom("fn", "abs", Poly.atom(a), var=self.avar(a))
                x = next(iter(ab.atoms()))
                pre = pre.mul(Poly({((x, h),): Fraction(1)}))
            else:
                pre = pre.mul(Poly({((a, h),): Fraction(1)}))
        return pre, p.mul(Poly({tuple(mono): Fraction(1)}))

    def positive(self, a):
        k = self.A.keys[a]
        if k[0] == "fn" and k[1] in ("sqrt", "exp", "abs"):
            return True
        return bool(self.is_positive and self.is_positive(self, a))

    # ---- value hashes ------------------------------------------------------------
    P61 = (1 << 61) - 1

    def hval(self, p):
        """Image of p under a fixed random evaluation homomorphism modulo two primes'
        worth of bits; equal values have equal images whatever their normal form."""
        r1 = r2 = 0
        P = self.P61
        for m, c in p.t.items():
            t1 = t2 = c.numerator % P * pow(c.denominator % P, -1, P) % P
            for a, e in m:
                h1, h2 = self.hatom(a)
                t1 = t1 * pow(h1, e, P) % P
                t2 = t2 * pow(h2, e, P) % P
            r1 = (r1 + t1) % P
            r2 = (r2 + t2) % P
        return r1, r2

    def hatom(self, a):
        if not hasattr(self, "_hc"):
            self._hc = {}
        r = self._hc.get(a)
        if r is None:
            k = self.A.keys[a]
            if k[0] == "poly":
                r = self.hval(k[1])
            else:
                def enc(x):
                    if isinstance(x, Poly):
                        return ("P",) + self.hval(x)
                    if isinstance(x, tuple):
                        return tuple(enc(y) for y in x)
                    return x
                s = repr(tuple(enc(x) for x in k)).encode()
                import hashlib
                d = hashlib.sha256(s).digest()
                r = (int.from_bytes(d[:8], "big") % self.P61 or 1, int.from_bytes(d[8:16], "big") % self.P61 or 1)
            self._hc[a] = r
        return r

    def zero(self, p):
        return p.is_zero() or self.hval(p) == (0, 0)

    # ---- truth values: 0/1 polynomials ---------------------------------------
    def compare(self, p, a, b):
        """Comparison as a 0/1 polynomial over atoms gt0(d), eq0(d)."""
        if p in ("true", "false"):
            return ONE if p == "true" else ZERO
        if p in ("ord", "uno"):
            return ONE if p == "ord" else ZERO
        neg = False
        q = p[1:] if p[0] in "sou" and len(p) == 3 else p
        if q == "ne":
            q, neg = "eq", True
        elif q == "ge":
            q, neg = "lt", True
        elif q == "le":
            a, b, q, neg = b, a, "lt", True
        elif q == "gt":
            a, b, q = b, a, "lt"
        d = b - a
        c = d.const_value()
        if c is not None:
            t = ONE if (c == 0 if q == "eq" else c > 0) else ZERO
        else:
            lead = d.key()[0][1]
            d = d.scale(1 / (lead if q == "eq" else abs(lead)))
            t = self.atom("eq0" if q == "eq" else "gt0", d, var=self.pvar(d), bool=True)
        return ONE - t if neg else t

    def bmul(self, a, b):
        """Product of 0/1 polynomials (idempotent atoms)."""
        return self.bnorm(self.mul(a, b))

    def bnorm(self, p):
        out = {}
        for m, c in p.t.items():
            m2 = tuple((a, 1 if e > 1 and self.A.info[a].get("bool") else e) for a, e in m)
            v = out.get(m2, 0) + c
            if v:
                out[m2] = v
            else:
                out.pop(m2, None)
        return Poly(out)

    def select(self, c, a, b, ty):
        if a == b:
            return a
        cc = c.const_value()
        if cc is not None:
            return a if cc else b
        if ty == "i1":
            ca = self.bmul(c, a)
            return ca + b - self.bmul(c, b)
        common = {m: k for m, k in a.t.items() if b.t.get(m) == k}
        cp = Poly(common)
        a, b = a - cp, b - cp
        ptr = ty == "p" and (self._isptr(a) or self._isptr(b))
        # canonical polarity
        if c.t.get((), 0) == 1 and all(k < 0 for m, k in c.t.items() if m != ()):
            c, a, b = ONE - c, b, a
        return cp + self.atom("sel", c, a, b, var=self.pvar(a) | self.pvar(b) | self.pvar(c), ptr=ptr)

    # ---- execution conditions ---------------------------------------------------
    def block_conds(self, L):
        """Execution condition (0/1 polynomial) of every block of loop L (None: whole
        function) relative to the start of one iteration; blocks of inner loops are
        relative to one inner iteration as well."""
        if not hasattr(self, "_bc"):
            self._bc = {}
        if L in self._bc:
            return self._bc[L]
        f = self.f
        body = f.loops[L].b if L is not None else frozenset(range(len(f.blocks)))
        head = f.loops[L].h if L is not None else 0
        G, edge = {}, {}
        kids = {}
        for l2 in f.loops:
            if l2.h in body and l2.idx != L:
                kids[l2.h] = l2
        for b in f.rpo:
            if b not in body:
                continue
            if b == head:
                g = ONE
            else:
                g = ZERO
                for p in f.pred[b]:
                    if p not in body or (p, b) not in edge:
                        continue
                    if b in kids and p in kids[b].b:
                        continue
                    g = g + edge[(p, b)]
                if len(g.t) > 60:
                    g = self.atom("exec", b, var=self.outer_of(b), bool=True)
            G[b] = g
            ss = f.succ[b]
            t = f.blocks[b][-1]
            inner = f.nest(b)
            if len(ss) == 1:
                edge[(b, ss[0])] = g
            elif len(ss) == 2 and t.op == "br" and ss[0] != ss[1]:
                dead = [self.f.can_throw_only(x) for x in ss]
                c = self.opv(t.a[0])
                out = [x not in body for x in ss]
                lp = f.loop_of[b]
                # leaving an inner loop: afterwards we are back to the condition of its header
                leav = [lp is not None and lp != L and lp >= 0 and x not in f.loops[lp].b for x in ss]
                hdr = b == head and L is not None
                for k, x in enumerate(ss):
                    if dead[1 - k] or (hdr and out[1 - k]):
                        e = g
                    elif leav[k]:
                        e = self.leave(G, lp, x, L)
                    elif leav[1 - k]:
                        e = g
                    else:
                        e = self.bmul(g, c if k == 0 else ONE - c)
                    edge[(b, x)] = edge.get((b, x), ZERO) + e if leav[k] else e
            else:
                for k, x in enumerate(ss):
                    edge[(b, x)] = self.bmul(g, self.atom("edge", b, k, var=self.outer_of(b), bool=True))
        self._bc[L] = (G, edge)
        return self._bc[L]

    def leave(self, G, lp, x, L):
        """Condition after leaving inner loop lp: that of its (outermost left) header."""
        f = self.f
        h = f.loops[lp].h
        l = lp
        while l is not None and l >= 0 and x not in f.loops[l].b and l != L:
            h = f.loops[l].h
            l = f.loops[l].par
        exits = set((b, s) for b in f.loops[lp].b for s in f.succ[b] if s not in f.loops[lp].b and not f.can_throw_only(s))
        if len(exits) <= 1:
            return G[h]
        return self.bmul(G[h], self.atom("exitvia", lp, x, var=frozenset(), bool=True))

    def assign(self, p, amap):
        """Substitute constants for atoms (top level)."""
        out = ZERO
        for m, c in p.t.items():
            t = Poly.const(c)
            for a, e in m:
                if a in amap:
                    if amap[a] == 0 and e < 0:
                        t = t.mul(Poly({((a, e),): Fraction(1)}))
                    else:
                        t = t.scale(Fraction(amap[a]) ** e)
                else:
                    t = t.mul(Poly({((a, e),): Fraction(1)}))
            out = out + t
        return out

    def expand(self, p, L, depth=0):
        """Rewrite merges inside loop L as sums over truth values."""
        G, edge = self.block_conds(L)
        out = ZERO
        ch = False
        for m, c in p.t.items():
            term = Poly.const(c)
            for a, e in m:
                k = self.A.keys[a]
                r = None
                if e > 0 and k[0] == "phi" and k[1] in G and len(k[2]) == len(k[3]):
                    r = ZERO
                    for frm, v in zip(k[2], k[3]):
                        w = edge.get((frm, k[1]))
                        if w is None:
                            r = None
                            break
                        r = r + self.mul(w, v)
                elif e > 0 and k[0] == "sel":
                    r = k[3] + self.mul(k[1], k[2] - k[3])
                if r is not None:
                    ch = True
                    for _ in range(e):
                        term = self.mul(term, r)
                else:
                    term = term.mul(Poly({((a, e),): Fraction(1)}))
            out = out + term
        out = self.bnorm(out)
        if ch and depth < 12 and len(out.t) < 4000:
            return self.expand(out, L, depth + 1)
        return out

    # ---- pointers -----------------------------------------------------------
    def base_of(self, p):
        """(base atom, offset poly) of an address, or (None, p)."""
        base = None
        for m, c in p.t.items():
            if len(m) == 1 and m[0][1] == 1 and self.A.info[m[0][0]]["ptr"]:
                if c != 1 or base is not None:
                    return None, p
                base = m[0][0]
        if base is None:
            return None, p
        off = dict(p.t)
        del off[((base, 1),)]
        return base, Poly(off)

    @staticmethod
    def distinct(d, sz):
        """Offset difference d (bytes): True if accesses of size sz at both can never overlap."""
        c = d.t.get((), Fraction(0))
        if d.is_const():
            return abs(c) >= sz
        g = 0
        for m, k in d.t.items():
            if m == ():
                continue
            if k.denominator != 1 or any(e < 0 for _, e in m):
                return False
            g = gcd(g, abs(int(k)))
        if c.denominator != 1 or g == 0:
            return False
        r = int(c) % g
        return r >= sz and g - r >= sz

    # ---- main pass ----------------------------------------------------------
    def run(self):
        prev = None
        for npass in range(12):
            self.events = []
            self.stores = []
            self.loads = []
            self.calls = []
            self._pass()
            sig = tuple(sorted((k, r["kind"], r["step"]) for k, r in ((k, {"kind": r["kind"], "step": hash(r["step"]) if r["step"] is not None else 0}) for k, r in self.recs.items())))
            if sig == prev and npass >= 2:
                break
            prev = sig
        self.passes = npass + 1

    def _pass(self):
        f = self.f
        self.val = {}
        for a in f.args:
            self.val[a["id"]] = self.pin[a["id"]] if a["id"] in self.pin else self.atom("arg", a["id"], ptr=a["t"] == "p")
        self.mem_out = {}
        self.new_loop_stores = {L.idx: set() for L in f.loops}
        self.cond_in = {}
        self.dead = set()
        for b in f.rpo:
            if self.dead and b != 0 and self._unreached(b):
                self.dead |= set((b, x) for x in f.succ[b])
                continue
            self.mem = self._mem_in(b)
            for ins in f.blocks[b]:
                self._ins(ins)
            self.mem_out[b] = self.mem
            if self.prune:
                self._cut(b)
        # solve recurrences
        newrecs = {}
        for L in f.loops:
            for ins in f.blocks[L.h]:
                if ins.op != "phi":
                    break
                start, lat = None, []
                for o, fr in zip(ins.a, ins.x["from"]):
                    if fr in L.b and (fr, L.h) not in self.dead:
                        lat.append(self.opv(o))
                if ins.id not in self.val:
                    continue
                cur = self.val[ins.id]
                step = None
                ok = bool(lat)
                for v in lat:
                    d = v - cur
                    if step is None:
                        step = d
                    elif step != d:
                        ok = False
                if ok:
                    ra = self.A.tab.get(("rec", ins.id))
                    if ra is not None and self._mentions(step, ra):
                        ok = False
                    elif any(self.A.keys[a][0] == "rec" and self.f.defs[self.A.keys[a][1]].blk == L.h for a in step.atoms()):
                        # depends on another unsolved recurrence of the same loop
                        ok = False
                if ok and self.recs.get(ins.id, {}).get("kind") != "opaque":
                    n = self.recs.get(ins.id, {}).get("n", 0) + 1
                    old = self.recs.get(ins.id)
                    if old and old["step"] != step and n > 9:
                        newrecs[ins.id] = {"kind": "opaque", "step": None, "n": n}
                    else:
                        newrecs[ins.id] = {"kind": "add", "step": step, "n": n}
                else:
                    if ("rec", ins.id) in self.A.tab and len(lat) == 1:
                        self.A.info[self.A.tab[("rec", ins.id)]]["step"] = lat[0] - cur
                    old = self.recs.get(ins.id)
                    if old and old["kind"] == "add":
                        newrecs[ins.id] = {"kind": "opaque", "step": None, "n": 99}
                    elif old and old["kind"] == "opaque":
                        newrecs[ins.id] = old
        self.recs = newrecs
        self.loop_stores = self.new_loop_stores

    def _mentions(self, p, a, seen=None):
        """Does p depend (through nested atoms) on atom a?"""
        if seen is None:
            seen = {}
        for x in p.atoms():
            if x == a:
                return True
            if x in seen:
                continue
            seen[x] = 1
            for sub in self.A.keys[x]:
                if isinstance(sub, Poly) and self._mentions(sub, a, seen):
                    return True
                if isinstance(sub, tuple):
                    for s2 in sub:
                        if isinstance(s2, Poly) and self._mentions(s2, a, seen):
                            return True
        return False

    def depends(self, p, pred, seen=None):
        """Does p depend, through nested atoms, on an atom whose key satisfies pred?"""
        if seen is None:
            seen = set()
        for x in p.atoms():
            if x in seen:
                continue
            seen.add(x)
            k = self.A.keys[x]
            if pred(k):
                return True
            for sub in k:
                if isinstance(sub, Poly):
                    if self.depends(sub, pred, seen):
                        return True
                elif isinstance(sub, tuple):
                    for s2 in sub:
                        if isinstance(s2, Poly) and self.depends(s2, pred, seen):
                            return True
        return False

    # ---- operands -----------------------------------------------------------
    def opv(self, o):
        if isinstance(o, int):
            v = self.val.get(o)
            if v is None:
                ins = self.f.defs.get(o)
                v = self.atom("undef", o, ptr=bool(ins and ins.ty == "p"), var=self.outer_of(ins.blk) if ins else frozenset())
            return v
        k = o["k"]
        if k == "i":
            return Poly.const(o["v"])
        if k == "d":
            s = o["v"]
            if "n" in s:            # inf / nan
                return self.atom("special", s)
            x = Fraction(s)
            y = Fraction(float(s)).limit_denominator(1000000)
            if y != 0 and float(y) == float(s):
                x = y
            return Poly.const(x)
        if k == "n" or k == "z":
            return ZERO
        if k == "g":
            return self.atom("global", o["v"], ptr=True, s=o.get("s"), tab=o.get("tab"), esz=o.get("esz")) + Poly.const(o.get("off", 0))
        if k == "F":
            return self.atom("func", o["v"], ptr=True)
        return self.atom("undefconst")

    # ---- memory -------------------------------------------------------------
    def mkver(self, kind, ident, **kw):
        v = self.ver_intern.get((kind,) + ident)
        if v is None:
            v = Version(kind, **kw)
            v.n = len(self.ver_intern)
            self.ver_intern[(kind,) + ident] = v
        else:
            for k, x in kw.items():
                setattr(v, k, x)
        return v

    def _mem_in(self, b):
        f = self.f
        if b == 0:
            return {}
        ps = [p for p in f.pred[b] if p in self.mem_out]
        L = f.header.get(b)
        if L is not None:
            fwd = [p for p in ps if p not in f.loops[L].b]
            m = self._merge(b, fwd)
            for base in self.loop_stores[L]:
                m[base] = self.mkver("loop", (b, base), prev=m.get(base), blk=b, loopvar=frozenset(f.nest(b)))
            return m
        return self._merge(b, ps)

    def _unreached(self, b):
        """Every edge into b from outside its own loop is cut."""
        L = self.f.header.get(b)
        return all((p, b) in self.dead for p in self.f.pred[b] if L is None or p not in self.f.loops[L].b)

    def _cut(self, b):
        t = self.f.blocks[b][-1]
        ss = self.f.succ[b]
        if t.op == "br" and t.a and len(ss) == 2 and ss[0] != ss[1]:
            c = self.opv(t.a[0]).const_value()
            if c is not None:
                self.dead.add((b, ss[1 if c else 0]))
        elif t.op == "switch":
            c = self.opv(t.a[0]).const_value()
            if c is not None:
                to = next((x for v, x in t.x["cases"] if v == c), t.x["def"])
                self.dead |= set((b, x) for x in ss if x != to)

    def _merge(self, b, ps):
        ps = [p for p in ps if (p, b) not in self.dead] if self.dead else ps
        if not ps:
            return {}
        if len(ps) == 1:
            return dict(self.mem_out[ps[0]])
        keys = set()
        for p in ps:
            keys |= set(self.mem_out[p])
        m = {}
        for k in keys:
            vs = [self.mem_out[p].get(k) for p in ps]
            if all(v is vs[0] for v in vs):
                m[k] = vs[0]
            else:
                m[k] = self.mkver("merge", (b, k, tuple(v.n if v else -1 for v in vs)), prev=list(vs), blk=b, loopvar=frozenset(f for f in self.f.nest(b)))
                m[k].ins_list = ps
        return m

    def lookup(self, base, addr, sz, ver, depth=0):
        """Returns (value or None, version at which the search stopped)."""
        while ver is not None:
            if ver.kind == "store":
                d = addr - ver.addr
                if d.is_zero():
                    return ver.val, ver
                if self.distinct(d, max(sz, 1)):
                    ver = ver.prev
                    continue
                return None, ver
            if ver.kind == "merge" and depth < self.depth:
                rs = [self.lookup(base, addr, sz, v, depth + 1) for v in ver.prev]
                if all(r[0] is None for r in rs):
                    stops = set(id(r[1]) for r in rs)
                    if len(stops) == 1:
                        ver = rs[0][1]
                        if ver is None or ver.kind != "store":
                            return None, ver
                        return None, ver
                    return None, ver
                vals = []
                for r in rs:
                    if r[0] is not None:
                        vals.append(r[0])
                    else:
                        vals.append(self.loadatom(addr, base, r[1], sz))
                if all(v == vals[0] for v in vals):
                    return vals[0], ver
                return self.phi_atom(ver.blk, tuple(ver.ins_list), tuple(vals), any(self._isptr(v) for v in vals)), ver
            if ver.kind == "loop":
                # may the object change at this address inside the loop?
                if self.loop_safe(ver, addr, sz):
                    ver = ver.prev
                    continue
                return None, ver
            return None, ver
        return None, None

    def loop_safe(self, ver, addr, sz):
        L = self.f.header[ver.blk]
        return False

    def _isptr(self, p):
        return any(self.A.info[a]["ptr"] for a in p.atoms())

    def loadatom(self, addr, base, ver, sz, ptr=False):
        vk = ver.n if ver is not None else -1
        var = self.pvar(addr)
        if ver is not None:
            if ver.kind == "loop" or ver.kind == "merge":
                var = var | ver.loopvar
            else:
                var = var | self.outer_of(ver.ins.blk) if ver.ins is not None else var
        return self.atom("load", addr, vk, sz, var=var, ptr=ptr, base=base, addr=addr)

    def do_load(self, ins, addr, sz, ptr):
        base, off = self.base_of(addr)
        if self.subst:
            r = self.subst(self, ins, addr)
            if r is not None:
                return r
        if base is not None:
            info = self.A.info[base]
            if info.get("tab") is not None and off.is_const():
                k = off.const_value()
                if info["esz"] and k % info["esz"] == 0 and 0 <= k // info["esz"] < len(info["tab"]):
                    return Poly.const(Fraction(info["tab"][int(k // info["esz"])]))
        v, ver = self.lookup(base, addr, sz, self.mem.get(base))
        if v is not None:
            return v
        return self.loadatom(addr, base, ver, sz, ptr)

    def do_store(self, ins, addr, val, sz):
        base, off = self.base_of(addr)
        ver = self.mkver("store", (ins.id, base if base is not None else -1, addr), prev=self.mem.get(base), addr=addr, val=val, ins=ins)
        # content may differ between passes: keep latest
        self.mem = dict(self.mem)
        self.mem[base] = ver
        for l in self.f.nest(ins.blk):
            self.new_loop_stores[l].add(base)

    def clobber(self, ins, base):
        ver = self.mkver("clobber", (ins.id, base), prev=self.mem.get(base), ins=ins)
        self.mem = dict(self.mem)
        self.mem[base] = ver
        for l in self.f.nest(ins.blk):
            self.new_loop_stores[l].add(base)

    # ---- loops --------------------------------------------------------------
    def iter_atom(self, L):
        return self.atom("iter", L, var=frozenset([L]))

    def trip(self, L):
        """Number of completed iterations when the loop leaves through its header test."""
        lp = self.f.loops[L]
        hdr = self.f.blocks[lp.h]
        t = hdr[-1]
        outer = frozenset(l for l in self.f.nest(lp.h) if l != L)
        if t.op == "br" and t.a and isinstance(t.a[0], int):
            c = self.f.defs.get(t.a[0])
            s = self.f.succ[lp.h]
            if c is not None and c.op == "icmp" and c.id in self.val and len(s) == 2:
                inside = [x in lp.b for x in s]
                if inside == [True, False] or inside == [False, True]:
                    p = c.x["p"]
                    if inside == [False, True]:
                        p = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}.get(p)
                    x, y = self.opv(c.a[0]), self.opv(c.a[1])
                    if p in ("sgt", "ugt"):
                        x, y, p = y, x, "slt"
                    if p in ("sge", "uge"):
                        x, y, p = y, x, "sle"
                    if p in ("slt", "ult", "ne", "sle", "ule"):
                        d = y - x
                        it = self.A.tab.get(("iter", L))
                        if it is not None:
                            q = d.coeff_of(it)
                            if q is not None:
                                k, r = q
                                kc = k.const_value()
                                if kc is not None and kc < 0 and L not in self.pvar(r):
                                    if p in ("sle", "ule"):
                                        r = r + ONE
                                    if kc == -1:
                                        return r
                                    return r.scale(Fraction(1) / -kc)
        return self.atom("trip", L, var=outer)

    def at_exit(self, L, p, frm):
        """Value of p (computed inside loop L) after leaving the loop from block frm."""
        lp = self.f.loops[L]
        it = self.A.tab.get(("iter", L))
        rep = {}
        outer = frozenset(l for l in self.f.nest(lp.h) if l != L)
        hdr_exit = frm == lp.h
        latch_exit = frm in lp.la and frm != lp.h
        changed = False
        out = ZERO
        trip = None
        for m, c in p.t.items():
            term = Poly.const(c)
            for a, e in m:
                if L in self.A.info[a]["var"]:
                    changed = True
                    k = self.A.keys[a]
                    if a == it and hdr_exit:
                        r = self.trip(L)
                    elif a == it and latch_exit:
                        r = self.atom("trip", L, var=outer) - ONE
                    elif k[0] == "psum" and k[1] == L and hdr_exit:
                        r = self.atom("tsum", L, k[2], var=self.pvar(k[2]) - frozenset([L]))
                    else:
                        r = self.atom("final", L, frm, Poly.atom(a), var=self.A.info[a]["var"] - frozenset([L]) | outer, ptr=self.A.info[a]["ptr"])
                    if e > 0:
                        for _ in range(e):
                            term = self.mul(term, r)
                    else:
                        for _ in range(-e):
                            term = self.mul(term, self.inv(r))
                else:
                    term = term.mul(Poly({((a, e),): Fraction(1)}))
            out = out + term
        return out if changed else p

    def rec_value(self, ins, L, start, step):
        """start + accumulated steps."""
        inv = ZERO
        var = ZERO
        it = self.iter_atom(L)
        for m, c in step.t.items():
            if any(L in self.A.info[a]["var"] for a, _ in m):
                var = var + Poly({m: c})
            else:
                inv = inv + Poly({m: c})
        r = start + inv.mul(it)
        if not var.is_zero():
            if len(var.t) <= 40:
                for m, c in var.t.items():
                    f1 = tuple((a, e) for a, e in m if L not in self.A.info[a]["var"])
                    f2 = tuple((a, e) for a, e in m if L in self.A.info[a]["var"])
                    q = Poly({f2: Fraction(1)})
                    r = r + Poly({f1: c}).mul(self.atom("psum", L, q, var=self.pvar(q) | frozenset([L])))
            else:
                r = r + self.atom("psum", L, var, var=self.pvar(var) | frozenset([L]))
        return r

    def phi_atom(self, blk, frm, vals, ptr):
        common = dict(vals[0].t)
        for x in vals[1:]:
            for m in list(common):
                if x.t.get(m) != common[m]:
                    del common[m]
            if not common:
                break
        if common:
            cp = Poly(common)
            vals = tuple(x - cp for x in vals)
            if ptr:
                ptr = any(self._isptr(x) for x in vals)
            return cp + self.phi_raw(blk, frm, vals, ptr)
        return self.phi_raw(blk, frm, vals, ptr)

    def phi_raw(self, blk, frm, vals, ptr):
        v = frozenset()
        for x in vals:
            v |= self.pvar(x)
        v |= self.outer_of(blk)
        return self.atom("phi", blk, frm, vals, var=v, ptr=ptr)

    # ---- instructions -------------------------------------------------------
    def _ins(self, ins):
        op = ins.op
        f = self.f
        V = self.val
        if op == "phi":
            L = f.header.get(ins.blk)
            if L is not None:
                lp = f.loops[L]
                ins_out = [(self.opv(o), fr) for o, fr in zip(ins.a, ins.x["from"]) if fr not in lp.b and (fr, ins.blk) not in self.dead]
                start = self._phi_merge(ins, ins_out)
                r = self.recs.get(ins.id)
                if r and r["kind"] == "add":
                    V[ins.id] = self.rec_value(ins, L, start, r["step"])
                else:
                    V[ins.id] = self.atom("rec", ins.id, var=self.outer_of(ins.blk), ptr=ins.ty == "p", start=start)
                    self.A.info[self.A.tab[("rec", ins.id)]]["start"] = start
                return
            vs = []
            for o, fr in zip(ins.a, ins.x["from"]):
                if (fr, ins.blk) in self.dead:
                    continue
                v = self.opv(o)
                # leaving loops?
                l = f.loop_of[fr]
                while l is not None and l >= 0 and ins.blk not in f.loops[l].b:
                    v = self.at_exit(l, v, fr)
                    l = f.loops[l].par
                vs.append((v, fr))
            V[ins.id] = self._phi_merge(ins, vs)
            return
        if op in ("fadd", "add"):
            V[ins.id] = self.opv(ins.a[0]) + self.opv(ins.a[1])
        elif op in ("fsub", "sub"):
            V[ins.id] = self.opv(ins.a[0]) - self.opv(ins.a[1])
        elif op in ("fmul", "mul"):
            V[ins.id] = self.mul(self.opv(ins.a[0]), self.opv(ins.a[1]))
        elif op == "fneg":
            V[ins.id] = -self.opv(ins.a[0])
        elif op == "fdiv":
            V[ins.id] = self.mul(self.opv(ins.a[0]), self.inv(self.opv(ins.a[1])))
        elif op in ("sdiv", "udiv"):
            a, b = self.opv(ins.a[0]), self.opv(ins.a[1])
            c, d = a.const_value(), b.const_value()
            if c is not None and d:
                V[ins.id] = Poly.const(int(c / d))
            else:
                V[ins.id] = self.atom("idiv", a, b, var=self.pvar(a) | self.pvar(b))
        elif op == "shl":
            a, b = self.opv(ins.a[0]), self.opv(ins.a[1])
            c = b.const_value()
            V[ins.id] = a.scale(2 ** int(c)) if c is not None else self.atom("shl", a, b, var=self.pvar(a) | self.pvar(b))
        elif op in ("sext", "zext", "trunc", "sitofp", "uitofp", "fptosi", "fpext", "fptrunc", "bitcast", "ptrtoint", "inttoptr", "freeze", "fptoui"):
            a = self.opv(ins.a[0])
            if op in ("fptosi", "fptoui"):
                # conversion of an integral value stored as double
                V[ins.id] = self.atom("toint", a, var=self.pvar(a)) if not a.is_const() else Poly.const(int(a.const_value()))
            else:
                V[ins.id] = a
        elif op == "getelementptr":
            if "sc" not in ins.x:
                V[ins.id] = self.atom("gep?", ins.id, var=self.outer_of(ins.blk), ptr=True)
            else:
                p = self.opv(ins.a[0]) + Poly.const(ins.x["off"])
                for o, s in zip(ins.a[1:], ins.x["sc"]):
                    p = p + self.opv(o).scale(s)
                V[ins.id] = p
        elif op in ("icmp", "fcmp"):
            V[ins.id] = self.compare(ins.x["p"], self.opv(ins.a[0]), self.opv(ins.a[1]))
        elif op == "select":
            c, a, b = (self.opv(o) for o in ins.a)
            V[ins.id] = self.select(c, a, b, ins.ty)
        elif op in ("and", "or", "xor", "lshr", "ashr", "srem", "urem", "frem"):
            a, b = self.opv(ins.a[0]), self.opv(ins.a[1])
            if ins.ty == "i1" and op in ("and", "or", "xor"):
                ab = self.bmul(a, b)
                V[ins.id] = ab if op == "and" else a + b - (ab if op == "or" else ab.scale(2))
                return
            c, d = a.const_value(), b.const_value()
            if op in ("and", "or", "xor") and c is not None and d is not None and c.denominator == d.denominator == 1 and c >= 0 and d >= 0:
                c, d = int(c), int(d)
                V[ins.id] = Poly.const(c & d if op == "and" else c | d if op == "or" else c ^ d)
                return
            V[ins.id] = self.atom(op, a, b, var=self.pvar(a) | self.pvar(b))
        elif op == "alloca":
            V[ins.id] = self.atom("alloca", ins.id, ptr=True, at=ins.x.get("at"))
        elif op == "load":
            addr = self.opv(ins.a[0])
            v = self.do_load(ins, addr, ins.x.get("sz", 8), ins.ty == "p")
            V[ins.id] = v
            self.loads.append((ins, addr, v))
        elif op == "store":
            val, addr = self.opv(ins.a[0]), self.opv(ins.a[1])
            # value of a pre-existing content at that address right before the store
            base, off = self.base_of(addr)
            self.stores.append((ins, addr, val, self.mem.get(base)))
            self.do_store(ins, addr, val, ins.x.get("sz", 8))
        elif op == "call":
            self._call(ins)
        elif op in ("br", "ret", "switch", "unreachable", "resume", "fence"):
            pass
        elif op == "extractvalue":
            a = self.opv(ins.a[0])
            V[ins.id] = self.atom("ev", a, tuple(ins.x.get("idx", ())), var=self.pvar(a), ptr=ins.ty == "p")
        else:
            V[ins.id] = self.atom("op", op, ins.id, var=self.outer_of(ins.blk), ptr=ins.ty == "p")

    def _phi_merge(self, ins, vs):
        vals = tuple(v for v, _ in vs)
        if not vals:
            return self.atom("undef", ins.id, ptr=ins.ty == "p")
        if all(v == vals[0] for v in vals):
            return vals[0]
        return self.phi_atom(ins.blk, tuple(fr for _, fr in vs), vals, ins.ty == "p")

    # ---- calls --------------------------------------------------------------
    def deref(self, ins, addr, ptr=True):
        """Content of a smart-pointer-like object at addr."""
        return self.do_load(ins, addr, 8, ptr)

    def _call(self, ins):
        name = ins.callee
        V = self.val
        args = [self.opv(o) for o in ins.a]
        bc = base_callee(name) if name else None
        self.calls.append((ins, bc, args, self.mem))
        if self.extern:
            r = self.extern(self, ins, bc, args)
            if r is not None:
                if r is not True:
                    V[ins.id] = r
                return
        if name is None:
            fp = self.opv(ins.x["fp"]) if "fp" in ins.x else self.atom("fp?")
            if ins.ty == "d" and all(not self._isptr(a) for a in args):
                # call through a function pointer with scalar arguments: a pure function of them
                v = frozenset()
                for a in args:
                    v |= self.pvar(a)
                V[ins.id] = self.atom("fn", "*", fp, *args, var=v | self.pvar(fp))
            else:
                V[ins.id] = self.atom("call", ins.id, var=self.outer_of(ins.blk), ptr=ins.ty == "p", name="*", args=tuple(args))
                self._clobber_args(ins, args)
            return
        if bc in PURE or bc.startswith(("std::pow", "llvm.fabs", "llvm.sqrt", "llvm.pow", "std::abs", "llvm.smax", "llvm.smin", "llvm.umax", "llvm.umin", "llvm.minnum", "llvm.maxnum", "llvm.exp", "llvm.log", "llvm.cos", "llvm.sin", "std::exp", "std::log", "std::sqrt")) and ins.ty in ("d", "i32", "i64", "f"):
            if all(not self._isptr(a) for a in args):
                V[ins.id] = self.pure(bc, args)
                return
        if bc == "llvm.fmuladd.f64":
            V[ins.id] = self.mul(args[0], args[1]) + args[2]
            return
        r = self._model(ins, bc, name, args)
        if r is not None:
            if r is not True:
                V[ins.id] = r
            return
        V[ins.id] = self.atom("call", ins.id, var=self.outer_of(ins.blk), ptr=ins.ty == "p", name=bc, args=tuple(args))
        self._clobber_args(ins, args)

    def _clobber_args(self, ins, args):
        for a in args:
            b, _ = self.base_of(a)
            if b is not None and self.A.keys[b][0] in ("alloca", "call", "view", "vdata", "vec"):
                self.clobber(ins, b)

    def _model(self, ins, bc, name, args):
        A = args
        if bc == "PeridigmNS::DataManager::getData":
            vec = self.atom("vec", A[1], A[2], A[3], var=self.pvar(A[2]) | self.pvar(A[3]) | self.pvar(A[1]), ptr=True)
            self.do_store(ins, A[0], vec, 8)
            self.events.append(Event("getData", ins, dm=A[1], fid=A[2], step=A[3]))
            return True
        if bc.startswith("Teuchos::RCP<"):
            m = bc[bc.rfind("::") + 2:]
            if m in ("operator->", "operator*", "get", "getRawPtr", "ptr", "operator()", "access_private_ptr", "getConst", "is_null", "is_valid_ptr", "assert_not_null"):
                if m in ("is_null", "is_valid_ptr", "assert_not_null", "ptr"):
                    return None
                if m in ("operator()", "getConst") and ins.x.get("sret"):
                    self.do_store(ins, A[0], self.deref(ins, A[1]), 8)
                    return True
                return self.deref(ins, A[0])
            if m.startswith("~RCP"):
                return True
            if m.startswith("operator="):
                if len(A) == 2:
                    d = self.deref(ins, A[1])
                    self.events.append(Event("rcpassign", ins, dst=A[0], src=d, old=self.deref(ins, A[0])))
                    self.do_store(ins, A[0], d, 8)
                    return A[0]
            if m.startswith("RCP"):
                if len(A) == 2 and "RCP<" in name[name.find("("):]:
                    self.do_store(ins, A[0], self.deref(ins, A[1]), 8)
                    return True
                if len(A) >= 2 and self._isptr(A[1]):
                    self.do_store(ins, A[0], A[1], 8)
                    return True
                if len(A) >= 2 and A[1].is_const():
                    self.do_store(ins, A[0], ZERO, 8)
                    return True
                if len(A) == 1:
                    self.do_store(ins, A[0], ZERO, 8)
                    return True
            return None
        if bc.startswith("Teuchos::rcp<") and ins.x.get("sret") and len(A) >= 2 and self._isptr(A[1]):
            self.do_store(ins, A[0], A[1], 8)
            return True
        if bc.endswith("Epetra_Vector::ExtractView"):
            view = self.view(A[0])
            self.events.append(Event("view", ins, vec=A[0]))
            self.do_store(ins, A[1], view, 8)
            return Poly.const(0)
        if bc == "pdx.view":
            self.events.append(Event("view", ins, vec=A[0]))
            return self.view(A[0])
        if bc == "Epetra_Vector::operator[]":
            addr = self.view(A[0]) + A[1].scale(8)
            return addr
        if bc.startswith("std::numeric_limits<") and not A:
            v = LIMITS.get(bc[len("std::numeric_limits<"):].replace(">::", " "))
            return Poly.const(v) if v is not None else None
        if bc == "Epetra_MultiVector::Values":
            return self.view(A[0])
        if bc == "Epetra_MultiVector::PutScalar":
            self.events.append(Event("putscalar", ins, vec=A[0], val=A[1]))
            b, _ = self.base_of(self.view(A[0]))
            if b is not None:
                self.clobber(ins, b)
            return self.atom("call", ins.id, var=self.outer_of(ins.blk), name=bc, args=tuple(A))
        if bc in ("Epetra_Vector::operator=", "Epetra_MultiVector::operator="):
            self.events.append(Event("veccopy", ins, dst=A[0], src=A[1]))
            b, _ = self.base_of(self.view(A[0]))
            if b is not None:
                self.clobber(ins, b)
            return A[0]
        if bc.startswith("std::vector<") and bc.endswith(("::operator[]", "::at")):
            el = bc[len("std::vector<"):bc.rfind(", std::allocator")]
            sz = SIZES.get(el) or (8 if el.endswith("*") else None)
            if sz:
                return self.atom("vdata", A[0], var=self.pvar(A[0]), ptr=True) + A[1].scale(sz)
            return self.atom("elem", A[0], A[1], var=self.pvar(A[0]) | self.pvar(A[1]), ptr=True)
        if bc.startswith("std::vector<") and bc.endswith(("::data", "::begin", "::cbegin", "::front", "::end", "::cend", "::back")) and len(A) == 1:
            el = bc[len("std::vector<"):bc.rfind(", std::allocator")]
            sz = SIZES.get(el) or (8 if el.endswith("*") else None)
            p = self.atom("vdata", A[0], var=self.pvar(A[0]), ptr=True)
            if bc.endswith("::data") or sz and bc.endswith(("begin", "::front")):
                return p
            if sz:
                n = self.atom("vsize", A[0], self.memver(A[0]), var=self.pvar(A[0]))
                return p + (n - ONE if bc.endswith("::back") else n).scale(sz)
        if bc.startswith("std::initializer_list<") and bc.endswith(("::begin", "::end", "::size")) and len(A) == 1:
            n = self.do_load(ins, A[0] + Poly.const(8), 8, False)
            if bc.endswith("::size"):
                return n
            el = bc[len("std::initializer_list<"):bc.rfind(">")]
            sz = SIZES.get(el) or (8 if el.endswith("*") else None)
            p = self.deref(ins, A[0])
            if bc.endswith("::begin"):
                return p
            if sz:
                return p + n.scale(sz)
            return None
        if bc.startswith("std::vector<") and bc.endswith("::size"):
            return self.atom("vsize", A[0], self.memver(A[0]), var=self.pvar(A[0]))
        if bc.startswith(("llvm.memset", "llvm.memcpy", "llvm.memmove")):
            self.events.append(Event(bc.split(".")[1], ins, args=A))
            b, _ = self.base_of(A[0])
            if b is not None:
                if bc.startswith("llvm.memset") and A[1].is_zero() and A[2].const_value() is not None and A[2].const_value() <= 512 and A[2].const_value() % 8 == 0:
                    for k in range(0, int(A[2].const_value()), 8):
                        self.do_store_k(ins, A[0] + Poly.const(k), ZERO, 8, k)
                elif not bc.startswith("llvm.memset") and A[2].const_value() is not None and A[2].const_value() <= 512 and A[2].const_value() % 8 == 0:
                    vals = [self.do_load(ins, A[1] + Poly.const(k), 8, False) for k in range(0, int(A[2].const_value()), 8)]
                    for k, v in enumerate(vals):
                        self.do_store_k(ins, A[0] + Poly.const(8 * k), v, 8, k)
                else:
                    self.clobber(ins, b)
            return True
        if bc.startswith("std::__cxx11::basic_string<") and "::basic_string" in bc and "char const*" in name:
            # literal construction
            b, off = self.base_of(A[1])
            if b is not None and self.A.info[b].get("s") is not None:
                s = self.atom("str", self.A.info[b]["s"], ptr=True)
                self.do_store(ins, A[0], s, 8)
                return True
            return None
        if bc.startswith("std::__cxx11::basic_string<") and "::basic_string" in bc and "basic_string<" in name[name.find("("):] and len(A) == 2:
            self.do_store(ins, A[0], self.deref(ins, A[1]), 8)
            return True
        if bc.startswith("std::__cxx11::basic_string<") and ("::~basic_string" in bc or bc.endswith("::c_str") or bc.endswith("::data") or bc.endswith("::compare") or bc.endswith("::size") or bc.endswith("::length")):
            return True if "~" in bc else None
        if "::~" in bc or bc.startswith(("std::allocator<", "operator delete")) or bc in ("__cxa_guard_acquire", "__cxa_guard_release", "__cxa_atexit"):
            if ins.ty != "v":
                return self.atom("call", ins.id, var=self.outer_of(ins.blk), name=bc, args=tuple(A))
            return True
        return None

    def do_store_k(self, ins, addr, val, sz, k):
        base, off = self.base_of(addr)
        ver = self.mkver("store", (ins.id, base if base is not None else -1, addr), prev=self.mem.get(base), addr=addr, val=val, ins=ins)
        self.mem = dict(self.mem)
        self.mem[base] = ver
        for l in self.f.nest(ins.blk):
            self.new_loop_stores[l].add(base)

    def memver(self, addr):
        b, _ = self.base_of(addr)
        v = self.mem.get(b)
        return v.n if v is not None else -1

    def view(self, vec):
        return self.atom("view", vec, var=self.pvar(vec), ptr=True)

    # ---- printing -----------------------------------------------------------
    def show(self, p, depth=4):
        if p is None:
            return "?"
        if isinstance(p, Poly):
            if not p.t:
                return "0"
            out = []
            for m, c in sorted(p.t.items(), key=lambda kv: repr(kv[0]))[:30]:
                fs = []
                for a, e in m:
                    s = self.show_atom(a, depth)
                    fs.append(s if e == 1 else "%s^%d" % (s, e))
                cs = str(c)
                if fs:
                    out.append((cs + "*" if c != 1 else "") + "*".join(fs))
                else:
                    out.append(cs)
            if len(p.t) > 30:
                out.append("...")
            return " + ".join(out)
        return str(p)

    def show_atom(self, a, depth):
        k = self.A.keys[a]
        if depth <= 0:
            return "#%d" % a
        if hasattr(self, "names"):
            n = self.names(a)
            if n:
                return n
        parts = []
        for x in k[1:]:
            if isinstance(x, Poly):
                parts.append(self.show(x, depth - 1))
            elif isinstance(x, tuple):
                parts.append("(" + ", ".join(self.show(y, depth - 1) if isinstance(y, Poly) else str(y) for y in x) + ")")
            else:
                parts.append(str(x))
        return "%s(%s)" % (k[0], ",".join(parts))
