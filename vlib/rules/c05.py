"""C05: dimensional homogeneity of every model evaluation."""
from fractions import Fraction
from ..poly import Poly
from ..universe import models, spread, short
from ..model import Eval
from ..units import Units, Unit, NONE, FIELD, PARAM, U, STRESS

KINDS = ["initialize", "precompute", "computeForce", "computeFluxDivergence", "computeStoredElasticEnergyDensity", "computeDamage", "compute"]
TRANSCENDENTAL = {"exp", "log", "log10", "sin", "cos", "tan", "acos", "asin", "atan", "sinh", "cosh", "tanh"}


def tensor_label(l):
    return l[:-3] if len(l) > 3 and l[-3] == "_" and all(c in "XYZ" for c in l[-2:]) else l


class Infer:
    """Units of the polynomials of one Sem."""
    def __init__(self, un, sem, tag, load_unit, report):
        self.un, self.s, self.tag, self.load_unit, self.report = un, sem, tag, load_unit, report
        self.memo = {}
        self.pmemo = {}
        self.ins = None
        self.n = 0

    def tiny(self, c):
        c = abs(c)
        return c <= Fraction(1, 10 ** 12) or c >= 10 ** 12     # stands for zero or for infinity

    def alternatives(self, ps):
        """Common unit of the values a merge can take."""
        r = None
        for p in ps:
            c = p.const_value()
            if c is not None and (c == 0 or self.tiny(c)):
                continue
            u = self.poly(p)
            if r is None:
                r = u
            else:
                self.same(r, u, p)
        return r if r is not None else self.un.var("free", id(self), len(self.memo), tuple(map(hash, ps)))

    def same(self, a, b, p):
        self.n += 1
        if not self.un.unify(a, b):
            self.report(self.ins, self.un.norm(a), self.un.norm(b), p)

    def poly(self, p):
        """Unit of p; all terms must agree."""
        if p in self.pmemo:
            return self.pmemo[p]
        r = self.poly0(p)
        self.pmemo[p] = r
        return r

    def poly0(self, p):
        r = None
        au = {a: self.un.norm(self.atom(a)) for a in sorted(p.atoms())}
        seen = set()
        for m, c in p.t.items():
            if not m and self.tiny(c) and len(p.t) > 1:
                continue
            v0 = v1 = v2 = v3 = 0
            u = {}
            for a, e in m:
                x = au[a]
                v = x.v
                v0 += v[0] * e
                v1 += v[1] * e
                v2 += v[2] * e
                v3 += v[3] * e
                for y, k in x.u.items():
                    u[y] = u.get(y, 0) + k * e
            u = {y: k for y, k in u.items() if k}
            key = (v0, v1, v2, v3, frozenset(u.items()))
            if key in seen:
                continue
            seen.add(key)
            u = Unit((v0, v1, v2, v3), u)
            if r is None:
                r = u
            else:
                self.same(r, u, p)
        if r is None:
            return self.un.var("free", id(self), "zero", len(self.memo), id(p))
        return r

    def atom(self, a):
        r = self.memo.get(a)
        if r is not None:
            return r
        self.memo[a] = self.un.var("cyc", self.tag, a)
        r = self.atom0(a)
        cyc = self.memo[a]
        self.memo[a] = r
        if cyc is not r:
            self.un.unify(cyc, r)
        return r

    def atom0(self, a):
        s = self.s
        k = s.A.keys[a]
        t = k[0]
        if s.A.info[a].get("bool") or t in ("eq0", "gt0", "eq", "iter", "trip", "isparam", "exec", "edge", "toint", "vsize", "and", "or", "xor"):
            if t in ("eq0", "gt0"):
                d = k[1]
                c0 = d.t.get((), 0)
                if c0 and len(d.t) > 1:
                    r = abs(c0) / max(abs(c) for m, c in d.t.items() if m)
                    if self.tiny(r):
                        d = d - Poly.const(c0)        # comparison with numerical zero or infinity
                self.poly(d)
            return NONE
        if t == "poly":
            return self.poly(k[1])
        if t == "load":
            if k[3] != 8:
                return NONE
            return self.load_unit(self, a, k)
        if t == "fn":
            n = k[1]
            args = [x for x in k[2:] if isinstance(x, Poly)]
            if n == "sqrt":
                return self.poly(args[0]).pow(Fraction(1, 2))
            if n == "cbrt":
                return self.poly(args[0]).pow(Fraction(1, 3))
            if n in ("abs", "floor", "ceil"):
                return self.poly(args[0])
            if n in TRANSCENDENTAL:
                for x in args:
                    self.same(self.poly(x), NONE, x)
                return NONE
            if n == "pow":
                e = args[1].const_value()
                if e is not None:
                    return self.poly(args[0]).pow(e)
                self.same(self.poly(args[1]), NONE, args[1])
                self.same(self.poly(args[0]), NONE, args[0])
                return NONE
            if n in ("maxnum", "minnum", "fmax", "fmin", "smax", "smin", "umax", "umin", "hypot"):
                return self.alternatives(args)
            if n in ("atan2",):
                self.same(self.poly(args[0]), self.poly(args[1]), args[0])
                return NONE
            if n == "*":
                return self.un.var("omega", self.tag[0])
            return self.un.var("fn", self.tag, n)
        if t == "phi":
            return self.alternatives(list(k[3]))
        if t == "sel":
            self.poly(k[1])
            return self.alternatives([k[2], k[3]])
        if t == "tsum" or t == "psum":
            ps = [x for x in k[1:] if isinstance(x, Poly)]
            return self.poly(ps[0]) if ps else self.un.var("sum", self.tag, a)
        if t == "rec" or t == "final":
            return self.un.var(t, self.tag, a)
        if t == "arg":
            return self.arg_unit(k[1])
        if t == "inv0":
            return self.un.var("inv0", self.tag, a)
        return self.un.var(t, self.tag, a)

    def arg_unit(self, i):
        for x in self.s.f.args:
            if x["id"] == i and x["t"] == "d":
                return self.darg.get(i, NONE)
        return NONE


def run(ctx):
    ctx.rule = ("Unit-of-measure inference: quantities and input parameters with known units are fixed, all others are unknowns; "
                "terms that are added, compared, selected or stored into one another must unify, arguments of transcendental "
                "functions must be dimensionless.  One unification problem per model class over all its evaluations.")
    spread(ctx, sorted(models().concrete(), key=lambda c: c.name), one)
    ctx.need("model classes", 40)
    ctx.need("evaluations analysed", 75)
    ctx.need("stores", 1500)


def one(ctx, c):
    M = models()
    L = [(c, k, Eval(M, c, k)) for k in KINDS if c.methods.get(k) is not None and sum(len(b) for b in c.methods[k].blocks) >= 3]
    if L:
        check_class(ctx, c.name, L)


def copied(e, ac, k):
    """The quantity whose values a load sees: of the source, if the vector was just assigned as a whole."""
    s = e.sem
    for ev in s.events:
        if ev.kind == "veccopy":
            dst = [x for x in e.vec_info(ev.d["dst"])]
            src = e.vec_info(ev.d["src"])
            if src and any(fk[1] == ac.label and st == ac.step for fk, st in dst):
                lds = [i for i, addr, v in s.loads if addr == k[1]]
                sts = [i for i, addr, v, ver in s.stores if addr == k[1]]
                if lds and all(e.f.dominates(ev.ins.blk, i.blk) for i in lds) and not any(st.blk == i.blk and st.pos < i.pos for st in sts for i in lds):
                    return src[0][0][1]
    return ac.label


def check_class(ctx, cn, L):
    un = Units()
    c = L[0][0]
    sh = short(c)

    def report(ins, a, b, p):
        ctx.obligation(False)
        where = "%s (%s)" % (ins.where(), ins.func()) if ins is not None else cn
        ctx.violation("%s:%s" % (sh, kinds[0]), where,
                      "%s: a quantity of unit [%s] is combined with one of unit [%s]" % (sh, a, b),
                      value=cur[0].s.show(p, 2)[:600], path=[ins.path()] if ins is not None else [])

    def param_unit(label):
        if label in PARAM:
            return U(PARAM[label])
        return un.var("param", label)

    def ctor_load(I, a, k):
        for b in k[1].atoms():
            kb = I.s.A.keys[b]
            if kb[0] == "param" and isinstance(kb[2], str):
                return param_unit(kb[2])
        return un.var("cl", a)
    CI = Infer(un, c.ctor, ("ctor", cn), ctor_load, report) if c.ctor and c.ctor is not True else None
    cur = [CI]
    kinds = ["constructor"]
    mem = {}

    def member(off):
        if off not in mem:
            v = c.members.get(off)
            if v is None or CI is None:
                mem[off] = un.var("member", off)
            else:
                cc = v.const_value()
                old = cur[0]
                cur[0] = CI
                CI.ins = None
                mem[off] = un.var("member", off) if cc is not None else CI.poly(v)
                cur[0] = old
        return mem[off]

    def field_unit(label):
        l = tensor_label(label)
        if l in FIELD:
            return U(FIELD[l])
        return un.var("field", label)

    for c, kind, e in L:
        s = e.sem

        def load_unit(I, a, k):
            ac = e.access(k[1])
            if ac is not None:
                return field_unit(copied(e, ac, k))
            b, off = s.base_of(k[1])
            if b == e.this and off.is_const():
                return member(int(off.const_value()))
            if b is not None:
                kb = s.A.keys[b]
                if kb[0] == "param" and isinstance(kb[2], str):
                    return param_unit(kb[2])
                return un.var("mem", kind, a)
            return un.var("mem?", kind, a)
        I = Infer(un, s, (cn, kind), load_unit, report)
        I.darg = {}
        for x in s.f.args:
            if x["t"] == "d":
                I.darg[x["id"]] = U("T")
        cur[0] = I
        kinds[0] = kind
        ctx.count("evaluations analysed")
        for ins, addr, val, ver in s.stores:
            if ins.x.get("vt") != "d":
                continue
            I.ins = ins
            cv = val.const_value()
            if cv is not None and (cv == 0 or I.tiny(cv)):
                continue
            u = I.poly(val)
            ac = e.access(addr)
            if ac is not None:
                t = field_unit(ac.label)
            else:
                b, off = s.base_of(addr)
                if b is None or b == e.this:
                    continue
                continue
            ctx.count("stores")
            n0 = len(ctx.viol)
            I.same(u, t, val)
            ctx.obligation(len(ctx.viol) == n0)
        for ins in e.f.instrs():
            if ins.op == "br" and len(ins.a):
                I.ins = ins
                I.poly(s.opv(ins.a[0]))
                ctx.count("branch conditions")
        ctx.count("unit equations", I.n)
    ctx.count("model classes")
    for n in sorted(set(k[1] for k in un.sub if k[0] == "field")):
        ctx.info.setdefault("inferred", {}).setdefault(sh, {})[n] = repr(un.norm(un.var("field", n)))
