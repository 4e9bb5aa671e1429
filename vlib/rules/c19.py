"""C19: a model name in the input selects the model of that name or is rejected.

The functions that create models by name are followed along all paths, once per name
they compare with and once for a name they do not know."""
import re
from ..paths import Explorer
from ..sem import base_callee
from ..whole import whole

CTOR = re.compile(r"^(?:[\w]+::)*(\w+)::\1\(")
MAKE = re.compile(r"(?:make_rcp|make_shared|make_unique|rcpFromUndefRef)<(?:\w+::)*(\w+)[,>]")
NULL = re.compile(r"(?:Teuchos::RCP<PeridigmNS::(?:Material|DamageModel|ContactModel|Discretization)>::(is_null)\(\)|"
                  r"Teuchos::(is_null|operator==|operator!=)<PeridigmNS::(?:Material|DamageModel|ContactModel|Discretization)>\(.*(?:ENull\)|const&\))$)")
STRING = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"


def literal(o):
    return o["s"] if isinstance(o, dict) and o.get("k") == "g" and "s" in o and not o.get("off") else None


def text_of(f, o):
    """Text of a string object that is set once, from literal text."""
    d = f.defs.get(o) if isinstance(o, int) else None
    if d is None or d.op != "alloca":
        return None
    got = []
    for i in f.instrs():
        if i.op in ("call", "invoke") and i.a and i.a[0] == o and (i.callee or "").startswith(STRING + "::"):
            m = i.callee[len(STRING) + 2:]
            if m.startswith("basic_string") and len(i.a) > 1:
                got.append(literal(i.a[1]))
            elif not m.startswith("~") and not m.split("(")[1].split(")")[1].strip().startswith("const"):
                return None
    return got[0] if len(got) == 1 else None


def compared(ins, f=None):
    """(kind, literal, other operand) of a comparison of a string with literal text."""
    c = ins.callee or ""
    if c.startswith(("bool std::operator==<char", "bool std::operator!=<char")):
        kind = "eq" if "operator==" in c else "ne"
    elif c.startswith(STRING + "::compare(char const*)") or c in ("strcmp", "strcasecmp"):
        kind = "order"
    else:
        return None
    for k in (1, 0):
        if len(ins.a) > k and literal(ins.a[k]) is not None:
            return kind, literal(ins.a[k]), ins.a[1 - k]
    for k in (1, 0) if f is not None else ():
        if len(ins.a) > k and text_of(f, ins.a[k]) is not None:
            return kind, text_of(f, ins.a[k]), ins.a[1 - k]
    return None


def fold(name):
    return re.sub(r"[^a-z0-9]", "", name.lower())


class Names:
    """What the model classes call themselves."""
    def __init__(self, W):
        self.W = W
        self.own, self.where = {}, {}
        for f in W.funcs:
            m = re.match(r"^(?:\w+::)*(\w+)::Name(?:\[abi:cxx11\])?\(\)( const)?$", f.dem)
            if m:
                t = set(literal(o) for i in f.instrs() if i.op in ("call", "invoke") for o in i.a if literal(o) is not None)
                if len(t) == 1:
                    self.own[m.group(1)] = t.pop()
                    self.where[m.group(1)] = next(i for i in f.instrs() if i.op in ("call", "invoke"))
        self.ctor = {}
        for f in W.funcs:
            m = CTOR.match(f.dem)
            if m:
                self.ctor.setdefault(m.group(1), []).append(f)

    def created(self, ins):
        fp = ins.x.get("fp")
        c = ins.callee or (fp.get("v") if isinstance(fp, dict) else None) or ""
        m = CTOR.match(str(c)) or MAKE.search(str(c))
        if m and (m.group(1) in self.own or m.group(1).endswith("Discretization")) and m.group(1) in self.ctor:
            return m.group(1)
        return None

    def carried(self, k, names):
        """Name the class goes by: reported, or insisted on by its constructor."""
        if k in self.own:
            return self.own[k]
        t = set(compared(i, f)[1] for f in self.ctor.get(k, ()) for i in f.instrs() if i.op in ("call", "invoke") and compared(i, f)) & names
        return t.pop() if len(t) == 1 else None


def run(ctx):
    ctx.rule = ("Every function that creates models by comparing a name with literals is followed along all paths, once per literal with the "
                "comparisons decided, and once with all of them failing. A known name ends with exactly one model, the one that reports that "
                "name (spacing, hyphens and case aside), or in an error; different names give different models; an unknown name ends in an "
                "error. Predefined functions selected by name are the same wherever they are selected, and every model name the driver tests "
                "for is reported by a model.")
    ctx.assumptions += ["models are selected by comparing names with literal text"]
    W = whole()
    N = Names(W)
    ctx.count("classes that report a name", len(N.own))
    makers = {}
    for f in W.funcs:
        if f.internal or CTOR.match(f.dem):
            continue
        ks = set(N.created(i) for i in f.instrs() if i.op in ("call", "invoke")) - {None}
        if ks:
            makers[f.dem] = ks

    def names_in(f):
        return set(compared(i, f)[1] for i in f.instrs() if i.op in ("call", "invoke") and compared(i, f))

    def close(f, depth=0):
        """f and the creating helpers it calls that do not select by themselves."""
        out = [f]
        for ins, c in W.callees.get(f.dem, ()) if depth < 3 else ():
            g = W.by_dem.get(c)
            if g is not None and c in makers and g not in out and not names_in(g):
                out += [x for x in close(g, depth + 1) if x not in out]
        return out
    done = set()
    for f in W.funcs:
        if f.internal or CTOR.match(f.dem):
            continue
        fs = close(f)
        names = names_in(f)
        if not names or not any(g.dem in makers for g in fs):
            continue
        factory(ctx, W, N, f, fs, names)
        done |= set(g.dem for g in fs)
    for d, ks in makers.items():
        if d not in done:
            ctx.count("creations outside a selection")
    influence(ctx, W)
    driver(ctx, W, N)
    ctx.need("names selecting a model", 20)
    ctx.need("selecting functions", 3)
    ctx.need("predefined functions selected", 4)
    ctx.need("tests on a model's name", 3)


def explore(f, fs, N, name):
    inside = set(g.dem for g in fs)

    def step(g, ins, st):
        c = compared(ins, g)
        if c:
            hit = c[1] == name
            return [(st, int(hit) if c[0] == "eq" else int(not hit))]
        m = NULL.search(ins.callee or "")
        if m:
            return [(st, int(bool(st) == (m.group(2) == "operator!=")))]
        k = N.created(ins)
        if k:
            return [(st + ((k, ins.where(), ins.func()),) if len(st) < 3 else st, None)]
        return None

    def descend(g, ins):
        return whole().by_dem.get(ins.callee) if ins.callee in inside and ins.callee != g.dem else None
    ex = Explorer(step, descend)
    out = [st for st, _ in ex.run(f, ())]
    return out, ex.n


def factory(ctx, W, N, f, fs, names):
    ctx.count("selecting functions")
    who = f.dem.split("(")[0].replace("PeridigmNS::", "")
    at = "%s (%s)" % (next(i for i in f.instrs() if i.op in ("call", "invoke") and compared(i, f)).where(), who)
    ends, n = explore(f, fs, N, None)
    ctx.count("states followed", n)
    ok = not ends
    ctx.obligation(ok)
    if not ok:
        ctx.violation("%s:unknown" % who, at, "an unknown name does not end in an error but %s" %
                      ("creates %s" % ends[0][0][0] if ends[0] else "leaves no model"))
    by = {}
    for name in sorted(names):
        ends, n = explore(f, fs, N, name)
        ctx.count("states followed", n)
        if not ends:
            ctx.count("names known but rejected")
            continue
        ctx.count("names selecting a model")
        bad = [e for e in ends if len(set(k for k, _, _ in e)) != 1]
        ctx.obligation(not bad)
        if bad:
            ctx.violation("%s:%s" % (who, name), at, "the name \"%s\" %s" % (name, "creates no model" if not bad[0] else "creates more than one model: " + ", ".join(k for k, _, _ in bad[0])))
            continue
        for k, w, fn in sorted(set(e[0] for e in ends)):
            own = N.carried(k, names)
            ok = own is not None and fold(own) == fold(name)
            ctx.obligation(ok)
            if not ok:
                ctx.violation("%s:%s" % (who, name), "%s (%s)" % (w, who),
                              "the name \"%s\" creates %s, which %s" % (name, k, "reports the name \"%s\"" % own if own else "goes by another name"))
            else:
                ctx.sample("%s: \"%s\" creates %s" % (who, name, k))
            by.setdefault(k, set()).add(name)
    for k, ns in sorted(by.items()):
        ctx.obligation(len(ns) == 1)
        if len(ns) > 1:
            ctx.violation("%s:alias:%s" % (who, k), at, "the names %s all create %s" % (", ".join(sorted(ns)), k))


class Pointers(Explorer):
    """Also follows which function a pointer denotes."""
    def __init__(self, *a):
        Explorer.__init__(self, *a)
        self.kept = set()

    def val(self, e, o):
        if isinstance(o, dict) and o.get("k") == "F":
            return re.sub(r" \(\.\d+\)$", "", o["v"])
        return Explorer.val(self, e, o)

    def eval(self, f, e, i):
        if i.op == "store":
            v = self.val(e, i.a[0])
            if isinstance(v, str):
                self.kept.add(v)
        elif i.op == "select" or i.op in ("icmp", "and", "or", "xor", "add", "sub"):
            if any(isinstance(self.val(e, o), str) for o in i.a if i.op != "select"):
                return None
        return Explorer.eval(self, f, e, i)


def influence(ctx, W):
    """Predefined functions selected by name."""
    tables = {}
    for f in W.funcs:
        if f.internal or "Influence" not in f.dem:
            continue
        names = set(compared(i, f)[1] for i in f.instrs() if i.op in ("call", "invoke") and compared(i, f))
        fps = any(isinstance(o, dict) and o.get("k") == "F" and "(double, double)" in o["v"] for i in f.instrs() for o in i.a)
        if not names or not fps:
            continue
        who = f.dem.split("(")[0].replace("PeridigmNS::", "")
        at = "%s (%s)" % (next(i for i in f.instrs() if i.op in ("call", "invoke") and compared(i, f)).where(), who)
        for name in sorted(names) + [None]:
            def step(g, ins, st):
                c = compared(ins, g)
                if c:
                    return [(st, int(c[1] == name) if c[0] == "eq" else int(c[1] != name))]
                return None
            ex = Pointers(step)
            ends = ex.run(f, ())
            got = (set(v for _, v in ends if isinstance(v, str)) | ex.kept) if ends else set()
            got = set(v for v in got if "(double, double)" in v)
            if name is None:
                # an unknown name is refused, or taken as an expression
                bad = got & set(v for t in tables.get(f.dem, {}).values() for v in t)
                ok = not bad and (not ends or bool(got))
                ctx.obligation(ok)
                if not ok:
                    ctx.violation("%s:unknown" % who, at, "an unknown name selects %s" % (", ".join(sorted(bad)) or "no function"))
                continue
            ctx.count("predefined functions selected")
            ctx.obligation(len(got) == 1)
            if len(got) != 1:
                ctx.violation("%s:%s" % (who, name), at, "the name \"%s\" selects %s" % (name, ", ".join(sorted(got)) or "no function"))
            tables.setdefault(f.dem, {})[name] = got
        rev = {}
        for name, got in tables.get(f.dem, {}).items():
            for v in got:
                rev.setdefault(v, set()).add(name)
        for v, ns in sorted(rev.items()):
            ctx.obligation(len(ns) == 1)
            if len(ns) > 1:
                ctx.violation("%s:alias" % who, at, "the names %s all select %s" % (", ".join(sorted(ns)), v))
    ts = sorted(tables.items())
    for d, t in ts[1:]:
        for name in sorted(set(t) & set(ts[0][1])):
            ok = t[name] == ts[0][1][name]
            ctx.obligation(ok)
            if not ok:
                ctx.violation("influence:%s" % name, d.split("(")[0], "the name \"%s\" selects %s here but %s in %s" % (
                    name, ", ".join(sorted(t[name])), ", ".join(sorted(ts[0][1][name])), ts[0][0].split("(")[0]))


def driver(ctx, W, N):
    """Names that the program tests models for."""
    known = set(N.own.values())
    for f in W.funcs:
        by = {}
        for i in f.instrs():
            if i.op in ("call", "invoke") and i.callee is None and i.x.get("vc") and i.a:
                for o in i.a[:2]:
                    if isinstance(o, int):
                        by.setdefault(o, []).append(i)
        if not by:
            continue
        for i in f.instrs():
            c = compared(i, f) if i.op in ("call", "invoke") else None
            if c and isinstance(c[2], int) and c[2] in by and f.defs.get(c[2]) is not None and f.defs[c[2]].op == "alloca":
                ctx.count("tests on a model's name")
                ok = c[1] in known
                ctx.obligation(ok)
                if not ok:
                    ctx.violation("test:%s" % c[1], "%s (%s)" % (i.where(), i.func()), "models are tested for the name \"%s\", which no model reports" % c[1])
