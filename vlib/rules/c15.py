"""C15: a restart restores exactly what was saved.

The functions that save and restore are inlined; texts, file names and the objects
behind smart pointers are followed as terms, and the table of what is written where is
compared with the table of what is read from where into what."""
import re
from .. import front
from ..driver import CheckError
from ..sem import base_callee

STR = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
COPY = "copyLocallyOwnedMultiVectorData"
ENTRY = r"fn:^PeridigmNS::Peridigm::[A-Za-z_]*[rR]estart[A-Za-z_]*\("
DIGITS = 17
EMPTY = ("parts", ())


def run(ctx):
    ctx.rule = ("The restart functions are inlined and their file names, smart pointers and temporary vectors followed as terms. "
                "Each quantity written has a file of its own; the data of each file are read back in full into the quantity that was "
                "written to it, and nothing else is read; reading and writing happen under the same conditions; numbers written as "
                "text carry all their digits.")
    ctx.assumptions += ["a vector written to and read from a MatrixMarket file is unchanged",
                        "names of blocks are distinct; the file names of one restart set differ in what follows the directory"]
    P = front.program([ENTRY], ["--noinline", COPY])
    inner = set()
    for f in P.functions:
        for i in f.instrs():
            ch = i.x.get("l") or []
            inner |= set(x[2] for x in ch[:-1])
    tops = [f for f in P.functions if base_callee(f.dem).split("::")[-1] not in inner]
    if not tops:
        raise CheckError("no function that saves or restores a restart set")
    walks = [Walk(f) for f in tops]
    table = {}
    for w in walks:
        for k, v in w.table.items():
            table.setdefault(k, set()).update(v)
    writes, reads = [], []
    given, lost = set(), []
    for w in walks:
        given |= w.given()
    for w in walks:
        ctx.count("restart functions followed")
        for kind, L in (("w", writes), ("r", reads)):
            ev = [e for e in w.events if e["kind"] == kind]
            common = set.intersection(*[w.conditions(e["ins"].blk) for e in ev]) if ev else set()
            for e in ev:
                e["file"] = name(e["file"], table)
                e["cond"] = frozenset(c for c in w.conditions(e["ins"].blk) - common - given)
                L.append(e)
        for t, i in w.lost:
            lost.append(name(t[1], table))
            ctx.undecided("what becomes of the data read at %s (%s)" % (i.where(), i.func()))
    ctx.count("quantities written", len(writes))
    ctx.count("quantities read", len(reads))
    for e in writes + reads:
        if e["file"] is None:
            ctx.undecided("file name not followed at %s (%s)" % (e["ins"].where(), e["ins"].func()))
            e["file"] = ("?", id(e))
        if local(e["what"]):
            ctx.undecided("quantity not followed at %s (%s)" % (e["ins"].where(), e["ins"].func()))
    rkeys, wkeys = {}, {}
    for e in reads:
        rkeys.setdefault((e["file"], e["line"]), []).append(e)
    for e in writes:
        wkeys.setdefault((e["file"], e["line"]), []).append(e)
    if any(e["file"][0] == "?" for e in writes + reads):
        return
    for k, L in sorted(wkeys.items(), key=str):
        w = L[0]
        where = "%s (%s)" % (w["ins"].where(), w["ins"].func())
        other = [x for x in L if x["what"] != w["what"]]
        ctx.obligation(not other)
        for x in other:
            ctx.violation("shared:%s" % shown(k[0]), "%s (%s)" % (x["ins"].where(), x["ins"].func()),
                          "two quantities are written to %s" % shown(k[0]), path=[w["ins"].path(), x["ins"].path()])
        still = [X for X in elements(w["what"]) if not varies(k[0], X)]
        ctx.obligation(not still)
        if still:
            ctx.violation("one file:%s" % shown(k[0]), where, "%s is written once for each element of a list" % shown(k[0]), path=[w["ins"].path()])
        R = rkeys.get(k, [])
        if not R and any(k[0] == x for x in lost):
            continue
        ctx.obligation(bool(R))
        if not R:
            ctx.violation("unread:%s" % shown(k[0]), where, "what is written to %s is never read back" % shown(k[0]), path=[w["ins"].path()])
            continue
        for r in R:
            at = "%s (%s)" % (r["ins"].where(), r["ins"].func())
            same = any(r["what"] == x["what"] for x in L)
            ctx.obligation(same)
            ctx.count("write/read pairs compared")
            if not same and not any(r["what"] == x["what"] or shape(r["what"]) == shape(x["what"]) for x in writes):
                ctx.undecided("quantity read from %s at %s" % (shown(k[0]), at))
            elif not same:
                ctx.violation("into:%s" % shown(k[0]), at, "what is read from %s goes into another quantity than was written to it" % shown(k[0]),
                              path=[w["ins"].path(), r["ins"].path()])
            ctx.obligation(r.get("full", True) is True)
            if r.get("full") is False:
                ctx.violation("length:%s" % shown(k[0]), at, "what is read from %s is copied with the length of another quantity" % shown(k[0]), path=[r["ins"].path()])
            elif r.get("full") is None:
                ctx.undecided("length of the copy at " + at)
            a = set(frozenset(x["cond"]) for x in L)
            ok = r["cond"] in a
            ctx.obligation(ok)
            if not ok and (not r["cond"] or frozenset() in a):
                ctx.violation("condition:%s" % shown(k[0]), at, "%s is written and read under different conditions" % shown(k[0]), path=[w["ins"].path(), r["ins"].path()])
            elif not ok:
                ctx.undecided("conditions of %s at %s" % (shown(k[0]), at))
        ctx.obligation(w.get("exact", True))
        if not w.get("exact", True):
            ctx.violation("digits:%s" % shown(k[0]), where, "the number written to %s does not keep all its digits" % shown(k[0]), path=[w["ins"].path()])
        ctx.sample("%s: %s <-> %s" % (shown(k[0]), w["ins"].where(), R[0]["ins"].where()))
    for k, L in sorted(rkeys.items(), key=str):
        ctx.obligation(k in wkeys)
        if k not in wkeys:
            ctx.violation("unwritten:%s" % shown(k[0]), "%s (%s)" % (L[0]["ins"].where(), L[0]["ins"].func()),
                          "%s is read but not written (there)" % shown(k[0]), path=[L[0]["ins"].path()])
    ctx.need("restart functions followed", 2)
    ctx.need("write/read pairs compared", 10)


def shown(p):
    return "".join(x if isinstance(x, str) else "<>" for x in p) or "<>"


def join(parts):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "":
            out.append(p)
    return tuple(out)


def local(t):
    """The term refers to a local object about which nothing is known."""
    if isinstance(t, tuple):
        return (len(t) > 0 and t[0] in ("cell", "dyn")) or any(local(x) for x in t)
    return False


def name(parts, table):
    """What follows the directory, with names kept in tables looked up."""
    for _ in range(4):
        out = []
        for p in parts:
            k = p[1] if isinstance(p, tuple) and p[0] == "str" else None
            if k is not None and k[0] == "map" and len(table.get(k, ())) >= 1:
                v = set(tail(x) for x in table[k])
                out += list(v.pop()) if len(v) == 1 else [p]
            else:
                out.append(p)
        new = join(out)
        if new == parts:
            break
        parts = new
    parts = tail(join(parts))
    return None if local(parts) or not parts else parts


def tail(parts):
    for n, p in enumerate(parts):
        if isinstance(p, str) and "/" in p:
            return (p[p.rindex("/"):],) + tuple(parts[n + 1:])
    return tuple(parts)


def both(x, y):
    """Value after a join: a text that is empty on the other way counts as the text."""
    if x == y or y == EMPTY and x[:1] == ("parts",):
        return x
    return y if x == EMPTY and y is not None and y[:1] == ("parts",) else None


def inside(t, x):
    return t == x or isinstance(x, tuple) and any(inside(t, y) for y in x)


def number(t):
    try:
        return float(t[1]) if t[0] == "c" else None
    except (TypeError, ValueError):
        return None


def elements(t):
    """Containers whose elements the term runs over."""
    out = set()
    if isinstance(t, tuple):
        if t[:1] == ("elem",):
            out.add(t[1])
        for x in t:
            out |= elements(x)
    return out


def varies(parts, X):
    return inside(("elem", X), parts) or any(isinstance(p, tuple) and p[0] == "num" and p[1][:1] == ("each",) for p in parts)


def shape(t):
    if isinstance(t, tuple) and t[:1] == ("elem",):
        return ("item", shape(t[1]))
    if isinstance(t, tuple) and t[:2] == ("call", "operator[]"):
        return ("item", shape(t[2][0]))
    return tuple(shape(x) for x in t) if isinstance(t, tuple) else "n" if isinstance(t, (int, float)) else t


class Walk:
    def __init__(self, f):
        self.f = f
        self.v = {}
        self.table, self.events, self.lost = {}, [], []
        self.exact = []
        self.addr_of = {}
        for n, a in enumerate(f.args):
            self.v[a["id"]] = ("arg", n if n == 0 else "%s:%d" % (base_callee(f.dem), n))
        self.seen_files = {}
        self.used, self.escaped = set(), set()
        envs = {}
        num = {b: n for n, b in enumerate(f.rpo)}
        for b in f.rpo:
            ps = [envs[p] for p in f.pred[b] if p in envs and num[p] < num[b] and not f.can_throw_only(b)]
            if not ps:
                ps = [envs[p] for p in f.pred[b] if p in envs]
            env = dict(ps[0]) if ps else {}
            for e in ps[1:]:
                env = {k: y for k, y in ((k, both(x, e.get(k))) for k, x in env.items()) if y is not None}
            if not f.can_throw_only(b):
                for i in f.blocks[b]:
                    self.one(i, env, b)
            envs[b] = env
        for t, i in self.seen_files.items():
            if t not in self.used and t in self.escaped:
                self.lost.append((t, i))

    # conditions under which a block is executed, loops aside
    def conditions(self, b):
        f, out, todo, seen = self.f, set(), [b], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for p in range(len(f.blocks)):
                if p in f.header and any(s not in f.loops[f.header[p]].b for s in f.succ[p]):
                    if len(f.succ[p]) > 1 and any(f.postdominates(x, s) for s in f.succ[p]) and not f.postdominates(x, p) and x != p:
                        todo.append(p)
                    continue
                ss = [s for s in f.succ[p] if not f.can_throw_only(s)]
                if len(ss) < 2 or f.can_throw_only(p):
                    continue
                hit = [s for s in ss if f.postdominates(x, s)]
                if hit and len(hit) < len(ss) and not (f.postdominates(x, p) and x != p):
                    t = f.blocks[p][-1]
                    c = self.term(t.a[0], {}) if t.a else None
                    out.add((c, f.succ[p].index(hit[0])))
                    todo.append(p)
        return out

    def given(self):
        """Conditions without which the run has ended."""
        f, out = self.f, set()
        for p in range(len(f.blocks)):
            ss = [n for n, s in enumerate(f.succ[p]) if not f.can_throw_only(s)]
            t = f.blocks[p][-1]
            if len(f.succ[p]) == 2 and len(ss) == 1 and t.a and not f.can_throw_only(p):
                out.add((self.term(t.a[0], {}), ss[0]))
        return out

    def term(self, o, env):
        if isinstance(o, int):
            return self.v.get(o, ("cell", o))
        if o.get("k") == "g":
            return ("lit", o["s"] if "s" in o else "") if not o.get("off") and ("s" in o or str(o.get("v", "")).startswith(".str")) else ("g", o.get("v"), o.get("off"))
        if o.get("k") == "F":
            return ("g", o.get("v"), 0)
        return ("c", o.get("v"))

    def content(self, t, env):
        return env[t] if t in env else ("at", t)

    def text(self, t, env):
        """Parts of the text at an address or behind a C string."""
        if t[0] == "lit":
            return (t[1],) if t[1] else ()
        if t[0] == "text":
            return t[1]
        if t in env and isinstance(env[t], tuple) and env[t][:1] == ("parts",):
            return env[t][1]
        if t[0] == "c":
            return (chr(t[1]),) if isinstance(t[1], int) and 0 < t[1] < 128 else (("num", t),)
        return (("str", t),)

    def gep(self, b, off, sc):
        if b[0] == "p":
            return ("p", b[1], b[2] + off, b[3] + sc)
        return ("p", b, off, sc) if off or sc else b

    def val(self, t, env):
        """Argument as seen by an opaque call: local objects by content."""
        return ("val", env[t]) if t in env and (t[0] == "cell" or (t[0] == "p" and t[1][0] == "cell")) else t

    def one(self, i, env, b):
        op = i.op
        if op == "phi":
            if b in self.f.header:
                L = self.f.loops[self.f.header[b]]
                s = set(self.term(o, env) for o, fr in zip(i.a, i.x["from"]) if fr not in L.b)
            else:
                s = set(self.term(o, env) for o, fr in zip(i.a, i.x["from"]))
            t = sorted(s, key=str)
            self.v[i.id] = ("each",) + tuple(t) if b in self.f.header else t[0] if len(t) == 1 else ("phi",) + tuple(t)
            return
        if op == "alloca":
            self.v[i.id] = ("cell", i.id)
            return
        A = [self.term(o, env) for o in i.a]
        if op == "getelementptr":
            sc = tuple((self.term(x[0], env), x[1]) if isinstance(x, (list, tuple)) else x for x in (i.x.get("sc") or []))
            rest = tuple(A[1:])
            off = i.x.get("off")
            self.v[i.id] = self.gep(A[0], off if isinstance(off, int) else 0, (rest + (str(i.x.get("sc")) if not rest and sc else "",)) if sc or rest else ())
        elif op in ("bitcast", "sext", "zext", "freeze"):
            self.v[i.id] = A[0]
        elif op == "load":
            self.v[i.id] = self.content(A[0], env)
        elif op == "store":
            self.store(i, A[0], A[1], env)
        elif op in ("call", "invoke"):
            self.v[i.id] = self.call(i, A, env)
        elif i.ty != "v":
            self.v[i.id] = (op, i.x.get("p")) + tuple(A)

    def store(self, i, v, a, env):
        env[a] = v
        if v[0] == "num" and v[1] is not None and not local(a):
            self.events.append(dict(kind="r", ins=i, file=v[1], line=v[2], what=("at", a), full=True))
            self.used.add(("line", v[1]))
        if v[0] == "at" and v[1][0] == "p" and v[1][1][0] == "view" and v[1][1][1][0] == "fromfile" and a[0] == "p" and a[1][0] == "view" and a[2:] == v[1][2:]:
            self.got(i, v[1][1][1], a[1][1], True)

    def got(self, i, src, dst, full):
        self.used.add(src)
        self.events.append(dict(kind="r", ins=i, file=src[1], line=None, what=dst, full=full))

    def assign(self, t, parts, env):
        parts = join(parts)
        if t[0] == "map":
            self.table.setdefault(t, set()).add(parts)
        else:
            env[t] = ("parts", parts)

    def call(self, i, A, env):
        c = i.callee or ""
        bc = base_callee(c) or ""
        m = bc.split("::")[-1]
        if not c:
            fp = i.x.get("fp")
            c = bc = fp["v"] if isinstance(fp, dict) else "virtual %s" % i.x.get("vs")
            m = bc
        if "~" in c.split("(")[0] or "llvm." in c[:5] or bc.startswith("std::allocator") or "__new_allocator" in bc:
            return ("void",)
        if bc == "std::setprecision":
            return A[0]
        if c == "pdx.view":
            return ("view", A[0])
        if c.startswith(STR + "::"):
            k = c[len(STR) + 2:]
            if k.startswith("basic_string"):
                arg = k[k.index("("):]
                if arg.startswith("()"):
                    self.assign(A[0], (), env)
                elif arg.startswith(("(char const*)", "(char const*, std::alloc", "(" + STR, "(std::__cxx11::basic_string")) or "(char const*" == arg[:12] and len(A) <= 3 and "unsigned" not in arg:
                    self.assign(A[0], self.text(A[1], env), env)
                else:
                    env[A[0]] = ("made", i.id)
                return A[0]
            if k.startswith(("operator=", "assign(")) and len(A) == 2:
                self.assign(A[0], self.text(A[1], env), env)
                return A[0]
            if k.startswith(("operator+=", "append(")) and len(A) == 2:
                self.assign(A[0], self.text(A[0], env) + self.text(A[1], env), env)
                return A[0]
            if k.startswith(("c_str(", "data(")):
                return ("text", self.text(A[0], env))
            return self.opaque(i, m, A, env, c)
        if i.x.get("sret") and "std::operator+<char" in c:
            self.assign(A[0], self.text(A[1], env) + self.text(A[2], env), env)
            return ("void",)
        if i.x.get("sret") and bc.startswith("std::__cxx11::to_string"):
            self.assign(A[0], (("num", A[1], "(double)" in c or "(float)" in c),), env)
            return ("void",)
        if re.match(r"std::(unordered_)?map<" + re.escape(STR) + ", " + re.escape(STR), c) and m in ("operator[]", "at"):
            return ("map", A[0], join(self.text(A[1], env)))
        if c.startswith("Teuchos::RCP<") or c.startswith("std::shared_ptr<"):
            if m in ("operator->", "operator*", "get", "getRawPtr", "ptr"):
                return ("obj", self.content(A[0], env))
            if (re.match(r"(RCP|shared_ptr)", m) and len(A) == 2 and A[1][0] != "c") or m == "operator=":
                env[A[0]] = self.content(A[1], env)
                return A[0]
        if re.search(r"(Multi)?VectorToMatrixMarketFile\(", c):
            self.events.append(dict(kind="w", ins=i, file=self.text(A[0], env), line=None, what=A[1]))
            return ("status",)
        if re.search(r"MatrixMarketFileTo(Multi)?Vector\(", c):
            t = ("fromfile", self.text(A[0], env))
            env[A[2]] = t
            self.seen_files.setdefault(t, i)
            return ("status",)
        if m == "COPY" and len(A) >= 4:
            s, d = A[2], A[3]
            if s[:1] == ("view",) and s[1][:1] == ("fromfile",) and d[:1] == ("view",):
                n = A[1]
                full = None
                if n[0] == "call" and n[1] in ("MyLength", "GlobalLength", "NumMyElements", "NumMyPoints"):
                    of = n[2][0]
                    full = of in (d[1], s[1])
                self.got(i, s[1], d[1], full)
                return ("void",)
        src = [a for a in A if a[:1] == ("fromfile",)]
        if src:
            if c.endswith("%s(Epetra_MultiVector&, Epetra_MultiVector&)" % COPY) or m == COPY:
                self.got(i, A[-2], A[-1], True)
                return ("void",)
            if m == "operator=" and len(A) == 2 and A[1] == src[0]:
                self.got(i, A[1], A[0], True)
                return A[0]
            if m == "Update" and len(A) == 4 and A[2] == src[0] and number(A[1]) == 1 and number(A[3]) == 0:
                self.got(i, A[2], A[0], True)
                return ("status",)
        # streams
        if ("stream" in c or m == "precision") and A:
            r = self.stream(i, c, m, A, env)
            if r is not None:
                return r
        if m in ("atof", "strtod", "stod") or bc in ("std::__cxx11::stod",):
            p = self.text(A[0], env)
            if len(p) == 1 and isinstance(p[0], tuple) and p[0][0] == "line":
                return ("num", p[0][1], p[0][2])
        return self.opaque(i, m, A, env, c)

    def stream(self, i, c, m, A, env):
        if m == "str" and i.x.get("sret") and len(A) == 2:
            s = A[1][1] if A[1][0] == "p" else A[1]
            self.assign(A[0], env[("acc", s)][1] if ("acc", s) in env else (("cell", i.id),), env)
            return ("void",)
        s = A[0]
        if s[0] == "p" and s[1][0] == "cell":
            s = s[1]
        if re.match(r"std::basic_[io]?fstream<.*::basic_[io]?fstream\(|std::basic_[io]?fstream<.*::open\(", c):
            if len(A) > 1:
                env[("stream", s)] = ("parts", self.text(A[1], env))
            env[("pos", s)] = 0
            return ("void",)
        if "getline<" in c and len(A) >= 2:
            p = env.get(("stream", s))
            n = env.get(("pos", s), 0)
            if p is None:
                return None
            env[A[1]] = ("parts", (("line", p[1], n),))
            env[("pos", s)] = n + 1
            return s
        if m == "precision" or "_Setprecision" in c:
            n = [a[1] for a in A[1:] if a[0] == "c" and isinstance(a[1], int)]
            if n and n[0] >= DIGITS:
                self.exact.append(i.blk)
            return s
        if "operator<<" in c:
            p = env.get(("stream", s))
            n = env.get(("pos", s), 0)
            arg = c[c.rindex("operator<<"):]
            if p is None:
                if s[0] != "cell" or len(A) < 2:
                    return None
                x = (("num", A[1], False),) if re.match(r"operator<<\((int|unsigned|long|short)", arg) else self.text(A[1], env)
                env[("acc", s)] = ("parts", join(env.get(("acc", s), EMPTY)[1] + x))
                return s
            if arg.startswith("operator<<(double") or arg.startswith("operator<<(float"):
                v = A[1]
                at = v if v[0] == "at" else None
                for k, x in sorted(env.items(), key=str):
                    if x == v and not local(k) and k[0] == "p":
                        at = ("at", k)
                self.events.append(dict(kind="w", ins=i, file=p[1], line=n, what=at or v,
                                        exact=any(self.f.dominates(b, i.blk) for b in self.exact)))
            elif "ostream& (*)" in arg:
                if "endl" in str(A[1]):
                    env[("pos", s)] = n + 1
            else:
                t = self.text(A[1], env)
                env[("pos", s)] = n + sum(x.count("\n") for x in t if isinstance(x, str))
                for x in t:
                    if isinstance(x, tuple) and x[0] == "num" and len(x) > 2 and x[2]:
                        v = x[1]
                        at = [("at", k) for k, y in sorted(env.items(), key=str) if y == v and not local(k) and k[0] == "p"]
                        self.events.append(dict(kind="w", ins=i, file=p[1], line=n, what=at[0] if at else v, exact=False))
            return s
        if "operator>>(double&" in c:
            p = env.get(("stream", s))
            if p is not None:
                self.store(i, ("num", p[1], env.get(("pos", s), 0)), A[1], env)
            return s
        return None

    def opaque(self, i, m, A, env, c):
        vals = tuple(self.val(a, env) for a in A)
        if not (c.endswith("const") or "operator delete" in c):
            for t in self.seen_files:
                if any(inside(t, x) for x in vals):
                    self.escaped.add(t)
        if i.x.get("sret") and A:
            env[A[0]] = ("call", m, vals[1:])
            return ("void",)
        if m in ("operator->", "operator*") and vals and vals[0][:1] == ("val",) and vals[0][1][:2] in (("call", "begin"), ("call", "cbegin")):
            return ("elem", vals[0][1][2][0])
        if m in ("operator[]", "at") and len(vals) == 2 and vals[1] == ("each", ("c", 0)) and "vector<" in c:
            return ("elem", vals[0])
        if not c.endswith("const") and not re.search(r"operator(!=|==|<|-)<", c):
            for n, a in enumerate(A):
                if a in env and a[0] == "cell":
                    env[a] = ("out", m, vals, n)
        return ("call", m, vals)
