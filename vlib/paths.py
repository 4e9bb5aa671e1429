"""Typestate exploration over all paths of a function, with status values kept apart.

Values are tracked only where they come from tracked calls (a small set of possible
results each), constants and comparisons, copies and merges of those; everything else
is unknown and both ways of a branch on it are followed.  Calls into functions that
`descend` returns are followed with the state."""


class Limit(Exception):
    pass


def live_in(f):
    if hasattr(f, "_live"):
        return f._live
    n = len(f.blocks)
    use, dfn = [set() for _ in range(n)], [set() for _ in range(n)]
    phi_use = {}
    for b, L in enumerate(f.blocks):
        for i in L:
            if i.op == "phi":
                for o, fr in zip(i.a, i.x["from"]):
                    if isinstance(o, int):
                        phi_use.setdefault(fr, set()).add(o)
            else:
                use[b] |= set(o for o in i.a if isinstance(o, int) and o not in dfn[b])
            dfn[b].add(i.id)
    live = [set() for _ in range(n)]
    change = True
    while change:
        change = False
        for b in reversed(f.rpo):
            out = set(phi_use.get(b, ()))
            for x in f.succ[b]:
                out |= live[x]
            new = use[b] | (out - dfn[b])
            if new != live[b]:
                live[b] = new
                change = True
    f._live = live
    return live


CMP = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "slt": lambda a, b: a < b, "sgt": lambda a, b: a > b,
       "sle": lambda a, b: a <= b, "sge": lambda a, b: a >= b, "ult": lambda a, b: (a & 0xffffffff) < (b & 0xffffffff), "ugt": lambda a, b: (a & 0xffffffff) > (b & 0xffffffff)}


class Explorer:
    """step(f, ins, state) -> None (not tracked) or list of (state, result or None);
    descend(f, ins) -> function to follow or None.  The operands known at a tracked call
    are in `known` while step runs."""
    def __init__(self, step, descend=None, limit=200000, count=0):
        self.step, self.descend, self.limit = step, descend or (lambda f, i: None), limit
        self.count = count                      # counters are followed up to this value
        self.memo = {}
        self.visited = set()
        self.n = 0

    def run(self, f, state, env=frozenset(), depth=0):
        key = (f.dem, state, env)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = set()
        self.visited.add(f.dem)
        live = live_in(f)
        out = set()
        todo = [(0, None, env, state)]
        seen = set()
        while todo:
            b, frm, env0, st = todo.pop()
            self.n += 1
            if self.n > self.limit:
                raise Limit(f.dem)
            L = f.blocks[b]
            e = dict(env0)
            new = {}
            for i in L:
                if i.op != "phi":
                    break
                if frm is not None:
                    for o, fr in zip(i.a, i.x["from"]):
                        if fr == frm:
                            v = self.val(e, o)
                            if v is not None:
                                new[i.id] = v
                            else:
                                new[i.id] = None
            for k, v in new.items():
                if v is None:
                    e.pop(k, None)
                else:
                    e[k] = v
            work = [(0, e, st)]
            while work:
                p, e, st = work.pop()
                ended = False
                while p < len(L):
                    i = L[p]
                    p += 1
                    if i.op == "phi":
                        continue
                    if i.op in ("call", "invoke"):
                        self.known = e
                        r = self.step(f, i, st)
                        if r is None:
                            g = self.descend(f, i) if depth < 8 else None
                            if g is not None:
                                r = list(self.run(g, st, self.args(e, f, i, g), depth + 1))
                        if r is not None:
                            for st2, v in r:
                                e2 = dict(e)
                                if v is None:
                                    e2.pop(i.id, None)
                                else:
                                    e2[i.id] = v
                                work.append((p, e2, st2))
                            ended = True
                            break
                        if i.x.get("nr"):
                            ended = True
                            break
                        e.pop(i.id, None)
                        self.minmax(f, e, i)
                        continue
                    if i.op == "ret":
                        out.add((st, self.val(e, i.a[0]) if i.a else None))
                        continue
                    v = self.eval(f, e, i)
                    if i.op == "store":
                        continue
                    if v is None:
                        e.pop(i.id, None)
                    else:
                        e[i.id] = v
                if ended:
                    continue
                for x in self.next(f, b, L[-1], e):
                    keep = frozenset((k, v) for k, v in e.items() if (self.cell_live(f, live[x], k) if isinstance(k, tuple) else k in live[x] or self.phi_needs(f, x, b, k)))
                    s = (x, b if self.has_phi(f, x) else None, keep, st)
                    if s not in seen:
                        seen.add(s)
                        todo.append(s)
        self.memo[key] = out
        return out

    def cell_live(self, f, live, k):
        """A memory cell matters while something that leads to its address is used, and only if it is read or handed on."""
        if not hasattr(f, "_cells"):
            f._cells, f._based = set(), {}
            for i in f.instrs():
                for o in i.a if i.op in ("call", "invoke") else i.a[:1] if i.op == "load" else ():
                    q = self.place(f, o)
                    if q is not None:
                        f._cells.add(q)
                if i.op in ("getelementptr", "bitcast"):
                    q = self.place(f, i.id)
                    if q is not None:
                        f._based.setdefault(q[1], set()).add(i.id)
        return k in f._cells and (k[1] in live or any(d in live for d in f._based.get(k[1], ())))

    def has_phi(self, f, b):
        return f.blocks[b][0].op == "phi"

    def phi_needs(self, f, x, b, k):
        for i in f.blocks[x]:
            if i.op != "phi":
                return False
            for o, fr in zip(i.a, i.x["from"]):
                if fr == b and o == k:
                    return True
        return False

    def val(self, e, o):
        if isinstance(o, int):
            return e.get(o)
        if o["k"] == "i":
            return o["v"]
        return None

    def knows(self, f, ins):
        """A value being followed is handed to the call, directly or by reference."""
        return any(self.val(self.known, o) is not None or self.place(f, o) in self.known for o in ins.a if isinstance(o, int))

    def minmax(self, f, e, i):
        c = i.callee or ""
        if c.startswith(("int const& std::min<int>(", "int const& std::max<int>(")):
            v = [e.get(self.place(f, o)) for o in i.a[:2]]
            e.pop(("m", i.id, 0), None)
            if None not in v:
                e[("m", i.id, 0)] = min(v) if "min<" in c else max(v)

    def place(self, f, o):
        """Memory cell an address operand denotes: base value and constant offset."""
        off = 0
        while isinstance(o, int):
            d = f.defs.get(o)
            if d is None or d.op not in ("getelementptr", "bitcast"):
                return ("m", o, off)
            if d.op == "getelementptr":
                if d.x.get("sc") or not isinstance(d.x.get("off"), int):
                    return None
                off += d.x["off"]
            o = d.a[0]
        return None

    def args(self, e, f, i, g):
        out = set()
        for o, a in zip(i.a, g.args):
            v = self.val(e, o)
            if v is not None:
                out.add((a["id"], v))
            q = self.place(f, o)
            if q in e:
                out.add((("m", a["id"], 0), e[q]))
        return frozenset(out)

    def eval(self, f, e, i):
        op = i.op
        if op == "store":
            v, p = self.val(e, i.a[0]), i.a[1]
            q = self.place(f, p)
            if q is not None:
                if v is None or i.x.get("vt") not in ("i1", "i8", "i32", "i64"):
                    e.pop(q, None)
                else:
                    e[q] = v
            return None
        if op == "load":
            q = self.place(f, i.a[0])
            return e.get(q) if q is not None and i.ty in ("i1", "i8", "i32", "i64") else None
        if op == "icmp":
            a, b = (self.val(e, o) for o in i.a)
            c = CMP.get(i.x["p"])
            return int(c(a, b)) if c and a is not None and b is not None else None
        if op in ("zext", "sext", "trunc", "freeze"):
            v = self.val(e, i.a[0])
            return v if v is None or op != "trunc" or i.ty != "i1" else v & 1
        if op in ("and", "or", "xor"):
            a, b = (self.val(e, o) for o in i.a)
            if op == "and" and (a == 0 or b == 0):
                return 0
            if op == "or" and i.ty == "i1" and (a in (1, -1) or b in (1, -1)):
                return 1
            if a is None or b is None:
                return None
            r = a & b if op == "and" else a | b if op == "or" else a ^ b
            return r & 1 if i.ty == "i1" else r
        if op in ("add", "sub") and self.count:
            a, b = (self.val(e, o) for o in i.a)
            if a is None or b is None:
                return None
            r = a + b if op == "add" else a - b
            return r if abs(r) <= self.count else None
        if op == "select":
            c = self.val(e, i.a[0])
            if c is None:
                a, b = self.val(e, i.a[1]), self.val(e, i.a[2])
                return a if a == b else None
            return self.val(e, i.a[1] if c else i.a[2])
        return None

    def next(self, f, b, t, e):
        ss = f.succ[b]
        if t.op == "br" and len(ss) == 2 and t.a:
            c = self.val(e, t.a[0])
            if c is not None:
                return [ss[0] if c & 1 else ss[1]]
        elif t.op == "switch":
            c = self.val(e, t.a[0])
            if c is not None:
                for v, x in t.x["cases"]:
                    if v == c:
                        return [x]
                return [t.x["def"]]
        return list(dict.fromkeys(ss))
