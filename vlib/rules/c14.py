"""C14: global minimum, maximum and sum quantities combine the right local values."""
from ..poly import Poly
from ..guards import conditions, compatible, equalities
from ..universe import COMPUTE, evals, short as cls
from ..whole import whole

OPS = {"Epetra_Comm::SumAll": "sum", "Epetra_Comm::MinAll": "min", "Epetra_Comm::MaxAll": "max"}
HUGE = 1e30

OF_BLOCK = ("PeridigmNS::BlockBase::", "PeridigmNS::Block::")
LENGTHS = ("::MyLength", "::NumMyElements", "::NumMyPoints", "::size")


def short(f):
    return f.dem.split("(")[0].replace("PeridigmNS::", "")


def run(ctx):
    ctx.rule = ("For every reduction over the processes, the stores and merges that form its local contribution are classified (sum, minimum, "
                "maximum, plain) under the conditions of the reduction; they must agree with the reduction, start from its neutral value, and "
                "the reduced result must be what is read afterwards, in full. Values stored to global quantities derive from a reduction.")
    W = whole()
    for f in W.funcs:
        if f.internal:
            continue
        if not any(not i.callee and i.x.get("vc") for i in f.instrs() if i.op in ("call", "invoke")):
            continue
        calls = [i for i in f.instrs() if i.op in ("call", "invoke") and not i.callee and W.virtual(i) in OPS]
        if calls:
            R = Reductions(ctx, f)
            for i in calls:
                R.one(i, OPS[W.virtual(i)])
    globals_reduced(ctx)
    copies(ctx)
    ctx.need("reductions", 20)
    ctx.need("local contributions", 15)
    ctx.need("global quantities stored", 4)


def num(p):
    try:
        return float(p.const_value())
    except OverflowError:
        return float("inf") if p.const_value() > 0 else float("-inf")


class Reductions:
    def __init__(self, ctx, f):
        self.ctx, self.f, self.s = ctx, f, whole().sem(f)
        self.at = {ins.id: (ins, A) for ins, bc, A, m in self.s.calls}
        self.this = self.s.A.tab.get(("arg", f.args[0]["id"])) if f.args else None
        self.written = set()
        for st, addr, val, ver in self.s.stores:
            b, off = self.s.base_of(addr)
            if b == self.this and off.const_value() is not None:
                self.written.add(int(off.const_value()))
        self.eqs = {}
        self.loops = set()

    def stable(self, p):
        """Key of a member that this function does not change, or of a value fixed in it."""
        s = self.s
        if len(p.t) != 1:
            return None
        a = next(iter(p.atoms()), None)
        if a is None:
            return None
        k = s.A.keys[a]
        if k[0] == "load":
            b, off = s.base_of(k[1])
            if b == self.this and b is not None and off.const_value() is not None and int(off.const_value()) not in self.written:
                return ("m", int(off.const_value()))
            return None
        return ("a", a) if k[0] in ("arg",) else None

    def eq(self, b):
        if b not in self.eqs:
            self.eqs[b] = equalities(self.s, self.f, b, self.stable)
        return self.eqs[b]

    def slot(self, p):
        b, off = self.s.base_of(p)
        return b, (off.const_value() if off is not None else None)

    def one(self, ins, op):
        ctx, f, s = self.ctx, self.f, self.s
        ctx.count("reductions")
        if ins.id not in self.at:
            ctx.undecided("%s: reduction not analysed" % ins.where())
            return
        A = self.at[ins.id][1]
        n = A[3].const_value()
        b, off = self.slot(A[1])
        gb, goff = self.slot(A[2])
        if b is None or n is None or off is None:
            ctx.undecided("%s: local contribution of the reduction not resolved" % ins.where())
            return
        here = self.eq(ins.blk)
        cell = (b, off, off + 8 * n)
        ups = self.memory_updates(cell, ins, here)
        self.judge(ins, op, ups)
        self.entries(ins, b, off, n)
        self.entries(ins, gb, goff, n)
        self.points(ins, ups)
        self.shared(ins, op, ups)
        self.result(ins, gb, goff, n, here)
        self.stale(ins, b, off, n)

    # -- the local contribution ------------------------------------------------
    def memory_updates(self, cell, red, here, seen=()):
        """[(kind, instruction, value)] of stores to the cell that can precede the reduction."""
        s, f = self.s, self.f
        b, lo, hi = cell
        out = []
        if cell in seen:
            return out
        seen = seen + (cell,)
        cand = []
        for st, addr, val, ver in s.stores:
            sb, so = self.slot(addr)
            if sb != b or (so is not None and not lo <= so < hi):
                continue
            if not compatible(self.eq(st.blk), here) or not self.reaches(st, red):
                continue
            cand.append((st, addr, val, so))
        # a later unconditional plain store hides earlier ones
        kill = [c for c in cand if c[3] is not None and self.covers(c[0], red) and not self.self_use(c)]
        if kill:
            last = [c for c in kill if not any(d is not c and d[3] == c[3] and self.between(c[0], d[0], red) for d in kill)]
            cand = [c for c in cand if not any(k is not c and k[3] == c[3] and self.between(c[0], k[0], red) for k in last)]
        for st, addr, val, so in cand:
            out += self.classify(st, st.a[0], addr, val, red, here, seen)
        if not any(k == "init" for k, _, _ in out) and s.A.keys[b][0] == "vdata":
            fills = self.fills(b, red)
            if fills:
                return out + fills
            out.append(("init", red, 0.0))      # library containers start from zero
        return out

    def fills(self, b, red):
        """Whole-container initialisations before the reduction."""
        s, out = self.s, []
        for c, A in self.at.values():
            n = c.callee or ""
            if not A or not self.reaches(c, red) or not ("std::fill" in n or "std::vector<" in n and ("::assign(" in n or "::vector(unsigned" in n or "::resize(" in n)):
                continue
            if A[0] != s.A.keys[b][1] and s.base_of(A[0])[0] != b:
                continue
            vals = []
            for a in A[1:]:
                x = s.base_of(a)[0] if a.t else None
                if x is not None and s.A.keys[x][0] == "alloca":
                    vals += [v for st, addr, v, ver in s.stores if addr == a]
                    if len(vals) > 1:
                        return [("plain", c, None)]
            if "::resize(" in n or "::vector(" in n and not any("const&" in p and "double" in p or "int const&" in p for p in n.split("(", 1)[1].split(", ")[:2]):
                continue
            if len(vals) == 1 and vals[0].const_value() is not None:
                out.append(("init", c, num(vals[0])))
            else:
                out.append(("plain", c, None))
        return out

    def self_use(self, c):
        return any(self.is_cell_load(a, c[1]) for a in c[2].atoms()) or derives(self.s, self.f, c[0].a[0], lambda b, p: p == c[1], through=False)

    def is_cell_load(self, a, addr):
        k = self.s.A.keys[a]
        return k[0] == "load" and k[1] == addr

    def into(self, b, ins):
        """Blocks of other reductions into the same buffer."""
        return set(c.blk for c, A in self.at.values() if c is not ins and not c.callee and whole().virtual(c) in OPS and self.slot(A[2])[0] == b)

    def reaches(self, i, j, avoid=()):
        f = self.f
        if i.blk == j.blk and i.pos < j.pos:
            return True
        seen, todo = set(), list(f.succ[i.blk])
        while todo:
            x = todo.pop()
            if x == j.blk:
                return True
            if x not in seen and x not in avoid:
                seen.add(x)
                todo += f.succ[x]
        return False

    def covers(self, st, red):
        return st.blk == red.blk and st.pos < red.pos or st.blk != red.blk and self.f.dominates(st.blk, red.blk)

    def between(self, a, k, red):
        """Every way from a to the reduction passes k."""
        f = self.f
        if not self.covers(k, red):
            return False
        if a.blk == k.blk:
            return a.pos < k.pos
        if a.blk == red.blk and a.pos < red.pos:
            return False
        seen, todo = set(), list(f.succ[a.blk])
        while todo:
            x = todo.pop()
            if x == k.blk:
                continue
            if x == red.blk:
                return False
            if x not in seen:
                seen.add(x)
                todo += f.succ[x]
        return True

    def classify(self, st, operand, addr, val, red, here, seen):
        s, f = self.s, self.f
        if val.const_value() is not None:
            return [("init", st, num(val))]
        acc = [a for a in val.atoms() if self.is_cell_load(a, addr)]
        if acc:
            rest = val - Poly.atom(acc[0])
            if not any(self.is_cell_load(a, addr) for a in rest.atoms()):
                return [("sum", st, None)]
            return [("plain", st, None)]         # a transformation of the value itself
        k = self.minmax(st.blk, operand, val, lambda p: any(self.is_cell_load(a, addr) for a in p.atoms()) and len(p.t) == 1)
        if k:
            return [(k, st, operand)]
        # the value of another variable
        if isinstance(operand, int):
            d = f.defs.get(operand)
            while d is not None and (d.op == "call" and len(d.a) == 1 and "sqrt" in (d.callee or "") or
                                     d.op in ("fmul", "fdiv") and not isinstance(d.a[1], int)) and isinstance(d.a[0], int):
                operand, d = d.a[0], f.defs.get(d.a[0])     # a growing function of the variable
            if d is not None and d.op in ("phi", "select"):
                return self.web(operand, here, red, seen)
            if d is not None and d.op == "load":
                b2, o2 = self.slot(s.opv(d.a[0]))
                if b2 is not None and o2 is not None and (s.A.keys[b2][0] in ("alloca", "global") or b2 == self.this):
                    return self.memory_updates((b2, o2, o2 + 8), d, here, seen) or [("plain", st, None)]
            if d is not None and d.op == "call" and (d.callee or "").split("(")[0].rstrip().endswith(("fmin", "fmax", "llvm.minnum.f64", "llvm.maxnum.f64")):
                return [("min" if "min" in d.callee else "max", st, operand)]
        return [("plain", st, None)]

    def minmax(self, blk, operand, val, is_acc):
        """min or max if the value is taken under a comparison with the accumulator."""
        s, f = self.s, self.f
        for i, t in conditions(f, blk):
            if i.op not in ("fcmp", "icmp"):
                continue
            a, c = s.opv(i.a[0]), s.opv(i.a[1])
            p = i.x["p"].lstrip("ous") if i.op == "fcmp" else i.x["p"].lstrip("us")
            if i.x["p"] in ("oeq", "une", "one", "ueq", "eq", "ne"):
                continue
            less = p in ("lt", "le")
            if not t:
                less = not less
            if a == val and is_acc(c):
                return "min" if less else "max"
            if c == val and is_acc(a):
                return "max" if less else "min"
        return None

    def web(self, root, here, red, seen):
        """Updates of a scalar variable: the phi nodes and selections it flows through."""
        s, f = self.s, self.f
        nodes, todo = set(), [root]
        while todo:
            v = todo.pop()
            d = f.defs.get(v)
            if v in nodes or d is None or d.op not in ("phi", "select"):
                continue
            nodes.add(v)
            todo += [o for o in (d.a if d.op == "phi" else d.a[1:]) if isinstance(o, int)]
            # accumulations lead back into the web
            for o in (d.a if d.op == "phi" else d.a[1:]):
                e = f.defs.get(o) if isinstance(o, int) else None
                if e is not None and e.op in ("fadd", "fsub", "add", "sub"):
                    todo += [x for x in e.a if isinstance(x, int) and f.defs.get(x) is not None and f.defs[x].op in ("phi", "select")]
        polys = [s.opv(n) for n in nodes]

        def is_acc(p):
            return any(p == q for q in polys)
        out = []
        for n in nodes:
            d = f.defs[n]
            ops = list(zip(d.a, d.x["from"])) if d.op == "phi" else [(o, d.blk) for o in d.a[1:]]
            for o, fr in ops:
                if isinstance(o, int) and o in nodes:
                    continue
                if not compatible(self.eq(fr), here):
                    continue
                v = s.opv(o)
                if v.const_value() is not None:
                    out.append(("init", d, num(v)))
                    continue
                e = f.defs.get(o) if isinstance(o, int) else None
                if e is not None and e.op in ("fadd", "fsub", "add", "sub") and any(x in nodes for x in e.a if isinstance(x, int)):
                    out.append(("sum", e, None))
                    continue
                if d.op == "select":
                    c = f.defs.get(d.a[0]) if isinstance(d.a[0], int) else None
                    k = None
                    if c is not None and c.op in ("fcmp", "icmp") and c.x["p"] not in ("oeq", "une", "eq", "ne"):
                        a, b = s.opv(c.a[0]), s.opv(c.a[1])
                        less = c.x["p"].lstrip("ous") in ("lt", "le") if c.op == "fcmp" else c.x["p"].lstrip("us") in ("lt", "le")
                        if o == d.a[2]:
                            less = not less
                        if a == v and is_acc(b):
                            k = "min" if less else "max"
                        elif b == v and is_acc(a):
                            k = "max" if less else "min"
                    out.append((k or "plain", d, o))
                    continue
                k = self.minmax(fr, o, v, is_acc)
                if k is None and self.conditional_edge(fr, d.blk):
                    k = self.edge_minmax(fr, d.blk, v, is_acc)
                out.append((k or "plain", e or d, o))
        return out

    def conditional_edge(self, fr, to):
        return len(self.f.succ[fr]) == 2

    def edge_minmax(self, fr, to, val, is_acc):
        t = self.f.blocks[fr][-1]
        c = self.f.defs.get(t.a[0]) if t.a and isinstance(t.a[0], int) else None
        if c is None or c.op not in ("fcmp", "icmp") or c.x["p"] in ("oeq", "une", "eq", "ne", "one", "ueq"):
            return None
        a, b = self.s.opv(c.a[0]), self.s.opv(c.a[1])
        less = c.x["p"].lstrip("ous") in ("lt", "le") if c.op == "fcmp" else c.x["p"].lstrip("us") in ("lt", "le")
        if self.f.succ[fr][0] != to:
            less = not less
        if a == val and is_acc(b):
            return "min" if less else "max"
        if b == val and is_acc(a):
            return "max" if less else "min"
        return None

    def nonneg(self, o, f=None, depth=0):
        f = f or self.f
        if not isinstance(o, int):
            return o["k"] in ("i", "d") and float(o["v"]) >= 0 or o["k"] == "z"
        d = f.defs.get(o)
        if d is None or depth > 12:
            return False
        if d.op == "fmul":
            return d.a[0] == d.a[1] or self.nonneg(d.a[0], f, depth + 1) and self.nonneg(d.a[1], f, depth + 1)
        if d.op in ("fadd", "fdiv"):
            return all(self.nonneg(x, f, depth + 1) for x in d.a)
        if d.op == "select":
            return all(self.nonneg(x, f, depth + 1) for x in d.a[1:])
        if d.op == "phi":
            return all(x == o or self.nonneg(x, f, depth + 3) for x in d.a)
        if d.op == "call":
            c = (d.callee or "").split("(")[0]
            if any(w in c for w in ("sqrt", "fabs", "pow", "exp", "hypot", "distance", "abs")):
                return True
            g = whole().by_dem.get(d.callee)
            if g is not None and depth < 6:
                rets = [b[-1].a[0] for b in g.blocks if b and b[-1].op == "ret" and b[-1].a]
                return bool(rets) and all(self.nonneg(r, g, depth + 4) for r in rets)
        return False

    # -- verdicts --------------------------------------------------------------
    def judge(self, ins, op, ups):
        ctx, f = self.ctx, self.f
        kinds = set(k for k, _, _ in ups)
        if kinds & {"sum", "min", "max"}:
            ctx.count("local contributions")
        for k, i, v in ups:
            if k in ("sum", "min", "max"):
                ctx.obligation(k == op)
                if k != op:
                    ctx.violation("%s:%s:%s" % (short(f), op, k), "%s (%s)" % (ins.where(), ins.func()),
                                  "a local %s (%s) is combined over the processes with a %s" % (NAME[k], i.where().split("/")[-1], NAME[op]), path=[i.path(), ins.path()])
        for k, i, v in ups:
            if k != "init":
                continue
            ok = v == 0 if op == "sum" else v >= HUGE if op == "min" else v <= -HUGE
            if not ok and op == "min" and v >= 2 ** 31 - 1:
                ok = True
            if not ok and op == "max" and (v == 0 or v == -1) and all(self.nonneg(o) for kk, _, o in ups if kk == "max") and "max" in kinds:
                ok = True
            if not ok and not kinds & {"sum", "min", "max"} and op != "sum" and not self.single_source(ins, ups):
                continue                        # not an accumulation
            ctx.count("starting values")
            ctx.obligation(ok)
            if not ok:
                ctx.violation("%s:%s:start" % (short(f), op), "%s (%s)" % (i.where(), i.func()),
                              "the local %s starts from %g, which is not neutral" % (NAME[op], v), path=[i.path(), ins.path()])
        if kinds & {"sum", "min", "max"} and "init" not in kinds and "plain" not in kinds:
            ctx.obligation(False)
            ctx.violation("%s:%s:nostart" % (short(f), op), "%s (%s)" % (ins.where(), ins.func()), "the local %s has no starting value" % NAME[op], path=[ins.path()])

    def single_source(self, ins, ups):
        """Values that only the process owning a point has: set in a test on its local number."""
        for k, i, v in ups:
            if k == "plain" and any("::LID(" in (d.callee or "") for c, t in conditions(self.f, i.blk) for d in self.feeding(c)):
                return not all(self.nonneg(x.a[0]) for kk, x, _ in ups if kk == "plain" and x.op == "store")
        return False

    def feeding(self, c):
        out, todo = [], list(c.a)
        while todo and len(out) < 20:
            d = self.f.defs.get(todo.pop()) if todo and isinstance(todo[-1], int) else todo.pop() and None
            if d is not None:
                out.append(d)
                if d.op in ("zext", "sext", "trunc", "add", "sub", "icmp"):
                    todo += d.a
        return out

    def entries(self, ins, b, off, n):
        """No more entries are combined than the buffer has."""
        s = self.s
        if b is None or off is None or s.A.keys[b][0] != "vdata":
            return
        size, step = set(), 8
        for c, A in self.at.values():
            if A and A[0] == s.A.keys[b][1] and "std::vector<" in (c.callee or "") and ("::vector(unsigned" in c.callee or "::resize(unsigned" in c.callee):
                size.add(A[1].const_value())
                step = 4 if "std::vector<int," in c.callee else 8
        if len(size) != 1 or None in size:
            return
        self.ctx.count("buffer sizes compared")
        ok = off / step + n <= max(size)
        self.ctx.obligation(ok)
        if not ok:
            self.ctx.violation("%s:entry" % short(self.f), "%s (%s)" % (ins.where(), ins.func()),
                               "more values are combined over the processes than the buffer holds", path=[ins.path()])

    def points(self, ins, ups):
        """Loops over the points of a block take the owned points, each once."""
        ctx, s, f = self.ctx, self.s, self.f
        if not any(c.startswith(OF_BLOCK) for _, c in whole().callees.get(f.dem, ())):
            return
        for k, i, v in ups:
            if k == "init":
                continue
            for l in f.nest(i.blk):
                if l in self.loops:
                    continue
                self.loops.add(l)
                t = s.trip(l)
                calls = [f.defs[s.A.keys[a][1]] for a in t.atoms() if s.A.keys[a][0] == "call" and s.A.keys[a][1] in f.defs]
                names = [c.callee.split("(")[0] for c in calls if c.callee]
                if any(n.endswith("::NumOwnedPoints") for n in names):
                    ok = len(t.t) == 1 and all(c == 1 for c in t.t.values())
                    msg = "not every owned point of the block contributes exactly once"
                elif any(n.endswith(LENGTHS) for n in names):
                    ok, msg = False, "the copies of points owned by other processes contribute as well"
                else:
                    continue
                ctx.count("loops over points")
                ctx.obligation(ok)
                if not ok:
                    w = f.blocks[f.loops[l].h][-1]
                    ctx.violation("%s:points" % short(f), "%s (%s)" % (i.where(), i.func()), msg, path=[w.path(), i.path(), ins.path()])

    def shared(self, ins, op, ups):
        """A value that is already the same on all processes is not summed again."""
        ctx, s, f = self.ctx, self.s, self.f
        if op != "sum":
            return
        bufs = set()
        for j, (c, A) in self.at.items():
            if c is not ins and not c.callee and OPS.get(whole().virtual(c)) == "sum":
                bufs.add(s.base_of(A[2])[0])
        for k, i, v in ups:
            if k == "init" or not bufs:
                continue
            o = i.a[0] if i.op == "store" else i.id
            bad = derives(s, f, o, lambda b, p: b in bufs)
            ctx.obligation(not bad)
            if bad:
                ctx.violation("%s:twice" % short(f), "%s (%s)" % (ins.where(), ins.func()), "a value already summed over the processes is summed again (%s)" % i.where().split("/")[-1], path=[i.path(), ins.path()])

    def stale(self, ins, b, off, n):
        """The contribution of one process is not used as if it were the combined value."""
        ctx, s, f = self.ctx, self.s, self.f
        for ld, addr, val in s.loads:
            lb, lo = self.slot(addr)
            if lb != b or lo is None or not off <= lo < off + 8 * n or not self.covers(ins, ld):
                continue
            if any(self.slot(x)[0] == b and self.covers(ins, st) and self.reaches(st, ld) for st, x, _, _ in s.stores):
                continue
            uses = [u for u in f.instrs() if ld.id in u.a]
            bad = [u for u in uses if u.op in ("store", "phi", "select", "fadd", "fsub", "fmul", "fdiv", "ret")]
            ctx.count("later uses of local contributions")
            ctx.obligation(not bad)
            if bad:
                ctx.violation("%s:stale" % short(f), "%s (%s)" % (ld.where(), ld.func()), "the contribution of one process is used after it was combined over the processes", path=[ins.path(), ld.path()])

    def result(self, ins, gb, goff, n, here):
        """The combined value is read, and only the combined components are."""
        ctx, s, f = self.ctx, self.s, self.f
        if gb is None or goff is None or s.A.keys[gb][0] not in ("alloca", "vdata"):
            return
        lo, hi = goff, goff + 8 * n
        used, beyond = False, None
        for ld, addr, val in s.loads:
            b, o = self.slot(addr)
            if b != gb or not self.reaches(ins, ld) or not compatible(self.eq(ld.blk), here):
                continue
            if o is None or lo <= o < hi:
                used = True
            elif self.reaches(ins, ld, self.into(gb, ins)) and not any(s.base_of(x)[0] == gb and self.slot(x)[1] in (o, None) for _, x, _, _ in s.stores):
                beyond = ld
        for i2, (c, A) in self.at.items():
            if c is not ins and any(self.slot(a)[0] == gb for a in A if a.t) and self.reaches(ins, c):
                used = True
        ctx.count("combined results")
        ctx.obligation(used and not beyond)
        if not used:
            ctx.violation("%s:unused" % short(f), "%s (%s)" % (ins.where(), ins.func()), "the value combined over the processes is not used", path=[ins.path()])
        elif beyond is not None:
            ctx.violation("%s:partial" % short(f), "%s (%s)" % (beyond.where(), beyond.func()), "a component is read that the reduction does not combine", path=[ins.path(), beyond.path()])




NAME = {"sum": "sum", "min": "minimum", "max": "maximum"}


def copies(ctx):
    """Quantities reduced over the processes count no copies of other processes' points."""
    W = whole()
    owners = set()
    for f in W.funcs:
        if any(i.op in ("call", "invoke") and not i.callee and W.virtual(i) in OPS for i in f.instrs()):
            owners.add(f.dem.split("(")[0].rsplit("::", 1)[0])
    for f in W.funcs:
        c = f.dem.split("(")[0].rsplit("::", 1)[0]
        if c not in owners or "::Compute" not in c:
            continue
        for i, g in W.callees.get(f.dem, ()):
            if not g.startswith(OF_BLOCK) or "PointMap" not in g:
                continue
            ctx.count("point maps consulted")
            ok = "Overlap" not in g
            ctx.obligation(ok)
            if not ok:
                ctx.violation("%s:copies" % short(f), "%s (%s)" % (i.where(), i.func()), "whether a point contributes is decided with the map that includes copies of points owned by other processes", path=[i.path()])


def globals_reduced(ctx):
    """What a compute class stores to a global quantity derives from a reduction."""
    W = whole()
    for c, kind, e in evals(["compute", "initialize"], [COMPUTE]):
        s, f = e.sem, e.f
        bufs = set()
        for ins, bc, A, m in s.calls:
            if W.virtual(ins) in OPS:
                b = s.base_of(A[2])[0]
                if b is not None:
                    bufs.add(b)
        for st, addr, val, ver in s.stores:
            a = e.access(addr)
            if a is None or not (a.rel == "GLOBAL" or a.rel is None and a.off.const_value() is not None):
                continue                        # quantities chosen in the input are addressed as a whole
            ctx.count("global quantities stored")
            shared = derives(s, f, st.a[0], lambda b, p: b in bufs)
            local = derives(s, f, st.a[0], lambda b, p: e.access(p) is not None and e.access(p).rel != "GLOBAL")
            ok = shared or not local
            ctx.obligation(ok)
            if not ok:
                ctx.violation("%s:%s:local" % (cls(c), a.label), "%s (%s)" % (st.where(), st.func()), "%s stores the value of one process to the global quantity %s" % (cls(c), a.label), path=[st.path()])


def derives(s, f, o, hit, seen=None, through=True):
    """Does the value come from a load that hit() accepts?"""
    seen = set() if seen is None else seen
    if not isinstance(o, int) or o in seen:
        return False
    seen.add(o)
    d = f.defs.get(o)
    if d is None:
        return False
    if d.op == "load":
        p = s.opv(d.a[0])
        if hit(s.base_of(p)[0], p):
            return True
        return through and any(addr == p and derives(s, f, st.a[0], hit, seen) for st, addr, val, ver in s.stores)
    if d.op in ("icmp", "fcmp"):
        return False
    return any(derives(s, f, x, hit, seen, through) for x in d.a)
