"""C18: prescribed degrees of freedom are treated consistently by residual and tangent."""
import itertools
import re

from .. import front
from ..exchange import fn
from ..guards import conditions
from ..model import common_calls
from ..poly import ZERO, Poly
from ..sem import Sem
from ..universe import spread
from ..whole import whole

MANAGER = "PeridigmNS::BoundaryAndInitialConditionManager"
OPTS = ["--noinline", r"^PeridigmNS::(DirichletBC|DirichletIncrementBC|NeumannBC|BoundaryCondition|Timer|Peridigm|DegreesOfFreedomManager|Discretization)::|to_boundary_condition_type\("]
UNKNOWNS = ("displacement", "temperature", "concentration", "pressure")
SIZE = {"displacement": 3, "temperature": 1, "concentration": 1, "pressure": 1}
SET_BY = {"getDeltaU": "displacement", "getFluidPressureDeltaU": "pressure", "getTemperature": "temperature"}
COORD = r"^PeridigmNS::BoundaryCondition::getCoord"


class Pinned:
    """A function of the condition manager for one kind of condition and one choice of unknowns."""
    def __init__(self, f, kind, active=()):
        self.f, self.kind, self.active = f, kind, active
        self.offset, n = {}, 0
        for u in UNKNOWNS:
            self.offset[u] = n
            n += SIZE[u] if u in active else 0
        self.ndof = n
        self.sem = Sem(f, extern=self.call, prune=True, depth=10)
        self.live = set(self.sem.mem_out)

    def call(self, sem, ins, bc, A):
        bc = bc or ""
        if bc.startswith("PeridigmNS::DegreesOfFreedomManager::"):
            m = bc.split("::")[-1]
            if m == "totalNumberOfDegreesOfFreedom":
                return Poly.const(self.ndof)
            for u in UNKNOWNS:
                if m == u + "TreatedAsUnknown":
                    return Poly.const(int(u in self.active))
                if m == u + "DofOffset":
                    return Poly.const(self.offset[u])
                if m == "numberOf%sDegreesOfFreedom" % u.capitalize():
                    return Poly.const(SIZE[u] if u in self.active else 0)
        if bc == "PeridigmNS::BoundaryCondition::getType" or "to_boundary_condition_type" in bc:
            return Poly.const(self.kind)
        if bc == "PeridigmNS::BoundaryCondition::getCoord":
            return sem.atom("coord", A[0])
        if re.match(r"Epetra_(BlockMap|CrsMatrix|RowMatrix)::(LID|LRID|LCID|GRID|GCID)$", bc) and len(A) == 2:
            return sem.atom("local", bc.split("::")[-1], A[1], var=sem.pvar(A[1]))
        return common_calls(sem, ins, bc, A)

    def dof(self, idx):
        """Global degree of freedom as (multiple of the node, rest), local numbering undone."""
        s = self.sem
        out = ZERO
        for m, c in idx.t.items():
            if len(m) == 1 and m[0][1] == 1 and s.A.keys[m[0][0]][0] == "local":
                out = out + s.A.keys[m[0][0]][2].scale(c)
            else:
                out = out + Poly({m: c})
        nodes = [(m, c) for m, c in out.t.items() if len(m) == 1 and m[0][1] == 1 and s.A.keys[m[0][0]][0] == "load"]
        if len(nodes) != 1:
            return None
        rest = out - Poly({nodes[0][0]: nodes[0][1]})
        return nodes[0][1], nodes[0][0][0][0], rest

    def whole_list(self, node):
        """The node number is read from a list gone through from start to end."""
        s = self.sem
        b, off = s.base_of(s.A.keys[node][1])
        its = [a for a in off.atoms() if s.A.keys[a][0] == "iter"]
        if b is None or s.A.keys[b][0] != "vdata" or len(its) != 1 or off != Poly.atom(its[0]).scale(4):
            return None if b is None or s.A.keys[b][0] != "vdata" else False
        t = s.trip(s.A.keys[its[0]][1])
        if t is None:
            return None
        want = [a for a in t.atoms() if s.A.keys[a][0] in ("vsize", "size", "call", "cnt", "count")]
        return t == Poly.atom(next(iter(t.atoms()))) if len(t.t) == 1 and t.atoms() else False


def short(f):
    return f.dem.split("(")[0].split("::")[-1]


def run(ctx):
    ctx.rule = ("Each function of the condition manager that works on degrees of freedom is value-numbered once per kind of condition and per set of "
                "active unknowns, with the tests on them folded; the degrees of freedom it clears, copies or replaces must be exactly node, "
                "unknown and direction of the condition, and only for kinds that prescribe an active unknown. In the solvers, every path from "
                "assembling a residual or tangent to its use passes through the treatment of prescribed degrees of freedom.")
    ctx.assumptions += ["a linear solver given a right-hand side, start value and tangent treated for prescribed degrees of freedom returns zeros there",
                        "vectors and matrices number degrees of freedom by node, unknowns of a node in the order of the degree-of-freedom manager"]
    P = front.program([r"fn:^%s::[A-Za-z_]*\(" % MANAGER], OPTS)
    init = [f for f in P.functions if any("to_boundary_condition_type" in (i.callee or "") for i in f.instrs() if i.op == "call")]
    users = [f for f in P.functions if any(re.match(COORD, i.callee or "") for i in f.instrs() if i.op == "call")]
    kinds = prescribed(ctx, init, users)
    items = []
    for f in users:
        ctx.count("functions on degrees of freedom")
        for k in sorted(kinds):
            for r in range(1, 5):
                for act in itertools.combinations(UNKNOWNS, r):
                    items.append((f, k, act, kinds[k]))
    spread(ctx, items, one)
    ctx.need("kinds that prescribe an unknown", 3)
    ctx.need("functions on degrees of freedom", 3)
    ctx.need("degrees of freedom addressed", 40)
    solvers(ctx)
    ctx.need("treatments in solvers", 6)
    ctx.need("uses of treated systems", 6)
    ctx.need("interfaces to the nonlinear solver", 3)


def prescribed(ctx, init, users):
    """kind of condition -> the unknown it prescribes, or None."""
    lists = set()
    for f in users:
        s = Sem(f, extern=common_calls)
        for ins, bc, A, mem in s.calls:
            if re.match(COORD, ins.callee or ""):
                lists |= member_list(s, A[0])
    kinds = {}
    for f in init:
        vals = set()
        for ins in f.instrs():
            if ins.op == "switch":
                vals |= set(int(c[0]) for c in ins.x["cases"])
            elif ins.op == "icmp":
                vals |= set(int(o["v"]) for o in ins.a if isinstance(o, dict) and o["k"] == "i" and 0 <= int(o["v"]) < 64)
        hi = max(vals) + 1
        base = Pinned(f, hi + 7).live
        for k in range(hi + 1):
            p = Pinned(f, k)
            if p.live <= base:
                continue
            got, into = set(), set()
            for ins, bc, A, mem in p.sem.calls:
                if ins.blk in base or ins.blk not in p.live:
                    continue
                m = re.match(r"PeridigmNS::Peridigm::(get\w+)", ins.callee or "")
                if m:
                    got.add(m.group(1))
                if "::push_back" in (bc or "") and "BoundaryCondition" in bc:
                    b, off = p.sem.base_of(A[0])
                    into.add(off.const_value())
            us = set(SET_BY[g] for g in got if g in SET_BY) if into & lists else set()
            if len(us) > 1:
                ctx.undecided("condition kind %d prescribes %s" % (k, sorted(us)))
            kinds[k] = next(iter(us), None)
            ctx.count("kinds of condition")
            if us:
                ctx.count("kinds that prescribe an unknown")
    return kinds


def member_list(s, p):
    """Offsets of the member lists an object pointer is taken from."""
    out = set()

    def visit(q):
        for a in q.atoms():
            k = s.A.keys[a]
            if k[0] == "elem":
                b, off = s.base_of(k[1])
                if b is not None and s.A.keys[b][0] == "arg":
                    out.add(off.const_value())
            for x in k[1:]:
                if isinstance(x, Poly):
                    visit(x)
    visit(p)
    return out


def one(ctx, item):
    f, kind, act, unknown = item
    p = Pinned(f, kind, act)
    s = p.sem
    want = unknown in act
    sites = []              # (instruction, dof poly, what)
    name = short(f)
    loops = [L for L in f.loops if any(re.match(COORD + "|^PeridigmNS::BoundaryCondition::getType", i.callee or "") for b in L.b for i in f.blocks[b] if i.op == "call")]
    inside = set().union(*[L.b for L in loops]) if loops else set()
    filled = {}             # array -> degrees of freedom listed in it
    for ins, addr, val, ver in s.stores:
        if ins.blk not in p.live or ins.blk not in inside:
            continue
        b, off = s.base_of(addr)
        if b is None:
            continue
        k = s.A.keys[b]
        if k[0] == "view":
            sites.append((ins, off.scale(1 / Poly.const(8).const_value()), "entry", val))
        elif k[0] == "vdata" and any(s.A.keys[a][0] == "local" for a in val.atoms()):
            filled.setdefault(b, []).append((ins, val))
    rows = cols = 0
    for ins, bc, A, mem in s.calls:
        if ins.blk not in p.live or ins.blk not in inside or not (bc or "").startswith("Epetra_") or "::Replace" not in bc:
            continue
        row = A[1]
        if any(s.A.keys[a][0] == "local" for a in row.atoms()):
            sites.append((ins, row, "row", A[3]))
            rows += 1
        else:
            b = s.base_of(A[4])[0] if len(A) > 4 else None
            for st, v in filled.get(b, []):
                sites.append((st, v, "column", A[3]))
                cols += 1
    ctx.count("variants followed")
    tag = "%s, condition kind %d, unknowns %s" % (name, kind, "+".join(act))
    if not want:
        ctx.obligation(not sites)
        for ins, d, what, v in sites[:1]:
            ctx.violation("%s:%s:free" % (name, unknown or "kind %d" % kind), ins.where(), "%s: the %s of a degree of freedom that is not prescribed is changed" % (tag, what))
        return
    ctx.obligation(bool(sites))
    if not sites:
        ctx.violation("%s:%s:left" % (name, unknown), next(i.where() for i in f.instrs() if i.op == "call"), "%s: prescribed degrees of freedom are left free" % tag)
        return
    matrix = any("::Replace" in (bc or "") for ins, bc, A, mem in s.calls)
    if matrix:
        ctx.obligation(rows > 0 and cols > 0)
        if not rows or not cols:
            ctx.violation("%s:%s:%s" % (name, unknown, "row" if not rows else "column"), sites[0][0].where(), "%s: the %s of prescribed degrees of freedom are not cleared" % (tag, "rows" if not rows else "columns"))
        values(ctx, p, tag, name, inside)
    for ins, d, what, v in sites:
        ctx.count("degrees of freedom addressed")
        r = p.dof(d)
        if r is None:
            ctx.undecided("%s: %s: index %s" % (tag, ins.where(), s.show(d, 4)[:120]))
            continue
        mult, node, rest = r
        coord = [a for a in rest.atoms() if s.A.keys[a][0] == "coord"]
        off = rest - sum((Poly.atom(a) for a in coord), ZERO)
        bad = None
        if mult != p.ndof:
            bad = ("stride", "nodes are %s apart instead of %d" % (mult, p.ndof))
        elif len(coord) != 1:
            bad = ("direction", "the direction of the condition is not used")
        elif off.const_value() is None:
            ctx.undecided("%s: %s: offset %s" % (tag, ins.where(), s.show(off, 4)[:120]))
            continue
        elif off.const_value() != p.offset[unknown]:
            bad = ("unknown", "the degree of freedom belongs to another unknown (offset %s instead of %d)" % (off.const_value(), p.offset[unknown]))
        else:
            w = p.whole_list(node)
            if w is None:
                ctx.undecided("%s: %s: node %s" % (tag, ins.where(), s.show(Poly.atom(node), 6)[:200]))
                continue
            if w is False:
                bad = ("nodes", "not every node of the set is treated")
            elif skipped(p, ins, d) is not None:
                bad = ("skipped", "the degree of freedom with local number %d is left out" % skipped(p, ins, d))
            elif not whole_conditions(p, coord[0]):
                bad = ("conditions", "not every condition is treated")
            elif what == "entry" and not v.is_zero() and not same_entry(p, v, d):
                bad = ("value", "the entry is set to %s" % s.show(v, 3)[:80])
        ctx.obligation(bad is None)
        if bad:
            ctx.violation("%s:%s:%s" % (name, unknown, bad[0]), ins.where(), "%s: %s: %s" % (tag, what, bad[1]))


def whole_conditions(p, coord):
    """The condition is read from a list gone through from start to end."""
    s = p.sem
    todo = [s.A.keys[coord][1]]
    while todo:
        q = todo.pop()
        for a in q.atoms():
            k = s.A.keys[a]
            if k[0] == "iter":
                t = s.trip(k[1])
                return t is not None and len(t.t) == 1 and t == Poly.atom(next(iter(t.atoms()), -1)) and first(s, q, a)
            todo += [x for x in k[1:] if isinstance(x, Poly)]
    return True


def first(s, q, it):
    """The index runs from zero."""
    return all(a == it or not q.t for a in q.atoms()) and () not in q.t


def late(ctx, p, tag, name, calls, inside):
    """No column is cleared after the diagonals of its condition were set."""
    s, f = p.sem, p.f
    A = {ins.id: a for ins, bc, a, mem in s.calls}
    rows = [i for i in calls if any(s.A.keys[a][0] == "local" for a in A[i.id][1].atoms())]
    cols = {i.id for i in calls} - {i.id for i in rows}
    fills = {i.id for i, addr, val, ver in s.stores if any(s.A.keys[a][0] == "local" for a in val.atoms())}
    outer = min((L for L in f.loops if L.b <= inside), key=lambda L: -len(L.b))
    for r in rows:
        seen, todo, hit = set(), [(r.blk, r.pos + 1)], None
        while todo and hit is None:
            b, pos = todo.pop()
            for i in f.blocks[b]:
                if i.pos < pos:
                    continue
                if i.id in fills:
                    break
                if i.id in cols:
                    hit = i
                    break
            else:
                for q in f.succ[b]:
                    if q not in seen and q != outer.h and q in p.live:
                        seen.add(q)
                        todo.append((q, -1))
        ctx.obligation(hit is None)
        if hit is not None:
            ctx.violation("%s:order" % name, hit.where(), "%s: columns are cleared after the diagonal entries were set, which clears these too" % tag)


TESTS = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "slt": lambda a, b: a < b, "sle": lambda a, b: a <= b,
         "sgt": lambda a, b: a > b, "sge": lambda a, b: a >= b, "ult": lambda a, b: a % 2**32 < b % 2**32, "ule": lambda a, b: a % 2**32 <= b % 2**32,
         "ugt": lambda a, b: a % 2**32 > b % 2**32, "uge": lambda a, b: a % 2**32 >= b % 2**32}


def skipped(p, ins, d):
    """A degree of freedom present on this processor that the tests around an instruction leave out."""
    s = p.sem
    for c, truth in conditions(p.f, ins.blk):
        if c.op != "icmp" or not isinstance(truth, bool):
            continue
        l, r = s.opv(c.a[0]), s.opv(c.a[1])
        loc = [a for a in l.atoms() | r.atoms() if s.A.keys[a][0] == "local"]
        if len(loc) != 1 or loc[0] not in d.atoms() or (l.atoms() | r.atoms()) - set(loc):
            continue
        for n in (0, 1, 2, 3, 1000):
            a, b = (sum(k * n**sum(e for _, e in m) for m, k in q.t.items()) for q in (l, r))
            if TESTS[c.x["p"]](int(a), int(b)) != truth:
                return n
    return None


def same_entry(p, v, d):
    """The value is the same entry of another vector."""
    s = p.sem
    a = next(iter(v.atoms()), None)
    if a is None or v != Poly.atom(a) or s.A.keys[a][0] != "load":
        return False
    return s.base_of(s.A.keys[a][1])[1] == d.scale(8)


def values(ctx, p, tag, name, inside):
    """The values put into the matrix are zero except for the diagonal while its row is written."""
    s, f = p.sem, p.f
    arrays = {}
    for ins, bc, A, mem in s.calls:
        if ins.blk in p.live and ins.blk in inside and (bc or "").startswith("Epetra_") and "::Replace" in bc:
            arrays.setdefault(s.base_of(A[3])[0], []).append((ins, A))
    stores = {}
    for ins, addr, val, ver in s.stores:
        b, off = s.base_of(addr)
        if b in arrays and ins.blk in p.live:
            stores[ins.id] = (b, off.scale(1 / Poly.const(8).const_value()), val)
    uses = {ins.id: (b, A) for b, xs in arrays.items() for ins, A in xs}
    out = {}
    diagonal = [v for arr, off, v in stores.values() if not v.is_zero()]
    ctx.obligation(bool(diagonal))
    if not diagonal:
        ctx.violation("%s:diagonal" % name, next(i for b, xs in arrays.items() for i, A in xs).where(), "%s: the diagonal of prescribed degrees of freedom is left zero" % tag)
    late(ctx, p, tag, name, [i for b, xs in arrays.items() for i, A in xs], inside)
    order = [b for b in f.rpo if b in p.live]
    for final in (False, True):
        for n in range(1 if final else 6):
            for b in order:
                st = frozenset().union(*[out[q] for q in f.pred[b] if q in out and (q, b) not in s.dead]) if f.pred[b] else frozenset()
                for ins in f.blocks[b]:
                    if ins.id in stores:
                        arr, off, val = stores[ins.id]
                        st = frozenset(x for x in st if x != (arr, off)) if val.is_zero() else st | {(arr, off)}
                    elif ins.id in uses and final:
                        arr, A = uses[ins.id]
                        row = p.dof(A[1]) if any(s.A.keys[a][0] == "local" for a in A[1].atoms()) else None
                        for x, off in st:
                            if x != arr:
                                continue
                            ok = row is not None and p.dof(off) == row
                            ctx.obligation(ok)
                            if not ok:
                                ctx.violation("%s:values" % name, ins.where(), "%s: an entry other than the diagonal of the prescribed degree of freedom is nonzero here" % tag)
                out[b] = st


# ---- solvers ------------------------------------------------------------------
class Flow:
    """Vectors and tangent that may hold untreated entries, followed through one function.

    Names of vectors are those of exchange.Fn; "T" is the tangent."""
    memo = {}

    def __init__(self, f, W):
        self.f, self.W, self.F = f, W, fn(f.dem)
        self.s = self.F.s
        self.alias = {}
        for ins, bc, A, mem in self.s.calls:
            if re.match(r"Teuchos::rcp<|Teuchos::RCP<.*> Teuchos::rcp<", ins.callee or "") and len(A) >= 2 and A[1].t:
                self.alias[self.F.vector(A[1])] = self.F.place(A[0])
        self.params = {}
        for n, a in enumerate(f.args):
            v = ("l", self.s.A.tab.get(("arg", a["id"])), 0)
            self.params[v] = n
        self.stores = {i.id: (a, v) for i, a, v, _ in self.s.stores}
        self.calls = {i.id: (bc or "", A) for i, bc, A, _ in self.s.calls}
        self.assembles = any(re.match(EVAL, i.callee or "") for i in f.instrs() if i.op == "call")
        self.roles = set()

    def vec(self, p):
        v = self.F.vector(p)
        return self.alias.get(v, v)

    def handle(self, p, ins):
        v = self.F.handle(p, ins)
        if v[0] == "l" and v not in self.params and not self.is_local(v):
            v = self.vec(p)
        return self.alias.get(v, v)

    def is_local(self, v):
        return v[1] is not None and self.s.A.keys[v[1]][0] == "alloca"

    def problem(self, ins):
        """(solution, right-hand side) if the call states a linear problem."""
        bc, A = self.calls[ins.id]
        n = ins.callee or str(ins.x.get("vc"))
        if "LinearProblem" in n and len(A) == 3 and (ins.callee is None or "::setProblem(" in n):
            return self.handle(A[1], ins), self.handle(A[2], ins)
        if re.search(r"LinearProblem<.*>::LinearProblem\(", n) and len(A) == 4:
            return self.handle(A[2], ins), self.handle(A[3], ins)

    def start(self, ins):
        """The vector a nonlinear solver is given as its start value."""
        bc, A = self.calls[ins.id]
        if re.match(r"NOX::Epetra::Vector::Vector", bc) and len(A) > 1:
            return self.handle(A[1], ins)

    def solves(self, ins):
        n = ins.callee or str(ins.x.get("vc"))
        if ins.callee:
            return bool(re.search(r"Belos::\w*Sol\w*Mgr<.*>::solve\(", n))
        return "SolverManager" in n and len(self.calls[ins.id][1]) == 1 and ins.ty == "i32"

    def go(self, raw, report=None):
        """Untreated set at the returns; report(ins, what, names) at each use."""
        f, out = self.f, {}
        rpo = f.rpo
        changed, n = True, 0
        while changed and n < 12:
            changed, n = False, n + 1
            for b in rpo:
                st = self.block(b, raw, out, None)
                if out.get(b) != st:
                    out[b] = st
                    changed = True
        if report:
            for b in rpo:
                self.block(b, raw, out, report)
        rets = [out[b] for b in rpo if f.blocks[b][-1].op == "ret"]
        return set().union(*[r[0] for r in rets]) if rets else set()

    def block(self, b, raw, out, report):
        f = self.f
        pr = [out[q] for q in f.pred[b] if q in out]
        st = set(raw) if b == f.rpo[0] else set().union(*[x[0] for x in pr]) if pr else set()
        prob = set().union(*[x[1] for x in pr]) if pr else set()
        for ins in f.blocks[b]:
            if ins.id in self.stores:
                self.store(ins, st)
            elif ins.id in self.calls:
                prob = self.call(ins, st, prob, report)
        return frozenset(st), frozenset(prob)

    def store(self, ins, st):
        addr, val = self.stores[ins.id]
        for v in self.viewed(addr):
            if v in self.roles and v not in st and not self.small(val, st, 0):
                st.add(v)

    def viewed(self, p):
        b, off = self.s.base_of(p) if p.t else (None, None)
        if b is None:
            return ()
        k = self.s.A.keys[b]
        if k[0] == "view":
            return (self.vec(k[1]),)
        if k[0] == "call" and (self.s.A.info[b].get("name") or "").endswith("Vector::operator[]"):
            return (self.vec(self.s.A.info[b]["args"][0]),)
        return ()

    def small(self, val, st, depth):
        """The value is made of entries of treated vectors."""
        if depth > 4:
            return False
        for m in val.t:
            for a, e in m:
                k = self.s.A.keys[a]
                if k[0] == "load" and any(v in self.roles and v not in st for v in self.viewed(k[1])):
                    break
                if k[0] in ("phi", "sel") and all(self.small(q, st, depth + 1) for x in k[1:] for q in (x if isinstance(x, tuple) else (x,)) if isinstance(q, Poly)) and k[0] == "phi":
                    break
            else:
                return False
        return True

    def call(self, ins, st, prob, report):
        bc, A = self.calls[ins.id]
        say = report or (lambda *a: None)
        t = TREAT.get(ins.callee)
        if t == "matrix":
            st.discard("T")
        elif t == "vector":
            st.discard(self.handle(A[1], ins))
        elif is_assembly(ins):
            if self.assembles:
                st.add("T")
        elif self.start(ins):
            say(ins, "start value", {self.start(ins)} & st)
        elif bc.startswith("Epetra_") and A:
            m = bc.rsplit("::", 1)[-1]
            v = self.vec(A[0])
            if v not in self.roles:
                pass
            elif m == "PutScalar":
                st.discard(v) if A[1].is_zero() else st.add(v)
            elif m in ("Norm1", "Norm2", "NormInf", "MinValue", "MaxValue", "MeanValue", "NormWeighted"):
                say(ins, "norm", {v} & st)
            elif m == "Random":
                st.add(v)
            elif m == "operator=" or m in ("Import", "Export"):
                w = self.vec(A[1])
                st.discard(v) if w in self.roles and w not in st else st.add(v)
            elif m == "Update" and len(A) in (4, 6):
                src = [self.vec(A[2])] + ([self.vec(A[4])] if len(A) == 6 else [])
                if A[-1].is_zero():
                    st.discard(v)
                if any(w not in self.roles or w in st for w in src):
                    st.add(v)
        elif self.problem(ins):
            prob = {self.problem(ins)}
        elif self.solves(ins):
            used = {"T"} | set(r for l, r in prob) | set(l for l, r in prob)
            say(ins, "solve", used & st)
            for l, r in prob:
                st.discard(l)
                if r in st or "T" in st:
                    st.add(l)
        elif target(self.W, ins):
            S = summary(self.W, target(self.W, ins))
            names = {"T": "T"}
            for v, n in S["params"].items():
                if n < len(A) and A[n].t:
                    names[v] = self.handle(A[n], ins)
            for v, mine in names.items():
                if v in S["needs"]:
                    say(ins, "call", {mine} & st)
            for v, mine in names.items():
                if mine is None:
                    continue
                was = mine in st
                st.discard(mine)
                if v in S["dirty"] or was and v in S["keeps"]:
                    st.add(mine)
        return prob


TREAT = {}


def relevant(W):
    """The functions that take part in forming or solving the system."""
    if "relevant" not in Flow.memo:
        got, callers = set(), {}
        for f in W.funcs:
            if f.dem.startswith(MANAGER):
                continue
            for i in f.instrs():
                if i.op != "call":
                    continue
                for c in [i.callee] if i.callee else i.x.get("vi") or ():
                    callers.setdefault(c, set()).add(f.dem)
                if is_assembly(i) or i.callee in TREAT or "LinearProblem" in (i.callee or str(i.x.get("vc"))):
                    got.add(f.dem)
        todo = list(got)
        while todo:
            for c in callers.get(todo.pop(), ()):
                if c not in got:
                    got.add(c)
                    todo.append(c)
        todo = list(got)
        while todo:
            for i in W.by_dem[todo.pop()].instrs():
                for c in ([i.callee] if i.callee else i.x.get("vi") or ()) if i.op == "call" else ():
                    if c in W.by_dem and c not in got and "Epetra_Vector" in c.split("(", 1)[-1] and not c.startswith(MANAGER):
                        got.add(c)
                        todo.append(c)
        Flow.memo["relevant"] = got
    return Flow.memo["relevant"]


def target(W, ins):
    """The function taking part in the solution that a call goes to."""
    for c in [ins.callee] if ins.callee else ins.x.get("vi") or ():
        if c in relevant(W):
            return c


def flow_of(W, dem):
    key = ("flow", dem)
    if key not in Flow.memo:
        Flow.memo[key] = Flow(W.by_dem[dem], W)
    return Flow.memo[key]


def summary(W, dem):
    """What a function demands of, and does to, its vectors and the tangent."""
    key = ("sum", dem)
    if key not in Flow.memo:
        Flow.memo[key] = {"params": {}, "needs": set(), "dirty": set(), "keeps": {"T"}}
        X = flow_of(W, dem)
        ps = {v: n for v, n in X.params.items() if v in X.roles}
        base = X.go(set())
        needs, keeps = set(), set()
        for v in list(ps) + ["T"]:
            hit = []
            end = X.go({v}, lambda ins, what, bad: hit.append(v) if v in bad else None)
            if hit:
                needs.add(v)
            if v in end and v not in base:
                keeps.add(v)
        Flow.memo[key] = {"params": ps, "needs": needs, "dirty": base & (set(ps) | {"T"}), "keeps": keeps}
    return Flow.memo[key]


EVAL = r"PeridigmNS::ModelEvaluator::evalJacobian"


def is_assembly(i):
    return bool(re.match(EVAL + "|Epetra_FECrsMatrix::GlobalAssemble", i.callee or ""))


def roles(W, names):
    """Vectors that stand for a residual, increment or start value."""
    todo = True
    for d in names:
        X = flow_of(W, d)
        for ins in X.f.instrs():
            if ins.id not in X.calls:
                continue
            if TREAT.get(ins.callee) == "vector":
                X.roles.add(X.handle(X.calls[ins.id][1][1], ins))
            elif X.problem(ins):
                X.roles |= set(X.problem(ins))
            elif X.start(ins):
                X.roles.add(X.start(ins))
        if re.search(r"::computeF\(", d):
            X.roles.add(next(v for v, n in X.params.items() if n == 2))
    while todo:
        todo = False
        for d in names:
            X = flow_of(W, d)
            for ins in X.f.instrs():
                if ins.id in X.calls and target(W, ins):
                    Y = flow_of(W, target(W, ins))
                    for v, n in Y.params.items():
                        A = X.calls[ins.id][1]
                        if n == 0 or n >= len(A) or not A[n].t or not vector_arg(Y.f, n):
                            continue
                        w = X.handle(A[n], ins)
                        if (v in Y.roles) != (w in X.roles):
                            Y.roles.add(v)
                            X.roles.add(w)
                            todo = True


def vector_arg(f, n):
    d = f.dem.split("(", 1)[1]
    return "Epetra_Vector" in d.split(",")[n - 1] if n - 1 < len(d.split(",")) else False


def treatments(W):
    """Functions of the manager that treat a vector or a matrix."""
    out = {}
    for f in W.funcs:
        if f.dem.startswith(MANAGER + "::") and any(re.match(COORD, i.callee or "") for i in f.instrs() if i.op == "call"):
            args = f.dem.split("(", 1)[1]
            if "Matrix" in args:
                out[f.dem] = "matrix"
            elif args.count("Epetra_Vector") == 1:
                out[f.dem] = "vector"
    return out


def solvers(ctx):
    W = whole()
    TREAT.clear()
    TREAT.update(treatments(W))
    Flow.memo.clear()
    names = sorted(relevant(W))
    roles(W, names)
    for d in names:
        X = flow_of(W, d)
        ctx.count("solver functions followed")
        ctx.count("treatments in solvers", sum(i.callee in TREAT for i in X.f.instrs() if i.op == "call"))
        seen = set()

        def report(ins, what, bad, X=X):
            if ins.id in seen:
                return
            seen.add(ins.id)
            ctx.count("uses of treated systems")
            ctx.obligation(not bad)
            if bad:
                which = "tangent" if "T" in bad else "vector"
                ctx.violation("%s:%s:%s" % (short(X.f), which, what), ins.where(), "%s: a path forms the %s and reaches this %s without the treatment of prescribed degrees of freedom" % (
                    short(X.f), "tangent" if which == "tangent" else "residual, increment or start value", what), path=[ins.path()])
        end = X.go(set(), report)
        m = re.search(r"::(computeF|computeJacobian|computePreconditioner)\(", d)
        if m:
            ctx.count("interfaces to the nonlinear solver")
            want = "T" if m.group(1) != "computeF" else next(v for v, n in X.params.items() if n == 2)
            ctx.obligation(want not in end)
            if want in end:
                ctx.violation("%s:return" % short(X.f), next(i for b in X.f.rpo for i in X.f.blocks[b] if i.op == "call").where(), "%s: the %s handed to the nonlinear solver is not treated for prescribed degrees of freedom" % (m.group(1), "tangent" if want == "T" else "residual"))
