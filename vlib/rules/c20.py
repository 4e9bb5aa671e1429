"""C20: probing the tangent leaves the simulation state unperturbed."""
import itertools
import re

from .. import front
from ..front import CheckError
from ..model import NOINLINE, common_calls, fields_in
from ..poly import ZERO, Poly
from ..sem import Sem
from ..universe import spread

EVALUATION = re.compile(r"::compute(Force|FluxDivergence)\(")
OPTS = ["--noinline", NOINLINE + r"|::compute(Force|FluxDivergence)\(|^PeridigmNS::(SerialMatrix|ScratchMatrix)::"]
ROOTS = [r"fn:^PeridigmNS::[A-Za-z_]*::compute[A-Za-z]*Jacobian\("]
MOVES = ("std::copy<", "std::copy_n<", "double* std::copy", "std::memcpy", "memcpy", "memmove", "llvm.memcpy", "llvm.memmove")
RATE = {"Velocity": "Coordinates"}
LENGTH = {"Coordinates": 3, "Velocity": 3, "Force_Density": 3}


class Pinned:
    """A tangent evaluation for one choice of unknowns and of its integer switches."""
    def __init__(self, f, disp, temp, pin):
        self.f, self.disp, self.temp = f, disp, temp
        self.ndof = 3 * disp + temp
        self.sem = Sem(f, extern=self.call, prune=True, depth=10, pin=pin)

    def call(self, sem, ins, bc, A):
        if bc and bc.startswith("PeridigmNS::DegreesOfFreedomManager::"):
            m = bc.split("::")[-1]
            v = {"displacementTreatedAsUnknown": self.disp, "temperatureTreatedAsUnknown": self.temp,
                 "concentrationTreatedAsUnknown": 0, "pressureTreatedAsUnknown": 0,
                 "totalNumberOfDegreesOfFreedom": self.ndof, "numberOfDisplacementDegreesOfFreedom": 3 * self.disp,
                 "numberOfTemperatureDegreesOfFreedom": self.temp, "displacementDofOffset": 0 if self.disp else None,
                 "temperatureDofOffset": 3 * self.disp if self.temp else None}.get(m)
            if v is not None:
                return Poly.const(v)
        return common_calls(sem, ins, bc, A)

    # ---- what an address is --------------------------------------------------
    def field(self, addr):
        """(label, step, byte offset) of an element of a model quantity."""
        s = self.sem
        b, off = s.base_of(addr)
        if b is None or s.A.keys[b][0] != "view":
            return None
        v = self.vector(s.A.keys[b][1])
        return (v[0], v[1], off) if v else None

    def vector(self, vec):
        s = self.sem
        if len(vec.t) != 1:
            return None
        a = next(iter(vec.atoms()), None)
        if a is None or s.A.keys[a][0] != "vec":
            return None
        k = s.A.keys[a]
        fs = fields_in(s, k[2])
        return (fs[0][1], k[3].const_value()) if len(fs) == 1 else None

    def buffer(self, addr):
        """A copy held outside the model quantities: key and offset."""
        b, off = self.sem.base_of(addr)
        if b is None or self.sem.A.keys[b][0] not in ("view", "vdata", "call", "alloca"):
            return None
        return b, off

    def component(self, idx, length):
        """(point, component) of an index into a vector quantity; the component is the loop counter running over it."""
        if length == 1:
            return idx, ZERO
        s = self.sem
        c = idx.t.get((), 0)
        d = Poly.const(c % length)
        for m, k in idx.t.items():
            if len(m) == 1 and m[0][1] == 1 and k == 1 and s.A.keys[m[0][0]][0] == "iter":
                t = s.trip(s.A.keys[m[0][0]][1])
                if t is not None and t.const_value() == length:
                    d = d + Poly.atom(m[0][0])
        p = (idx - d).scale(1 / Poly.const(length).const_value())
        if any(k.denominator != 1 for k in p.t.values()):
            return None
        return p, d


class State:
    """What is perturbed, what the last evaluation saw, and what the copies hold."""
    def __init__(self, moved=(), last=None, held=()):
        self.moved, self.last, self.held = dict(moved), last, dict(held)

    def copy(self):
        return State(self.moved, self.last, self.held)

    def __eq__(self, o):
        return self.moved == o.moved and self.last == o.last and self.held == o.held


def is_evaluation(ins):
    names = [ins.callee] if ins.callee else ins.x.get("vi") or []
    return ins.op == "call" and any(EVALUATION.search(n) for n in names)


class Probe:
    def __init__(self, ctx, P, tag):
        self.ctx, self.P, self.tag = ctx, P, tag
        self.s, self.f = P.sem, P.f
        self.dt = None
        self.base = {}          # load atom -> perturbation contained in it
        self.loopcopies()
        self.early()
        self.quiet = True
        self.filled = set()

    def loopcopies(self):
        """Element-by-element copies of a result into a buffer, as a whole."""
        self.copies = {}        # loop -> [(buffer, label)]
        self.copyins = set()
        s = self.s
        for ins, addr, val, ver in s.stores:
            L = self.f.nest(ins.blk)
            if not L or self.P.field(addr):
                continue
            b = self.P.buffer(addr)
            a = next(iter(val.atoms()), None)
            if b is None or len(val.t) != 1 or a is None or s.A.keys[a][0] != "load" or val != Poly.atom(a):
                continue
            src = self.P.field(s.A.keys[a][1])
            if src and src[2] == b[1] and any(s.A.keys[x][0] == "iter" for x in b[1].atoms()):
                self.copies.setdefault(self.inner(ins.blk), []).append((b[0], src[0]))
                self.copyins.add(ins.id)

    def inner(self, blk):
        return max(self.f.nest(blk), key=lambda l: len(self.f.nest(self.f.loops[l].h)))

    # ---- dataflow ------------------------------------------------------------
    def run(self):
        f, s = self.f, self.s
        order = [b for b in f.rpo if b in s.mem_out]
        out = {}
        for n in range(8):
            changed = False
            self.quiet = True
            for b in order:
                st = self.join(b, out)
                if st is None:
                    continue
                st = self.block(b, st)
                if b not in out or not (out[b] == st):
                    out[b] = st
                    changed = True
            if not changed:
                break
        self.quiet = False
        for b in order:
            st = self.join(b, out)
            if st is not None:
                self.block(b, st)
        self.out = out

    def join(self, b, out):
        f, s = self.f, self.s
        if b == f.rpo[0]:
            return State()
        r = None
        hdr = [L for L in f.loops if L.h == b]
        for p in f.pred[b]:
            if p not in out or (p, b) in s.dead:
                continue
            o = out[p]
            if r is None:
                r = o.copy()
                continue
            if r.moved != o.moved:
                back = bool(hdr) and p in hdr[0].b
                late = o.moved if back else {k: v for k, v in list(o.moved.items()) + list(r.moved.items()) if o.moved.get(k) != r.moved.get(k)}
                if not self.quiet:
                    self.leftover(late, f.blocks[p][-1], "when the loop goes on to its next pass" if back else "on one of the ways to this point")
                r.moved = {k: v for k, v in r.moved.items() if o.moved.get(k) == v}
            if r.last != o.last:
                r.last = None
            r.held = {k: v for k, v in r.held.items() if o.held.get(k) == v}
        if r is not None and hdr:
            for buf, label in self.copies.get(hdr[0].idx, ()):
                r.held[buf] = (label, r.last)
        return r

    def leftover(self, moved, ins, when):
        for addr, (d, at) in moved.items():
            fl = self.P.field(addr)
            self.ctx.obligation(False)
            self.ctx.violation("%s:%s:left" % (short(self.f), fl[0]), at.where(), "%s: the perturbation of %s made here is still in place %s (%s)" % (self.tag, fl[0], when, ins.where()))

    def block(self, b, st):
        s, f = self.s, self.f
        for ins in f.blocks[b]:
            if ins.op == "load" and ins.id in s.val:
                v = s.val[ins.id]
                addr = s.opv(ins.a[0])
                a = next(iter(v.atoms()), None)
                if len(v.t) == 1 and a is not None and v == Poly.atom(a) and s.A.keys[a][0] == "load" and self.P.field(addr):
                    self.base[a] = st.moved.get(addr, (ZERO, None))[0]
            elif ins.op == "store":
                self.store(ins, st)
            elif ins.op == "call":
                self.callins(ins, st)
            elif ins.op == "ret" and not self.quiet:
                self.ctx.obligation(not st.moved)
                self.leftover(st.moved, ins, "when the tangent evaluation returns")
        for ins in self.hoisted.get(b, ()):
            self.blockcopy(ins, st)
        return st

    def callins(self, ins, st):
        s = self.s
        if is_evaluation(ins):
            st.last = self.seen(st, ins)
            if not self.quiet:
                self.ctx.count("evaluations probed")
            return
        bc = (ins.callee or "").split("(")[0]
        A = [s.opv(o) for o in ins.a]
        if bc.endswith("Epetra_Vector::Epetra_Vector") and len(A) >= 2:
            v = self.P.vector(A[1])
            if v:
                st.held[next(iter(s.view(A[0]).atoms()))] = (v[0], st.last)
        elif bc.endswith("::operator=") and "Vector" in bc and len(A) == 2:
            src, dst = self.P.vector(A[1]), self.P.vector(A[0])
            if dst is None and src is not None:
                st.held[next(iter(s.view(A[0]).atoms()))] = (src[0], st.last)
            elif dst is not None and not self.quiet:
                self.ctx.undecided("%s: %s: whole quantity %s assigned" % (self.tag, ins.where(), dst[0]))
        elif bc.startswith(MOVES) and len(A) >= 3:
            self.blockcopy(ins, st)
        else:
            for x in A:                         # a copy handed to other code
                b = s.base_of(x)[0]
                if b in st.held:
                    del st.held[b]

    def blockcopy(self, ins, st):
        s = self.s
        A = [s.opv(o) for o in ins.a]
        src, dst = (A[0], A[2]) if "std::copy" in ins.callee else (A[1], A[0])
        fl, b = self.P.field(src), self.P.buffer(dst)
        if b is not None and self.P.field(dst) is None:
            st.held.pop(b[0], None)
            if fl is not None and fl[2] == b[1]:
                st.held[b[0]] = (fl[0], st.last)

    def early(self):
        """Block copies skipped only when there is nothing to copy, by the block that tests for it."""
        s, f = self.s, self.f
        self.hoisted = {}
        for ins in f.instrs():
            if ins.op != "call" or not (ins.callee or "").startswith(MOVES) or ins.blk not in s.mem_out:
                continue
            n = set(s.opv(ins.a[2]).atoms())
            b = ins.blk
            while n and len(f.pred[b]) == 1:
                d = f.pred[b][0]
                t = f.blocks[d][-1]
                if t.op != "br" or len(f.succ[d]) != 2 or not s.depends(s.opv(t.a[0]), lambda k: s.A.tab.get(k) in n):
                    break
                b = d
            if b != ins.blk:
                self.hoisted.setdefault(b, []).append(ins)

    def seen(self, st, ins):
        """The displacement of the unknown at an evaluation: (label, offset, distance), () if unperturbed."""
        main = [(a, d, at) for a, (d, at) in st.moved.items() if self.P.field(a)[0] not in RATE]
        rate = [(a, d, at) for a, (d, at) in st.moved.items() if self.P.field(a)[0] in RATE]
        bad = None
        if len(main) > 1:
            bad = "more than one unknown is perturbed at this evaluation"
        elif rate and not main:
            bad = "only the rate of the unknown is perturbed at this evaluation"
        elif len(rate) > 1:
            bad = "more than one rate is perturbed at this evaluation"
        elif rate:
            (a, d, at), (ra, rd, rat) = main[0], rate[0]
            la, lr = self.P.field(a), self.P.field(ra)
            if RATE[lr[0]] != la[0] or la[2] != lr[2]:
                bad = "%s and %s are perturbed at different places" % (la[0], lr[0])
            elif d.is_zero() or rd.is_zero() or not self.proportional(d, rd):
                bad = "the perturbations of %s and %s at this evaluation do not belong to the same motion" % (la[0], lr[0])
        if not self.quiet:
            self.ctx.obligation(bad is None)
            if bad:
                self.ctx.violation("%s:probe:%s" % (short(self.f), bad.split(" ")[0] + str(len(main))), ins.where(), "%s: %s" % (self.tag, bad))
        if bad:
            return None
        if not main:
            return ()
        fl = self.P.field(main[0][0])
        return (fl[0], fl[2], main[0][1])

    def proportional(self, d, rd):
        """rate = displacement / step, the step being an argument."""
        s = self.s
        for a in self.f.args:
            v = s.val.get(a["id"])
            if a["t"] == "d" and v is not None and s.mul(rd, v) == d:
                return True
        return False

    def store(self, ins, st):
        s = self.s
        addr, val = s.opv(ins.a[1]), s.opv(ins.a[0])
        fl = self.P.field(addr)
        if fl is not None:
            self.move(ins, st, addr, val, fl)
            return
        b, off = s.base_of(addr)
        if b in st.held and ins.id not in self.copyins:
            a = next(iter(val.atoms()), None)
            src = self.P.field(s.A.keys[a][1]) if a is not None and val == Poly.atom(a) and s.A.keys[a][0] == "load" else None
            if src is None or (src[0], st.last) != st.held[b] or src[2] != off:
                del st.held[b]
        if b is not None and s.A.keys[b][0] == "call" and str(s.A.info[b].get("name", "")).endswith("ScratchMatrix::operator()"):
            self.entry(ins, st, val, [s.opv(o) for o in self.f.defs[s.A.keys[b][1]].a])

    def move(self, ins, st, addr, val, fl):
        s = self.s
        if not self.quiet:
            self.ctx.count("writes to model quantities")
        own = [m for m, c in val.t.items() if len(m) == 1 and m[0][1] == 1 and c == 1 and s.A.keys[m[0][0]][0] == "load" and s.A.keys[m[0][0]][1] == addr]
        if len(own) != 1:
            if not self.quiet:
                src = s.show(val, 3)[:100]
                self.ctx.obligation(False)
                if any(s.A.keys[a][0] == "load" and self.P.field(s.A.keys[a][1]) for a in val.atoms()):
                    self.ctx.violation("%s:%s:other" % (short(self.f), fl[0]), ins.where(), "%s: %s is overwritten with the value of something else: %s" % (self.tag, fl[0], src))
                else:
                    self.ctx.undecided("%s: %s: %s is set to %s" % (self.tag, ins.where(), fl[0], src))
            return
        a = own[0][0][0]
        d = val - Poly.atom(a) + self.base.get(a, ZERO)
        src = self.f.defs.get(ins.a[0]) if isinstance(ins.a[0], int) else None
        if d.is_zero():
            exact = src is None or src.op not in ("fadd", "fsub", "fmul", "fdiv", "call")
            if not self.quiet:
                self.ctx.obligation(exact)
                if not exact:
                    self.ctx.violation("%s:%s:rounding" % (short(self.f), fl[0]), ins.where(), "%s: %s is put back by arithmetic, which leaves rounding errors in the state" % (self.tag, fl[0]))
            st.moved.pop(addr, None)
        else:
            st.moved[addr] = (d, ins)

    def entry(self, ins, st, val, args):
        """A tangent entry: difference of two evaluations over the distance between them."""
        s, P = self.s, self.P
        row, col = args[1], args[2]
        if val.is_zero():
            if all(len(x.t) == 1 and s.A.keys[next(iter(x.atoms()))][0] == "iter" for x in (row, col) if x.t):
                self.filled.add("all")
            return
        parts = []
        for m, c in val.t.items():
            for a, e in m:
                k = s.A.keys[a]
                if k[0] == "load" and e == 1:
                    fl = P.field(k[1])
                    rest = Poly({tuple(x for x in m if x[0] != a): c})
                    if fl is not None and fl[0] not in ("Volume",):
                        parts.append((fl[0], fl[2], st.last, rest, a))
                        break
                    b = P.buffer(k[1])
                    if b is not None and b[0] in st.held:
                        parts.append((st.held[b[0]][0], b[1], st.held[b[0]][1], rest, a))
                        break
        if not parts:
            return                              # scaling of an entry formed before
        if self.quiet:
            return
        self.ctx.count("tangent entries formed")
        tag, where = self.tag, ins.where()
        key = "%s:%s:" % (short(self.f), parts[0][0])
        if len(parts) != 2 or len(val.t) != 2:
            self.ctx.undecided("%s: %s: entry is %s" % (tag, where, s.show(val, 3)[:160]))
            return
        (l1, o1, p1, c1, _), (l2, o2, p2, c2, _) = parts
        bad = None
        if l1 != l2 or o1 != o2:
            bad = ("pair", "the entry subtracts different components: %s and %s" % (s.show(o1, 3)[:60], s.show(o2, 3)[:60]))
        elif p1 is None or p2 is None:
            bad = ("unknown", "the evaluation that one of the subtracted values comes from differs between the ways to this entry")
        else:
            d1, d2 = (p[2] if p else ZERO for p in (p1, p2))
            at = [p for p in (p1, p2) if p]
            if not at:
                bad = ("same", "both subtracted values come from the unperturbed state")
            elif len(at) == 2 and at[0][:2] != at[1][:2]:
                bad = ("place", "the subtracted values come from perturbations of different unknowns")
            elif not (c1 + c2).is_zero() or s.mul(c1, d1 - d2) != Poly.const(1):
                bad = ("quotient", "the difference is divided by something else than the distance %s between the evaluations" % s.show(d1 - d2, 3)[:60])
            else:
                lab, off = at[0][:2]
                bad = self.place(row, l1, o1, "row") or self.place(col, lab, off, "column")
                self.filled.add((l1, lab))
        self.ctx.obligation(bad is None)
        if bad:
            self.ctx.violation(key + bad[0], where, "%s: %s" % (tag, bad[1]))
        else:
            self.ctx.sample("%s: d %s / d %s formed from evaluations %s apart" % (tag, l1, at[0][0], s.show(d1 - d2, 3)[:40]))

    def place(self, index, label, off, what):
        P = self.P
        ln = LENGTH.get(label, 1)
        pc = P.component(off.scale(1 / Poly.const(8).const_value()), ln)
        if pc is None:
            return ("stride", "%s is addressed with a stride other than its own %d components: %s" % (label, ln, self.s.show(off, 3)[:80]))
        p, d = pc
        start = 0 if ln == 3 else 3 * P.disp
        if index != p.scale(P.ndof) + d + Poly.const(start):
            return (what, "the %s %s of the entry is not the one of the %s value it belongs to" % (what, self.s.show(index, 3)[:80], label))
        return None


def short(f):
    return f.dem.split("(")[0].split("::")[-1]


def switches(f):
    """Integer arguments tested against constants, with the values that matter."""
    s = Sem(f, extern=common_calls)
    dom = {}
    ids = {a["id"] for a in f.args if a["t"].startswith("i")}
    for ins in f.instrs():
        if ins.op == "icmp" and ins.x["p"] in ("eq", "ne"):
            for x, y in ((ins.a[0], ins.a[1]), (ins.a[1], ins.a[0])):
                if isinstance(x, int) and x in ids and isinstance(y, dict) and y["k"] == "i":
                    dom.setdefault(x, set()).add(int(y["v"]))
        elif ins.op == "switch" and isinstance(ins.a[0], int) and ins.a[0] in ids:
            dom.setdefault(ins.a[0], set()).update(int(c[0]) for c in ins.x["cases"])
    return {k: sorted(v | ({1 - min(v)} if len(v) == 1 and min(v) in (0, 1) else set())) for k, v in dom.items()}


def run(ctx):
    ctx.rule = ("Every tangent evaluation that calls a material evaluation is value-numbered for each choice of unknowns and difference scheme; a "
                "forward dataflow tracks how far each model quantity is from its unperturbed value. At each evaluation at most one unknown (with "
                "its rate) is displaced, at each loop pass and return none is, values are put back without arithmetic, and each tangent entry is "
                "the difference of two evaluations over the distance between them, stored in the row and column of the values it relates.")
    ctx.assumptions += ["material evaluations do not change positions, velocities or temperatures at the new time level (part of C08)",
                        "floating-point arithmetic in difference quotients read as real arithmetic"]
    P = front.program(ROOTS, OPTS)
    items = []
    for f in P.functions:
        if not any(is_evaluation(i) for i in f.instrs()):
            continue
        ctx.count("tangent evaluations with probes")
        sw = switches(f)
        for disp, temp in ((1, 0), (0, 1), (1, 1)):
            for vs in itertools.product(*[sw[k] for k in sorted(sw)]):
                items.append((f, disp, temp, {k: Poly.const(v) for k, v in zip(sorted(sw), vs)}))
    spread(ctx, items, one)
    ctx.need("tangent evaluations with probes", 1)
    ctx.need("evaluations probed", 6)
    ctx.need("tangent entries formed", 4)


def one(ctx, item):
    f, disp, temp, pin = item
    P = Pinned(f, disp, temp, pin)
    un = " and ".join(["displacement"] * disp + ["temperature"] * temp)
    tag = "%s with %s unknown%s" % (short(f), un, "".join(", switch %d = %s" % (n, v.const_value()) for n, v in enumerate(pin.values())))
    ctx.count("variants followed")
    pr = Probe(ctx, P, tag)
    pr.run()
    if not pr.filled:
        return
    if disp and temp and "all" not in pr.filled:
        ctx.obligation(False)
        ctx.violation("%s:coupling" % short(f), next(iter(f.instrs())).where(), "%s: the entries relating forces to temperatures and fluxes to positions are never set before the tangent is assembled" % tag)
    else:
        ctx.obligation()
