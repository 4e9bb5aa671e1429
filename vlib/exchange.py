"""What the driver does with its global vectors: exchanges with the blocks,
resets, updates and evaluations, one record per call."""
import re
from .model import fields_in
from .poly import Poly
from .whole import whole

ADD, INSERT = 0, 2
_x = {}


class Op:
    """kind: import, export, reset, add, set, eval; vec: ('m', offset) or ('l', local)."""
    __slots__ = ("kind", "ins", "vec", "fid", "step", "mode", "src", "val")

    def __init__(self, kind, ins, vec, fid=None, step=None, mode=None, src=None, val=None):
        self.kind, self.ins, self.vec, self.fid, self.step, self.mode, self.src, self.val = kind, ins, vec, fid, step, mode, src, val


def member_fields():
    """Offset in the driver object -> labels of the field identifiers stored there."""
    if "mf" not in _x:
        out = {}
        for f in whole().funcs:
            if not f.dem.startswith("PeridigmNS::Peridigm::"):
                continue
            s = whole().sem(f)
            this = s.A.tab.get(("arg", f.args[0]["id"])) if f.args else None
            for ins, addr, val, ver in s.stores:
                b, off = s.base_of(addr)
                if b == this and off.const_value() is not None:
                    for fk in fields_in(s, val):
                        out.setdefault(int(off.const_value()), set()).add(fk[1])
        _x["mf"] = out
    return _x["mf"]


def labels(s, this, fid):
    out = set(fk[1] for fk in fields_in(s, fid))
    for a in fid.atoms():
        k = s.A.keys[a]
        if k[0] == "load":
            b, off = s.base_of(k[1])
            if b == this and off.const_value() is not None:
                out |= member_fields().get(int(off.const_value()), set())
    return out


class Fn:
    """Exchange records of one function."""
    def __init__(self, f):
        self.f = f
        s = self.s = whole().sem(f)
        self.this = s.A.tab.get(("arg", f.args[0]["id"])) if f.args else None
        self.copies = {}
        self.ops = []
        for ins, bc, A, mem in s.calls:
            if bc and re.match(r"Teuchos::RCP<.*>::RCP", bc) and len(A) == 2:
                self.copies.setdefault(self.place(A[0]), []).append((ins, A[1]))
        for ins, bc, A, mem in s.calls:
            if bc:
                self.record(ins, bc, A)

    def place(self, p):
        """Canonical name of an address: member, local or other."""
        b, off = self.s.base_of(p) if p.t else (None, None)
        if b is None or off.const_value() is None:
            return ("?", self.s.show(p, 3))
        if b == self.this:
            return ("m", int(off.const_value()))
        return ("l", b, int(off.const_value()))

    def handle(self, p, ins=None):
        """Which vector an RCP object at p refers to."""
        q = self.place(p)
        cs = [c for c in self.copies.get(q, ()) if ins is None or self.f.dominates(c[0].blk, ins.blk)]
        if q[0] == "l" and cs:
            return self.handle(cs[-1][1], cs[-1][0])
        return q

    def vector(self, p):
        """Which vector an Epetra pointer/reference p is (pointee of an RCP)."""
        for a in p.atoms():
            k = self.s.A.keys[a]
            if k[0] == "load" and len(p.t) == 1:
                return self.handle(k[1])
            if k[0] == "call" and len(p.t) == 1:
                inf = self.s.A.info[a]
                if re.search(r"RCP<.*>::(operator->|operator\*|get)$", inf.get("name") or "") and inf.get("args"):
                    return self.handle(inf["args"][0])
                return ("?", "call%d" % k[1])
        return self.place(p)

    def record(self, ins, bc, A):
        s = self.s
        m = bc.rsplit("::", 1)[-1]
        if bc.endswith("ContactManager::importData"):
            for a in A[1:]:
                self.ops.append(Op("contact", ins, self.handle(a, ins)))
        elif bc.endswith(("::importData", "::exportData")) and len(A) == 5:
            st, mo = A[3].const_value(), A[4].const_value()
            self.ops.append(Op("import" if m == "importData" else "export", ins, self.handle(A[1], ins), labels(s, self.this, A[2]),
                               st and int(st), None if mo is None else int(mo)))
        elif bc.startswith("Epetra_") and A:
            if m == "PutScalar":
                self.ops.append(Op("reset", ins, self.vector(A[0]), val=A[1].const_value()))
            elif m == "operator=":
                self.ops.append(Op("set", ins, self.vector(A[0]), src=self.vector(A[1])))
            elif m == "Update" and len(A) in (4, 6):
                old = A[3] if len(A) == 4 else A[5]
                self.ops.append(Op("set" if old.is_zero() else "add", ins, self.vector(A[0]), src=self.vector(A[2])))
            elif m in ("Import", "Export") and len(A) >= 4:
                self.ops.append(Op("set" if A[3].const_value() == INSERT else "add", ins, self.vector(A[0]), src=self.vector(A[1])))
            elif m in ("Scale", "Multiply", "Random"):
                self.ops.append(Op("add", ins, self.vector(A[0])))
        elif bc.startswith("PeridigmNS::Peridigm::") and A and self.place(A[0]) == ("m", 0) and ins.callee in whole().by_dem:
            for o in always_resets(ins.callee):
                self.ops.append(Op("reset", ins, o.vec, val=o.val))
        elif bc.endswith("ModelEvaluator::evalModel") or bc.endswith("ModelEvaluator::evalJacobian"):
            self.ops.append(Op("eval", ins, ("call", m)))

        elif re.search(r"OutputManager\w*::write$", bc):
            self.ops.append(Op("output", ins, ("call", m)))
        elif re.search(r"Block\w*::updateState$", bc):
            self.ops.append(Op("advance", ins, ("call", m)))

    def before(self, i, j):
        return i.blk == j.blk and i.pos < j.pos or i.blk != j.blk and self.f.dominates(i.blk, j.blk)


def always_resets(dem):
    """Resets of member vectors that a member function performs on every path."""
    key = ("ar", dem)
    if key not in _x:
        _x[key] = []
        F = fn(dem)
        rets = [b for b in F.f.rpo if F.f.blocks[b][-1].op == "ret"]
        _x[key] = [o for o in F.ops if o.kind == "reset" and o.vec[0] == "m" and not F.f.nest(o.ins.blk) and all(F.f.dominates(o.ins.blk, b) for b in rets)]
    return _x[key]


def fn(dem):
    key = ("fn", dem)
    if key not in _x:
        _x[key] = Fn(whole().by_dem[dem])
    return _x[key]


def driver():
    """Every driver function that exchanges data."""
    if "d" not in _x:
        out = []
        for f in whole().funcs:
            if f.dem.startswith("PeridigmNS::") and any(re.search(r"::(importData|exportData|evalModel|evalJacobian)\(", c) for _, c in whole().callees.get(f.dem, ())):
                out.append(fn(f.dem))
        _x["d"] = out
    return _x["d"]
