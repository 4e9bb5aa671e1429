"""C09: every quantity a model uses is one it has announced, at a time level it has.

Declared-before-use: the constructor's pushes into the list that the class hands to
the data store, with their execution conditions, against the conditions and time
levels of every data access of every evaluation."""
from ..model import STEP, TEMP, common_calls, fields_in
from ..poly import Poly, ONE
from ..registry import registrations
from ..sem import Sem, base_callee
from ..universe import METHODS, each, models, short
from ..whole import whole

# quantities requested by whoever triggers the evaluation
ON_REQUEST = {"computeStoredElasticEnergyDensity": "Stored_Elastic_Energy_Density"}
PURE = ("size", "begin", "end", "reserve", "~vector", "vector", "operator[]", "empty", "data", "capacity", "shrink_to_fit", "back", "front", "at")


class Announced:
    def __init__(self, c):
        s = self.s = c.ctor
        f = s.f
        self.this = s.A.tab.get(("arg", f.args[0]["id"]))
        self.lists = returned_lists(c)
        self.open = False
        self.push = []
        self.G, _ = s.block_conds(None)
        self.rets = [b for b in f.rpo if f.blocks[b] and f.blocks[b][-1].op == "ret"]
        for ev in s.events:
            if ev.kind == "push":
                b, off = s.base_of(ev.d["vec"])
                if b == self.this and off.const_value() in self.lists:
                    self.push += [(v, ev.ins) for v in self.elements(ev.d["val"])]
        for ins, bc, A, mem in s.calls:
            if not bc or "::" not in bc or not A or not bc.startswith("std::"):
                continue
            b, off = s.base_of(A[0]) if A[0].t else (None, None)
            if b != self.this or off is None or off.const_value() not in self.lists:
                continue
            m = bc.rsplit("::", 1)[-1]
            if m in ("push_back", "emplace_back") or m in PURE and len(A) < 2:
                continue
            self.open = True

    def elements(self, v):
        """The value itself, or everything stored in the local array it is an element of."""
        s = self.s
        for a in v.atoms():
            k = s.A.keys[a]
            if k[0] == "load" and len(v.t) == 1:
                b, off = s.base_of(k[1])
                for _ in range(3):
                    if b is not None and s.A.keys[b][0] == "rec":
                        st = s.A.info[b].get("start")
                        b, off = s.base_of(st) if st is not None else (None, None)
                if b is not None and s.A.keys[b][0] == "alloca":
                    return [v] + [st[2] for st in s.stores if s.base_of(st[1])[0] == b]
        return [v]

    def always(self, blk):
        """blk runs in every construction that completes."""
        f = self.s.f
        if self.G.get(blk) == ONE:
            return True
        seen, todo = {0}, [0]
        if blk == 0:
            return True
        while todo:
            b = todo.pop()
            if b in self.rets:
                return False
            for x in f.succ[b]:
                if x != blk and x not in seen:
                    seen.add(x)
                    todo.append(x)
        return True

    def given(self, ins, v, depth=0):
        """v nonzero at the end of construction implies that ins was executed."""
        s, f = self.s, self.s.f
        g = self.G.get(ins.blk)
        if g is not None and implied(s, g, v):
            return True
        for a in v.atoms():
            k = s.A.keys[a]
            if k[0] == "phi" and len(v.t) == 1 and depth < 4:
                ok = True
                for blk, x in zip(k[2], k[3]):
                    if x.is_zero() or f.dominates(ins.blk, blk) or blk == ins.blk:
                        continue
                    if f.control_equiv(ins.blk, blk) or self.given(ins, x, depth + 1) or self.follows(blk, ins.blk):
                        continue
                    ok = False
                return ok
        return False

    def follows(self, b1, b2):
        """The condition of block b1 implies that of block b2 (one shared condition)."""
        g1, g2 = self.G.get(b1), self.G.get(b2)
        if g1 is None or g2 is None or len(g2.atoms()) != 1:
            return False
        a, = g2.atoms()
        return all(not g2.with_atom(a, x).is_zero() or g1.with_atom(a, x).is_zero() for x in (0, 1))


def implied(s, g, v):
    for a in g.atoms():
        k = s.A.keys[a]
        if k[0] == "eq0" and k[1] == v:
            if g.with_atom(a, 0) == ONE:
                return True
    return False


def returned_lists(c):
    """Offsets of the member lists that the class hands out."""
    f = c.methods.get("FieldIds")
    if f is None:
        return set()
    s = Sem(f, extern=common_calls)
    this = s.A.tab.get(("arg", [a for a in f.args if not a["sret"]][0]["id"]))
    out = set()

    def add(p):
        b, off = s.base_of(p)
        if b == this and off.const_value() is not None:
            out.add(off.const_value())
    for ins, bc, A, mem in s.calls:
        for x in A:
            if x.t:
                add(x)
    for k in list(s.A.keys):
        if k[0] in ("load", "vdata"):
            add(k[1])
    return out


_a = {}


def announced(c):
    if c.name not in _a:
        _a[c.name] = Announced(c)
    return _a[c.name]


def constructible(c):
    f = c.ctor_f
    return any(f.blocks[b] and f.blocks[b][-1].op == "ret" for b in f.rpo)


def run(ctx):
    ctx.rule = ("For every data access of every evaluation: the accessed quantity is pushed, in the constructor, into the list the "
                "class returns to the data store, under a condition implied by the condition of the access; the time level "
                "addressed exists for the quantity's temporal kind. Identifier members are resolved to what the constructor stored.")
    ctx.assumptions += ["quantities announced by any model, derived quantity or the driver for a block are allocated in that block",
                        "members that hold options keep the value given by the constructor"]
    global DRIVER, REQUESTED
    DRIVER = driver_labels()
    ctx.info["announced_by_driver"] = sorted(x for x in DRIVER if x)
    REQUESTED = requested(ctx)
    for c in models().concrete():
        if c.ctor and c.ctor is not True and constructible(c):
            a = announced(c)
            ctx.count("announcements", len(a.push))
            ctx.count("classes")
    each(ctx, one, METHODS)
    ctx.need("classes", 45)
    ctx.need("announcements", 380)
    ctx.need("accesses resolved", 900)
    ctx.need("time levels checked", 850)


def requested(ctx):
    """Quantities announced by every derived quantity that writes or reads them."""
    out = set()
    for lab in ON_REQUEST.values():
        users = [c for c in models().concrete() if c.family == "PeridigmNS::Compute" and c.ctor and c.ctor is not True
                 and any(fk[1] == lab for v, _ in announced(c).push for fk in fields_in(c.ctor, v))]
        if users:
            out.add(lab)
    return out


def driver_labels():
    """Labels the driver adds to every block's list."""
    W = whole()
    out = set()
    for f in W.funcs:
        if not f.dem.startswith("PeridigmNS::Peridigm::"):
            continue
        if not any((base_callee(x) or "").endswith("setAuxiliaryFieldIds") for _, x in W.callees.get(f.dem, ())):
            continue
        s = W.sem(f)
        for ev in s.events:
            if ev.kind == "push":
                for fk in fields_in(s, ev.d["val"]):
                    out.add(fk[1])
    return out


def temporal(fk):
    if fk[4] is not None:
        return TEMP.get(fk[4])
    ts = set(TEMP.get(k[2]) for k in registrations().get(fk[1], {}))
    return ts.pop() if len(ts) == 1 else None


def id_values(e, fid):
    """(constructor value or None, field key or None) for each value the identifier may have."""
    s, out = e.sem, []
    for a in fid.atoms():
        k = s.A.keys[a]
        if k[0] == "field":
            out.append((None, k))
        elif k[0] == "load":
            b, off = s.base_of(k[1])
            if b == e.this and off.const_value() is not None:
                v = e.c.members.get(int(off.const_value()))
                fs = fields_in(e.c.ctor, v) if v is not None else []
                out += [(v, x) for x in fs]
                if not fs:
                    out += late(e, int(off.const_value())) or [(v, None)]
            elif b is not None and s.A.keys[b][0] == "vdata":
                vb, voff = s.base_of(s.A.keys[b][1])
                if vb == e.this and voff.const_value() is not None:
                    out += [(v, fk) for v in vector_values(e.c, voff.const_value()) for fk in fields_in(e.c.ctor, v) or [None]] or [(None, None)]
        elif k[0] in ("phi", "sel"):
            for x in k[1:]:
                for y in (x if isinstance(x, tuple) else (x,)):
                    if isinstance(y, Poly):
                        out += id_values(e, y)
    return out


def late(e, off):
    """Identifiers stored into the member by initialize()."""
    f = e.c.methods.get("initialize")
    if f is None:
        return []
    s = Sem(f, extern=common_calls)
    this = s.A.tab.get(("arg", f.args[0]["id"]))
    out = []
    for st in s.stores:
        b, o = s.base_of(st[1])
        if b == this and o.const_value() == off:
            out += [(None, fk) for fk in fields_in(s, st[2])]
    return out


def vector_values(c, off):
    s = c.ctor
    this = s.A.tab.get(("arg", s.f.args[0]["id"]))
    out = []
    for st in s.stores:
        b, o = s.base_of(st[1])
        if b is not None and s.A.keys[b][0] == "vdata":
            vb, vo = s.base_of(s.A.keys[b][1])
            if vb == this and vo.const_value() == off:
                out.append(st[2])
    for ev in s.events:
        if ev.kind == "push":
            b, o = s.base_of(ev.d["vec"])
            if b == this and o.const_value() == off:
                out.append(ev.d["val"])
    return out


def options(e, g):
    """Option members whose being zero rules the access out."""
    s, out = e.sem, []
    for a in g.atoms():
        k = s.A.keys[a]
        if k[0] != "eq0":
            continue
        b, off = (None, None)
        for x in k[1].atoms():
            kk = s.A.keys[x]
            if kk[0] == "load" and len(k[1].t) == 1:
                b, off = s.base_of(kk[1])
        if b == e.this and off is not None and off.const_value() is not None and g.with_atom(a, 1).is_zero():
            v = e.c.members.get(int(off.const_value()))
            if v is not None:
                out.append(v)
    return out


def one(ctx, c, kind, e):
    if not c.ctor or c.ctor is True or not constructible(c):
        return
    s, an = e.sem, announced(c)
    G, _ = s.block_conds(None)
    for ev in s.events:
        if ev.kind != "getData":
            continue
        ctx.count("accesses")
        vals = id_values(e, ev.d["fid"])
        where = "%s (%s)" % (ev.ins.where(), ev.ins.func())
        if not vals:
            ctx.undecided("%s::%s: identifier of the access at %s" % (short(c), kind, where))
            continue
        ctx.count("accesses resolved")
        g = G.get(ev.ins.blk, ONE)
        opts = options(e, g)
        for v, fk in vals:
            name = fk[1] if fk else "quantity named in the input"
            ok = an.open
            for pv, ins in an.push:
                same = fk is not None and any(x[1] == fk[1] for x in fields_in(c.ctor, pv)) or v is not None and pv == v
                if same and (an.always(ins.blk) or any(an.given(ins, o) for o in opts)):
                    ok = True
                    break
            if not ok and fk is not None:
                if ON_REQUEST.get(kind) == fk[1] and fk[1] in REQUESTED:
                    ok = True
                    ctx.count("announced by the requester")
                elif fk[2] is None and fk[1] in DRIVER:
                    ok = True
                    ctx.count("announced by the driver, looked up by name")
            ctx.obligation(ok)
            if ok:
                ctx.sample("%s::%s uses %s at %s: announced" % (short(c), kind, name, where))
            else:
                ctx.violation("%s::%s:%s" % (short(c), kind, name), where,
                              "%s::%s uses %s but the constructor does not announce it whenever this access can happen" % (short(c), kind, name), path=[ev.ins.path()])
            if fk is None:
                continue
            st = ev.d["step"].const_value()
            t = temporal(fk)
            if st is None or t is None:
                ctx.count("time levels chosen at run time")
                continue
            ctx.count("time levels checked")
            ok = (STEP.get(int(st)) == "NONE") == (t == "CONSTANT")
            ctx.obligation(ok)
            if not ok:
                ctx.violation("%s::%s:%s:step" % (short(c), kind, name), where,
                              "%s::%s addresses %s at time level %s, but it is registered as %s" % (short(c), kind, name, STEP.get(int(st)), t), path=[ev.ins.path()])
