"""Model classes (materials, damage, contact, derived quantities): which data
field each member refers to, and what each memory access addresses."""
from fractions import Fraction
from . import front
from .poly import Poly, ZERO, ONE
from .sem import Sem, Event

NOINLINE = "^PeridigmNS::(DataManager|FieldManager|FieldSpec|InfluenceFunction|HorizonManager|BoundaryAndInitialConditionManager|State|DegreesOfFreedomManager)::"
OPTS = ["--noinline", NOINLINE]
REL = {1: "NODE", 2: "ELEMENT", 3: "BOND", 4: "GLOBAL"}
LEN = {1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 6: 6, 7: 7, 8: 8, 9: 9, 10: 1, 11: 3, 12: 6, 13: 9}
TEMP = {1: "CONSTANT", 2: "TWO_STEP"}
STEP = {1: "NONE", 2: "N", 3: "NP1"}


class Spec:
    """What a registration says about a quantity."""
    __slots__ = ("label", "rel", "len", "temp")

    def __init__(self, label, rel=None, ln=None, temp=None):
        self.label, self.rel, self.len, self.temp = label, rel, ln, temp

    def __repr__(self):
        return "%s[%s,%s,%s]" % (self.label, REL.get(self.rel), self.len, TEMP.get(self.temp))


def str_of(sem, ins, addr):
    """Literal text of the string object at addr, if known."""
    v = sem.deref(ins, addr)
    for a in v.atoms():
        k = sem.A.keys[a]
        if k[0] == "str" and len(v.t) == 1:
            return k[1]
    return None


def common_calls(sem, ins, bc, A):
    """Call models shared by constructors and evaluations."""
    if bc is None:
        return None
    if bc == "PeridigmNS::FieldManager::self":
        return sem.atom("fieldmanager", ptr=True)
    if bc == "PeridigmNS::FieldManager::getFieldId":
        if len(A) == 5:
            lab = str_of(sem, ins, A[4])
            cs = [x.const_value() for x in A[1:4]]
            sem.events.append(Event("getFieldId", ins, label=lab, rel=cs[0], len=cs[1], temp=cs[2], labaddr=A[4]))
            if lab is not None and all(c is not None for c in cs):
                return sem.atom("field", lab, int(cs[0]), int(cs[1]), int(cs[2]))
        else:
            lab = str_of(sem, ins, A[1])
            sem.events.append(Event("getFieldId", ins, label=lab, rel=None, len=None, temp=None, labaddr=A[1]))
            if lab is not None:
                return sem.atom("field", lab, None, None, None)
        return None
    if bc.startswith("Teuchos::ParameterList::get<") or bc == "Teuchos::ParameterList::sublist":
        lab = str_of(sem, ins, A[1])
        sem.events.append(Event("param", ins, list=A[0], label=lab, fn=bc, default=A[2] if len(A) > 2 else None))
        return sem.atom("param", A[0], lab if lab is not None else "?%d" % ins.id, ptr=True, fn=bc)
    if bc.startswith(("Teuchos::ParameterList::isParameter", "Teuchos::ParameterList::isSublist", "Teuchos::ParameterList::isType<")):
        lab = str_of(sem, ins, A[1])
        return sem.atom("isparam", A[0], lab if lab is not None else "?%d" % ins.id)
    if bc.startswith("std::vector<int") and bc.endswith("::push_back") and len(A) == 2:
        v = sem.do_load(ins, A[1], 4, False)
        sem.events.append(Event("push", ins, vec=A[0], val=v))
        return True
    if bc in ("PeridigmNS::InfluenceFunction::self",):
        return sem.atom("influence", ptr=True)
    if bc == "PeridigmNS::InfluenceFunction::getInfluenceFunction":
        return sem.atom("influencefn", A[0], ptr=True)
    if bc == "PeridigmNS::HorizonManager::self":
        return sem.atom("horizonmanager", ptr=True)
    return None


class ClassInfo:
    def __init__(self, name):
        self.name = name
        self.members = {}      # offset -> Poly at end of construction
        self.ctor = None       # Sem
        self.methods = {}      # kind -> Func


class Models:
    """All concrete classes derived from the given bases, with constructors analysed."""
    def __init__(self, bases, methods, opts=OPTS, extra=()):
        specs = []
        for b in bases:
            specs.append("ctor:" + b)
            specs.append("vt:%s:%s" % (b, ",".join(methods)))
        self.P = front.program(specs + list(extra), opts)
        self.classes = {}
        for f in self.P.functions:
            if not f.cls:
                continue
            c = self.classes.setdefault(f.cls, ClassInfo(f.cls))
            if f.kind == "ctor":
                if c.ctor is None or len(f.args) >= len(c.ctor_f.args):
                    c.ctor_f = f
                    c.ctor = True
            else:
                c.methods[f.kind] = f
        for c in self.classes.values():
            if c.ctor:
                c.ctor = Sem(c.ctor_f, extern=common_calls)
                self._members(c)

    def concrete(self):
        return [c for c in self.classes.values() if c.methods]

    def _members(self, c):
        s = c.ctor
        f = s.f
        this = s.A.tab.get(("arg", f.args[0]["id"]))
        rets = [b for b in f.rpo if f.blocks[b] and f.blocks[b][-1].op == "ret"]
        addrs = {}
        for ins, addr, val, ver in s.stores:
            b, off = s.base_of(addr)
            if b == this and off.is_const():
                addrs[int(off.const_value())] = (addr, ins.x.get("sz", 8))
        for off, (addr, sz) in addrs.items():
            for b in rets:
                v, ver = s.lookup(this, addr, sz, s.mem_out[b].get(this))
                if v is not None:
                    c.members[off] = v

    def member_fields(self, c, off):
        """Specs a member may hold (ignoring 'not set' constants)."""
        v = c.members.get(off)
        if v is None:
            return []
        return fields_in(c.ctor, v)


def fields_in(sem, v):
    out = []
    for a in v.atoms():
        k = sem.A.keys[a]
        if k[0] == "field":
            out.append(k)
        elif k[0] in ("phi", "sel"):
            for x in k[1:]:
                for y in (x if isinstance(x, tuple) else (x,)):
                    if isinstance(y, Poly):
                        out += fields_in(sem, y)
    seen, r = set(), []
    for k in out:
        if k not in seen:
            seen.add(k)
            r.append(k)
    return r


class Access:
    """A resolved address: field, time level, and byte offset inside the field's view."""
    __slots__ = ("key", "label", "rel", "len", "temp", "step", "off", "fid", "cands")


class Eval:
    """One evaluation method of one class, value-numbered, with field names resolved."""
    def __init__(self, models, c, kind, subst=None, local=None):
        self._local = local
        self.models, self.c, self.kind = models, c, kind
        self.f = c.methods[kind]
        self._fcache = {}
        self._subst = subst
        self.sem = Sem(self.f, extern=common_calls, subst=self.substitute if subst else None, is_positive=self.positive)
        self.sem.names = self.name_atom
        self.this = self.sem.A.tab.get(("arg", self.f.args[0]["id"]))

    def substitute(self, sem, ins, addr):
        self.sem = sem
        self.this = sem.A.tab.get(("arg", self.f.args[0]["id"]))
        a = self.access(addr)
        if a is None:
            return self._local(self, ins, addr) if self._local else None
        self._addr = addr
        return self._subst(self, ins, a)

    def positive(self, sem, a):
        self.sem = sem
        k = sem.A.keys[a]
        if k[0] == "load":
            self.this = sem.A.tab.get(("arg", self.f.args[0]["id"]))
            ac = self.access(k[1])
            return ac is not None and ac.label in ("Volume", "Horizon", "Weighted_Volume")
        return False

    # field of an id polynomial
    def fields_of_id(self, fid):
        r = self._fcache.get(fid)
        if r is None:
            r = []
            s = self.sem
            for a in fid.atoms():
                k = s.A.keys[a]
                if k[0] == "field":
                    r.append(k)
                elif k[0] == "load":
                    b, off = s.base_of(k[1])
                    if b == self.this and off.is_const():
                        r += self.models.member_fields(self.c, int(off.const_value()))
                elif k[0] in ("phi", "sel"):
                    for x in k[1:]:
                        for y in (x if isinstance(x, tuple) else (x,)):
                            if isinstance(y, Poly):
                                r += self.fields_of_id(y)
            self._fcache[fid] = r
        return r

    def vec_info(self, vec):
        """(field keys, step) of a vector handle polynomial, possibly through merges."""
        s = self.sem
        out = []
        for a in vec.atoms():
            k = s.A.keys[a]
            if k[0] == "vec":
                st = k[3].const_value()
                for fk in self.fields_of_id(k[2]) or [("field", "?" + s.show(k[2], 3), None, None, None)]:
                    out.append((fk, STEP.get(int(st)) if st is not None else "?"))
            elif k[0] in ("phi", "sel", "final"):
                for x in k[1:]:
                    for y in (x if isinstance(x, tuple) else (x,)):
                        if isinstance(y, Poly):
                            out += self.vec_info(y)
        return out

    def base_fields(self, base):
        """Fields a base atom may be a view of."""
        s = self.sem
        k = s.A.keys[base]
        if k[0] == "view":
            return self.vec_info(k[1])
        if k[0] in ("phi", "sel", "rec", "final"):
            out = []
            for x in k[1:]:
                for y in (x if isinstance(x, tuple) else (x,)):
                    if isinstance(y, Poly):
                        b, _ = s.base_of(y)
                        if b is not None:
                            out += self.base_fields(b)
            if k[0] == "rec":
                st = s.A.info[base].get("start")
                if st is not None:
                    b, _ = s.base_of(st)
                    if b is not None and b != base:
                        out += self.base_fields(b)
            return out
        return []

    def access(self, addr):
        s = self.sem
        b, off = s.base_of(addr)
        if b is None:
            return None
        fs = []
        for x in self.base_fields(b):
            if x not in fs:
                fs.append(x)
        if not fs:
            return None
        a = Access()
        (fk, st) = fs[0]
        a.key, a.label, a.rel, a.temp, a.step = (fk, st), fk[1], REL.get(fk[2]), TEMP.get(fk[4]), st
        a.len = LEN.get(fk[3])
        a.off = off
        a.cands = fs
        a.fid = b
        return a

    def name_atom(self, a):
        s = self.sem
        k = s.A.keys[a]
        if k[0] == "view":
            fs = self.base_fields(a)
            if fs:
                return "&%s(%s)" % (fs[0][0][1], fs[0][1])
        if k[0] == "load":
            ac = self.access(k[1])
            if ac is not None:
                return "%s.%s[%s]" % (ac.label, ac.step, s.show(ac.off.scale(Fraction(1, 8)), 3))
            b, off = s.base_of(k[1])
            if b == self.this and off.is_const():
                n = self.member_name(int(off.const_value()))
                if n:
                    return n
        return None

    def member_params(self, off):
        """Input parameters that may determine a member."""
        v = self.c.members.get(off)
        out = []
        if v is not None and self.c.ctor is not None:
            def pred(k):
                if k[0] == "param" and isinstance(k[2], str) and k[2] not in out:
                    out.append(k[2])
                return False
            self.c.ctor.depends(v, pred)
        return out

    def member_name(self, off):
        """Readable name of a scalar member: the input parameter it was read from."""
        v = self.c.members.get(off)
        if v is None or self.c.ctor is None:
            return "this+%d" % off
        cs = self.c.ctor
        for a in v.atoms():
            k = cs.A.keys[a]
            if k[0] == "load":
                for b in k[1].atoms():
                    kb = cs.A.keys[b]
                    if kb[0] == "param":
                        return "<%s>" % kb[2]
        return "this+%d" % off
