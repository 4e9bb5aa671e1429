"""C22: every evaluation sees the current state of the simulation.

Exchange analysis of the driver: which global vector is handed to which model
quantity, and whether every path from a change of a state vector to an evaluation
passes a hand-over of that vector."""
from ..exchange import ADD, INSERT, driver, fn
from ..poly import Poly
from ..whole import whole

STATE = {"Displacement", "Coordinates", "Velocity", "Temperature", "Temperature_Change", "Concentration"}
COUPLED = {"Fluid_Pressure_U", "Fluid_Pressure_Y", "Fluid_Pressure_V"}
NP1 = 3


def run(ctx):
    ctx.rule = ("All exchanges between the driver's vectors and the blocks are resolved to (vector, quantity, time level, mode). A "
                "vector that is not a scratch vector is exchanged with one quantity only, and a quantity with one such vector; data "
                "go to the blocks by replacement at the new time level and come back by summation. On every path to an evaluation, "
                "every state vector is handed to the blocks after its last change in the driver.")
    ctx.assumptions += ["a loop over the blocks visits all of them", "boundary conditions are applied to the driver's vectors in place"]
    table(ctx)
    settings()
    for f in whole().funcs:
        if f.dem.startswith("PeridigmNS::Peridigm::"):
            F = fn(f.dem)
            ctx.count("evaluations reached", sum(o.kind == "eval" and o.vec[1] == "evalModel" for o in F.ops))
            fresh(ctx, F)
            touching(ctx, F)
    ctx.need("exchanges resolved", 25)
    ctx.need("evaluations reached", 1)
    ctx.need("changes followed to contact", 2)
    ctx.need("state hand-overs required", 6)


def name(F):
    return F.f.dem.split("(")[0].replace("PeridigmNS::", "")


def table(ctx):
    by_vec, by_lab, scratch = {}, {}, set()
    for F in driver():
        if not F.f.dem.startswith("PeridigmNS::Peridigm::"):
            continue
        for o in F.ops:
            if o.kind == "export":
                scratch.add(o.vec)
    for F in driver():
        if not F.f.dem.startswith("PeridigmNS::Peridigm::"):
            continue
        for o in F.ops:
            if o.kind not in ("import", "export"):
                continue
            ctx.count("exchanges")
            if len(o.fid) != 1:
                continue
            ctx.count("exchanges resolved")
            lab, = o.fid
            where = "%s (%s)" % (o.ins.where(), o.ins.func())
            ok = o.mode == (INSERT if o.kind == "import" else ADD)
            ctx.obligation(ok)
            if not ok:
                ctx.violation("%s:%s:mode" % (name(F), lab), where, "%s exchanges %s with the blocks in the wrong combine mode" % (name(F), lab), path=[o.ins.path()])
            if o.kind == "import" and o.vec[0] == "m" and o.vec not in scratch:
                by_vec.setdefault(o.vec, {}).setdefault(lab, []).append((F, o))
                by_lab.setdefault(lab, {}).setdefault(o.vec, []).append((F, o))
                ok = o.step == NP1 or constructing(F)
                ctx.obligation(ok)
                if not ok:
                    ctx.violation("%s:%s:level" % (name(F), lab), where, "%s hands %s to the blocks at a time level other than the new one" % (name(F), lab), path=[o.ins.path()])
    for t, what in ((by_vec, "vector"), (by_lab, "quantity")):
        for k, d in t.items():
            ctx.count("%s pairings" % what)
            ctx.obligation(len(d) == 1)
            if len(d) > 1:
                many = max(d, key=lambda x: len(d[x]))
                for x, us in d.items():
                    if x is many:
                        continue
                    F, o = us[0]
                    ctx.violation("%s:%s:pair" % (name(F), sorted(o.fid)[0]), "%s (%s)" % (o.ins.where(), o.ins.func()),
                                  "%s hands %s to the blocks from a different vector than everywhere else (or the vector to a different quantity)" % (name(F), sorted(o.fid)[0]),
                                  path=[o.ins.path()])
    global OWNER, CONTACT
    OWNER = {}
    CONTACT = set(o.vec for F in driver() for o in F.ops if o.kind == "contact" and o.vec[0] == "m")
    for v, d in by_vec.items():
        OWNER[v] = max(d, key=lambda x: len(d[x]))


def constructing(F):
    return F.f.dem.startswith("PeridigmNS::Peridigm::Peridigm(")


def viewed(F, p):
    """Vectors whose storage an address lies in."""
    s = F.s
    b, off = s.base_of(p) if p.t else (None, None)
    todo, out = [b], set()
    seen = set()
    while todo:
        a = todo.pop()
        if a is None or a in seen:
            continue
        seen.add(a)
        k = s.A.keys[a]
        if k[0] == "view":
            out.add(F.vector(k[1]))
        elif k[0] == "call":
            inf = s.A.info[a]
            if (inf.get("name") or "").endswith("Vector::operator[]") and inf.get("args"):
                out.add(F.vector(inf["args"][0]))
        elif k[0] in ("phi", "sel"):
            for x in k[1:]:
                for q in x if isinstance(x, tuple) else (x,):
                    if isinstance(q, Poly) and q.t:
                        todo.append(s.base_of(q)[0])
    return out


def changes(F):
    """(instruction, vector) for every change of a vector in the function."""
    s = F.s
    out = [(o.ins, o.vec) for o in F.ops if o.kind in ("reset", "set", "add", "export")]
    for ins, addr, val, ver in s.stores:
        out += [(ins, v) for v in viewed(F, addr)]
    for ins, bc, A, mem in s.calls:
        if bc and ("applyBoundaryConditions" in bc or "applyInitialConditions" in bc):
            out += [(ins, v) for v, lab in OWNER.items() if lab in STATE | COUPLED]
        elif bc and bc.endswith("applyForceContributions"):
            out += [(ins, v) for v, lab in OWNER.items() if lab == "External_Force_Density"]
        elif bc and bc.endswith("ContactManager::exportData") and len(A) > 1:
            out.append((ins, F.handle(A[1], ins)))
        elif bc and bc.startswith("Epetra_BLAS"):
            vs = [viewed(F, x) for x in A[1:]]
            vs = [x for x in vs if x]
            out += [(ins, v) for v in vs[-1]] if vs else []
    return out


class Flow:
    """Events of one vector in one function: change (W), hand-over (H), use by the
    models or by the output (E)."""
    def __init__(self, F, vec, use="eval"):
        self.F, self.f, self.vec = F, F.f, vec
        self.ev = []
        self.start = USED.get((vec, use == "contact"), frozenset())
        f = F.f
        for i, v in changes(F):
            if v == vec:
                self.ev.append((i.blk, i.pos, 0, "W", i))
        for o in F.ops:
            if o.kind == ("contact" if use == "contact" else "import") and o.vec == vec:
                self.ev.append((o.ins.blk, o.ins.pos, 0, "H", o.ins))
                n = f.nest(o.ins.blk)
                if n and self.every_round(n[0], o.ins.blk):
                    # the loop over the blocks hands the vector to all of them
                    self.ev.append((f.loops[n[0]].h, -1, 0, "H", o.ins))
            elif o.kind == ("eval" if use == "contact" else use):
                self.ev.append((o.ins.blk, o.ins.pos, 0, "E", o.ins))
        for i, dem in helpers(F):
            for k, kind in enumerate("EHW"):
                if kind in summary(dem, vec, use):
                    self.ev.append((i.blk, i.pos, k, kind, i))
        self.ev.sort(key=lambda e: e[:3])
        self.at = {}
        for e in self.ev:
            self.at.setdefault(e[0], []).append(e)
        self.flags = self.relevant()

    def flag(self, b):
        """(member offset, value on the first successor) of a branch on a member flag."""
        s, f = self.F.s, self.f
        t = f.blocks[b][-1]
        if t.op != "br" or len(f.succ[b]) != 2 or not t.a:
            return None
        c = s.opv(t.a[0])
        for p, v in ((c, True), (Poly.const(1) - c, False)):
            a = p.atoms()
            if len(p.t) == 1 and len(a) == 1 and p.const_value() is None:
                k = s.A.keys[next(iter(a))]
                if k[0] == "load":
                    bb, off = s.base_of(k[1])
                    if bb == self.F.this and off.const_value() is not None:
                        return int(off.const_value()), v
        return None

    def relevant(self):
        """Flags that decide whether some event of this vector takes place."""
        f = self.f
        by = {}
        for b in f.rpo:
            x = self.flag(b)
            if x:
                by.setdefault(x[0], {})[b] = x[1]
        out = {}
        for off, br in by.items():
            for val in (True, False):
                seen = self.under(br, val)
                if any(e[0] not in seen for e in self.ev) or (off, val) in self.start:
                    out[off] = br
        self.by = by
        return out

    def under(self, br, val):
        """Blocks reachable when the flag tested by the branches br has the value val."""
        seen, todo = {0}, [0]
        while todo:
            b = todo.pop()
            for n in self.next(b, br, val):
                if n not in seen:
                    seen.add(n)
                    todo.append(n)
        return seen

    def every_round(self, L, blk):
        """No round of loop L avoids the block, in the setting under consideration."""
        f = self.f
        lp = f.loops[L]
        seen, todo = {lp.h}, [lp.h]
        while todo:
            b = todo.pop()
            x = self.flag(b)
            ss = f.succ[b]
            if x and x[0] in dict(self.start):
                ss = [ss[0] if (x[0], x[1]) in self.start else ss[1]]
            for n in ss:
                if n == lp.h:
                    return blk == lp.h
                if n in lp.b and n != blk and n not in seen:
                    seen.add(n)
                    todo.append(n)
        return True

    def next(self, b, br, val):
        ss = self.f.succ[b]
        return [ss[0] if br[b] == val else ss[1]] if b in br else ss

    def steps(self, b, known):
        f = self.f
        for off, br in self.flags.items():
            if b in br:
                ss = f.succ[b]
                for k, x in enumerate(ss):
                    val = br[b] if k == 0 else not br[b]
                    if (off, not val) not in known:
                        yield x, known | {(off, val)}
                return
        for x in f.succ[b]:
            yield x, known

    def before(self, blk):
        """Flag values possible on arrival in a block."""
        if not hasattr(self, "_arr"):
            self._arr = {}
            todo = [(0, self.start)]
            seen = set(todo)
            while todo:
                b, k = todo.pop()
                self._arr.setdefault(b, set()).add(k)
                for n in self.steps(b, k):
                    if n not in seen:
                        seen.add(n)
                        todo.append(n)
        return self._arr.get(blk, set())

    def forward(self, start, stop="H"):
        """Events reached from the entry (None) or from just after an event without a
        hand-over in between; also whether the function's end is."""
        f = self.f
        hit, end = [], False
        if start is None:
            todo = [(0, k, 0) for k in self.before(0)]
        else:
            todo = [(start[0], k, self.at[start[0]].index(start) + 1) for k in self.before(start[0])]
        seen = set()
        while todo:
            b, k, j = todo.pop()
            cut = False
            for e in self.at.get(b, ())[j:]:
                if e[3] == "E":
                    hit.append(e)
                elif e[3] == stop:
                    cut = True
                    break
            if cut:
                continue
            if f.blocks[b][-1].op == "ret":
                end = True
            for n, k2 in self.steps(b, k):
                if (n, k2) not in seen and not f.can_throw_only(n):
                    seen.add((n, k2))
                    todo.append((n, k2, 0))
        return sorted(set(hit), key=lambda e: e[:3]), end


_sum = {}
USED = {}


def setting(vec, use="eval"):
    """Setting under which an optional hand-over takes place at all: the flag values
    under which the functions that do it selectively do so."""
    need = set()
    for F in driver():
        if F.f.dem.startswith("PeridigmNS::Peridigm::") and not constructing(F):
            hs = [o.ins.blk for o in F.ops if o.kind == ("contact" if use == "contact" else "import") and o.vec == vec]
            if hs:
                w = Flow(F, vec, use)
                need |= set((off, val) for off, br in w.by.items() for val in (True, False) if not set(hs) & w.under(br, not val))
    return frozenset(need)


def settings():
    USED.clear()
    _sum.clear()
    opt = {(v, False): setting(v) for v, lab in OWNER.items() if lab in COUPLED}
    opt.update({(v, True): setting(v, "contact") for v in CONTACT})
    _sum.clear()
    USED.update(opt)


def summary(dem, vec, use):
    """What calling a driver function means for a vector: E - evaluates before any
    hand-over, H - hands over on every path, W - leaves changes behind."""
    key = (dem, vec, use)
    if key not in _sum:
        _sum[key] = ""
        w = Flow(fn(dem), vec, use)
        hit, end = w.forward(None)
        if OWNER.get(vec) in COUPLED and not carries(fn(dem), vec):
            hit = []  # a solver without the coupled quantity
        out = ("E" if hit else "") + ("" if end else "H")
        if any(e[3] == "W" and w.forward(e)[1] for e in w.ev):
            out += "W"
        _sum[key] = out
    return _sum[key]


def helpers(F):
    for ins, bc, A, mem in F.s.calls:
        if bc and bc.startswith("PeridigmNS::Peridigm::") and A and ins.callee in whole().by_dem and F.place(A[0]) == ("m", 0) and ins.callee != F.f.dem:
            yield ins, ins.callee


def called_by_driver(dem):
    return [c for c, _ in whole().callers.get(dem, ()) if c.dem.startswith("PeridigmNS::Peridigm::")]


def fresh(ctx, F):
    f = F.f
    for vec, lab in sorted(OWNER.items(), key=lambda x: x[1]):
        if lab not in STATE | COUPLED:
            continue
        w = Flow(F, vec)
        evals = [e for e in w.ev if e[3] == "E"]
        if not evals:
            continue
        if lab in STATE:
            hit, _ = w.forward(None)
            passed_on = hit and called_by_driver(f.dem)
            for e in evals:
                ctx.count("state hand-overs required")
                ok = e not in hit or bool(passed_on)
                ctx.obligation(ok)
                if not ok:
                    ctx.violation("%s:%s:missing" % (name(F), lab), "%s (%s)" % (e[4].where(), e[4].func()),
                                  "%s evaluates the models without handing them the current %s on every path" % (name(F), lab), path=[e[4].path()])
        for c in w.ev:
            if c[3] != "W" or lab in COUPLED and not direct(F, c[4]) and not carries(F, vec):
                continue
            ctx.count("changes of state followed")
            hit, _ = w.forward(c)
            ctx.obligation(not hit)
            if not hit:
                ctx.sample("%s: %s changed at %s reaches an evaluation only after a hand-over" % (name(F), lab, c[4].where()))
            else:
                ctx.violation("%s:%s:stale" % (name(F), lab), "%s (%s)" % (c[4].where(), c[4].func()),
                              "%s changes %s and then evaluates the models (%s) without handing over the new values" % (name(F), lab, hit[0][4].where().split("/")[-1]), path=[c[4].path()])


def touching(ctx, F):
    """The contact search and the contact models work on their own copy of the state."""
    for vec in sorted(CONTACT):
        if vec not in OWNER or not any(o.kind == "contact" and o.vec == vec for o in F.ops):
            continue
        w = Flow(F, vec, "contact")
        hit, _ = w.forward(None)
        for c in [None] + [e for e in w.ev if e[3] == "W"]:
            hit, _ = w.forward(c)
            ctx.count("changes followed to contact")
            ctx.obligation(not hit)
            if hit:
                at = (c or hit[0])[4]
                ctx.violation("%s:%s:contact" % (name(F), OWNER[vec]), "%s (%s)" % (at.where(), at.func()),
                              "%s evaluates contact (%s) with outdated %s" % (name(F), hit[0][4].where().split("/")[-1], OWNER[vec]), path=[at.path()])


def carries(F, vec):
    return any(o.kind == "import" and o.vec == vec for o in F.ops)


def direct(F, ins):
    return not any(i is ins and bc and ("applyBoundary" in bc or "applyInitial" in bc) for i, bc, A, m in F.s.calls)
