"""C01: pairwise interactions balance exactly.

For every loop over neighbors that accumulates into a point-wise field at the
neighbor, the sum over all accumulations of one iteration of
(volume of the point) * (increment) must be the zero polynomial, separately
for each field and component."""
from ..poly import Poly, ZERO
from ..universe import each, short, MATERIAL, CONTACT
from ..pair import increments, neighbor_loops, desum, has_tsum, is_neighbor_index

MUST_BALANCE = {"Force_Density", "Contact_Force_Density", "Flux_Density"}


def volume_views(e):
    """Bases through which the Volume field is read."""
    s = e.sem
    out = []
    for ins, addr, v in s.loads:
        b, off = s.base_of(addr)
        if b is not None and b not in out:
            a = e.access(addr)
            if a is not None and a.label == "Volume":
                out.append(b)
    return out


def run(ctx):
    ctx.rule = ("For each material/contact evaluation: value-number the inlined code, collect every accumulation into a "
                "point-wise field inside a loop over neighbors, and require sum(volume(point) * increment) over the "
                "accumulations of one iteration to be the zero polynomial, per field and component.  Non-trivial: an "
                "iteration that accumulates at the neighbor.")
    ctx.assumptions += ["floating-point arithmetic read as real arithmetic (bitwise rounding ignored)",
                        "views of different fields do not overlap",
                        "influence functions are pure functions of their arguments"]
    each(ctx, one, ["computeForce", "computeFluxDivergence"], [MATERIAL, CONTACT])
    ctx.need("evaluations analysed", 20)
    ctx.need("neighbor iterations balanced", 25)


def one(ctx, c, kind, e):
    ctx.count("evaluations analysed")
    s = e.sem
    incs = increments(e)
    ctx.count("field stores examined", len(incs))
    nl = neighbor_loops(e, incs)
    vols = volume_views(e)
    done = set()
    for L, nbs in sorted(nl.items()):
        fields = []
        for i in nbs:
            if i.acc.key not in fields:
                fields.append(i.acc.key)
        for key in fields:
            group = [i for i in incs if i.acc.key == key and i.idx is not None and L in e.f.nest(i.ins.blk)]
            late = []
            for i in incs:
                if i.acc.key == key and i.idx is not None and L not in e.f.nest(i.ins.blk) and has_tsum(e, i.inc, L):
                    late.append(i)
            ncomp = nbs[0].acc.len
            label = key[0][1]
            for comp in range(ncomp):
                g = [i for i in group if i.comp == comp]
                if not g:
                    continue
                ctx.count("neighbor iterations balanced")
                ctx.count("accumulations", len(g))
                where = "%s (%s)" % (g[0].ins.where(), g[0].ins.func())
                name = "%s::%s %s[%d]" % (short(c), kind, label, comp)
                ok, res = balance(e, L, g, [i for i in late if i.comp == comp], vols, key)
                ctx.obligation(ok)
                for i in g:
                    done.add(id(i))
                for i in late:
                    done.add(id(i))
                if ok:
                    ctx.sample("%s at %s: %d accumulations cancel" % (name, where, len(g) + len(late)))
                else:
                    ctx.violation("%s::%s:%s" % (short(c), kind, label), where,
                                  "%s: what the pair adds does not cancel" % name, residual=res,
                                  path=[i.ins.path() for i in g])
    for i in incs:
        if i.idx is None and i.acc.label in MUST_BALANCE and i.loop is not None and not i.inc.is_zero():
            ctx.undecided("%s: cannot tell which point and component of %s is written" % (i.ins.where(), i.acc.label))
    # one-sided accumulation of a quantity that has to balance
    for i in incs:
        if i.acc.label in MUST_BALANCE and id(i) not in done and i.idx is not None:
            if not one_sided(e, i):
                continue
            ctx.obligation(False)
            ctx.violation("%s::%s:%s:onesided" % (short(c), kind, i.acc.label), "%s (%s)" % (i.ins.where(), i.ins.func()),
                          "%s::%s adds a pair contribution to %s of one point only" % (short(c), kind, i.acc.label),
                          path=[i.ins.path()])


def one_sided(e, i):
    """Does the increment depend on data of another (neighbor) point?"""
    s = e.sem
    if i.inc.is_zero():
        return False

    def pred(k):
        if k[0] != "load":
            return False
        a = e.access(k[1])
        if a is None or a.rel not in ("NODE", "ELEMENT"):
            return False
        b, off = s.base_of(k[1])
        return any(s.A.keys[x][0] == "load" and s.avar(x) for x in off.atoms()) and not same_point(s, off, i)
    return s.depends(i.inc, pred)


def same_point(s, off, i):
    own = set(i.idx.atoms())
    return bool(own & off.atoms()) or not off.atoms()


def balance(e, L, group, late, vols, key):
    s = e.sem
    f = e.f
    G, edge = s.block_conds(L)
    if not vols:
        return False, "no volume is read"
    best = None
    for vb in vols:
        vp = Poly.atom(vb)
        tot, totx = ZERO, ZERO
        bad = None
        for i in group:
            v = s.loadatom(vp + i.idx.scale(8), vb, None, 8)
            g = G.get(i.ins.blk)
            t = s.mul(v, i.inc)
            tot = tot + t
            totx = totx + s.mul(g, t) if g is not None else totx + t
        for i in late:
            d = desum(e, i.inc, L)
            if d is None:
                bad = i
                break
            v = s.loadatom(vp + i.idx.scale(8), vb, None, 8)
            t = s.mul(v, d)
            tot = tot + t
            totx = totx + t
        if bad is not None:
            best = "%s: accumulated total has other terms" % bad.ins.where()
            continue
        blocks = set(i.ins.blk for i in group)
        uniform = len(set(G.get(b, ZERO) for b in blocks)) == 1 and not late
        if uniform and s.zero(tot):
            return True, None
        x = s.expand(s.bnorm(totx), L)
        bad = None
        for env, y in configurations(e, x):
            if s.zero(y):
                continue
            if bondwise(e, y):
                continue
            bad = y
            break
        if bad is None:
            return True, None
        best = s.show(bad, 4)[:1500]
    return False, best


QUADRATURE = {"Self_Volume", "Neighbor_Volume", "Quadrature_Weights"}


def bondwise(e, p):
    """Does p use per-bond quadrature weights instead of point volumes?"""
    s = e.sem

    def pred(k):
        if k[0] != "load":
            return False
        a = e.access(k[1])
        # a field that construction never registers belongs to a disabled option
        return a is not None and (a.label in QUADRATURE or a.label.startswith("?"))
    return s.depends(p, pred)


def configurations(e, p, limit=6):
    """Truth assignments of the configuration flags (members of the model) p depends on."""
    s = e.sem
    flags = []
    for a in sorted(p.atoms()):
        k = s.A.keys[a]
        if k[0] in ("eq0", "gt0") and not s.avar(a) and all(is_member(e, b) for b in k[1].atoms()):
            flags.append(a)
    flags = flags[:limit]
    for bits in range(1 << len(flags)):
        env = {a: (bits >> n) & 1 for n, a in enumerate(flags)}
        yield env, s.assign(p, env)


def is_member(e, a):
    s = e.sem
    k = s.A.keys[a]
    if k[0] != "load":
        return False
    b, off = s.base_of(k[1])
    return b == e.this and off.is_const()
