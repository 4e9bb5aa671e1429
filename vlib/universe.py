"""The model evaluations analysed by the model-level checks."""
import multiprocessing
import os
from .front import CheckError
from .model import Models, Eval

MATERIAL, DAMAGE, CONTACT, COMPUTE = "PeridigmNS::Material", "PeridigmNS::DamageModel", "PeridigmNS::ContactModel", "PeridigmNS::Compute"
METHODS = ["initialize", "precompute", "computeForce", "computeFluxDivergence", "computeStoredElasticEnergyDensity", "computeDamage", "compute", "pre_compute"]
_m = {}


def models():
    if "m" not in _m:
        _m["m"] = Models([MATERIAL, DAMAGE, CONTACT, COMPUTE], METHODS + ["FieldIds"])
        fam = {}
        for c in _m["m"].P.classes:
            fam[c["name"]] = c["base"]
        for c in _m["m"].classes.values():
            c.family = fam.get(c.name)
    return _m["m"]


def short(c):
    return c.name.replace("PeridigmNS::", "")


def evals(kinds, families=None, subst=None, empty=False):
    """Every analysed evaluation (class, method)."""
    M = models()
    for c in sorted(M.concrete(), key=lambda c: c.name):
        if families and c.family not in families:
            continue
        for k in kinds:
            f = c.methods.get(k)
            if f is None or (not empty and sum(len(b) for b in f.blocks) < 3):
                continue
            yield c, k, Eval(M, c, k, subst=subst)


_job = {}


def _one(n):
    ctx, items, fn = _job["x"]
    sub = ctx.child()
    try:
        fn(sub, items[n])
    except CheckError as e:
        return n, None, str(e)
    return n, sub.delta(), None


def spread(ctx, items, fn):
    """fn(sub, item) for every item, on all cores; results merged in order."""
    items = list(items)
    jobs = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4
    _job["x"] = (ctx, items, fn)
    mp = multiprocessing.get_context("fork")
    with mp.Pool(min(jobs, max(1, len(items)))) as pool:
        res = {}
        for n, d, err in pool.imap_unordered(_one, sorted(range(len(items)), key=lambda n: -weight(items[n])), 1):
            if err is not None:
                raise CheckError(err)
            res[n] = d
    for n in range(len(items)):
        ctx.merge(res[n])


def weight(item):
    c = item[0] if isinstance(item, tuple) else item
    ks = [item[1]] if isinstance(item, tuple) and isinstance(item[1], str) else list(getattr(c, "methods", {}))
    return sum(sum(len(b) for b in c.methods[k].blocks) for k in ks if k in c.methods) if hasattr(c, "methods") else 0


def tasks(kinds, families=None, empty=False):
    M = models()
    for c in sorted(M.concrete(), key=lambda c: c.name):
        if families and c.family not in families:
            continue
        for k in kinds:
            f = c.methods.get(k)
            if f is None or (not empty and sum(len(b) for b in f.blocks) < 3):
                continue
            yield c, k


def each(ctx, fn, kinds, families=None, empty=False):
    """fn(sub, c, kind, Eval) for every evaluation, in parallel."""
    def one(sub, item):
        c, k = item
        fn(sub, c, k, Eval(models(), c, k))
    spread(ctx, tasks(kinds, families, empty), one)
