"""Conditions under which a block runs, as facts about comparisons."""
NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt",
       "oeq": "une", "une": "oeq", "olt": "uge", "oge": "ult", "ogt": "ule", "ole": "ugt", "one": "ueq", "ueq": "one"}


def only(f, p, x):
    """Block x is entered from p alone, apart from its own loop."""
    return all(q == p or f.dominates(x, q) for q in f.pred[x]) and f.pred[x].count(p) <= 1


def conditions(f, b):
    """[(comparison or other condition instruction, truth)] that hold whenever block b runs;
    switch cases appear as (instruction, ('case', value or tuple of excluded values))."""
    memo = f.__dict__.setdefault("_conds", {})
    if b in memo:
        return memo[b]
    out = []
    d = b
    while d != 0:
        p = f.idom[d]
        t = f.blocks[p][-1]
        ss = f.succ[p]
        if t.op == "br" and len(ss) == 2 and ss[0] != ss[1] and t.a:
            for k in (0, 1):
                x = ss[k]
                if only(f, p, x) and f.dominates(x, b):
                    out += facts(f, t.a[0], k == 0)
        elif t.op == "switch":
            for v, x in t.x["cases"]:
                if only(f, p, x) and f.dominates(x, b) and sum(1 for _, y in t.x["cases"] if y == x) == 1 and x != t.x["def"]:
                    out.append((t, ("case", v)))
            x = t.x["def"]
            if only(f, p, x) and f.dominates(x, b) and not any(y == x for _, y in t.x["cases"]):
                out.append((t, ("other", tuple(v for v, _ in t.x["cases"]))))
        d = p
    memo[b] = out
    return out


def facts(f, o, truth):
    if not isinstance(o, int):
        return []
    i = f.defs.get(o)
    if i is None:
        return []
    if i.op == "xor" and not isinstance(i.a[1], int) and i.a[1].get("v") in (1, -1, True):
        return facts(f, i.a[0], not truth)
    if i.op == "and" and truth or i.op == "or" and not truth:
        return facts(f, i.a[0], truth) + facts(f, i.a[1], truth)
    if i.op == "select" and i.ty == "i1":
        a, b = i.a[1], i.a[2]
        if truth and not isinstance(b, int) and b.get("v") in (0, False):
            return facts(f, i.a[0], True) + facts(f, a, True)
        if not truth and not isinstance(a, int) and a.get("v") in (1, -1, True):
            return facts(f, i.a[0], False) + facts(f, b, False)
    return [(i, truth)]


def equalities(s, f, b, stable):
    """{key of an expression: (set of values it may have or None, set of values it cannot have)};
    stable(poly) -> hashable key of an expression whose value does not change in between, or None."""
    out = {}

    def note(k, v, eq):
        must, cannot = out.get(k, (None, frozenset()))
        if eq:
            must = v
        else:
            cannot = cannot | {v}
        out[k] = (must, cannot)
    for i, t in conditions(f, b):
        if i.op == "switch":
            k = stable(s.opv(i.a[0]))
            if k is not None:
                if t[0] == "case":
                    note(k, t[1], True)
                else:
                    for v in t[1]:
                        note(k, v, False)
        elif i.op == "icmp" and i.x["p"] in ("eq", "ne"):
            a, c = s.opv(i.a[0]), s.opv(i.a[1])
            if a.const_value() is not None:
                a, c = c, a
            k, v = stable(a), c.const_value()
            if k is not None and v is not None:
                note(k, int(v), (i.x["p"] == "eq") == t)
        else:
            k = stable(s.opv(i.id)) if i.ty == "i1" else None
            if k is not None:
                note(k, int(t), True)
    return out


def compatible(a, b):
    for k in set(a) & set(b):
        (m1, c1), (m2, c2) = a[k], b[k]
        if m1 is not None and m2 is not None and m1 != m2:
            return False
        if m1 is not None and m1 in c2 or m2 is not None and m2 in c1:
            return False
    return True
