"""C10: a quantity name means the same thing everywhere."""
from ..model import LEN, REL, TEMP
from ..universe import models
from ..whole import whole


def text(spec):
    return "%s, %s component(s) [%d], %s" % (REL.get(spec[0], spec[0]), LEN.get(spec[1], "?"), spec[1], TEMP.get(spec[2], spec[2]))


def sites():
    """(label, spec or None, instruction, function name) of every registration or lookup."""
    out, seen = [], set()
    W = whole()
    for f in W.calling(r"PeridigmNS::FieldManager::(getFieldId|hasField)$"):
        for ev in W.sem(f).events:
            if ev.kind == "getFieldId":
                out.append((ev.d, ev.ins, f.dem.split("(")[0]))
    # model constructors again with helpers expanded
    for c in models().classes.values():
        if c.ctor and c.ctor is not True:
            for ev in c.ctor.events:
                if ev.kind == "getFieldId":
                    out.append((ev.d, ev.ins, c.name))
    for d, ins, who in out:
        spec = None
        if d["rel"] is not None:
            spec = tuple(int(d[k]) for k in ("rel", "len", "temp"))
        key = (d["label"], spec, ins.where(), None if d["label"] is not None else who)
        if key not in seen:
            seen.add(key)
            yield d["label"], spec, ins, who


def run(ctx):
    ctx.rule = ("Every registration (kind, components, time levels, name) and every lookup by name in the source tree is collected "
                "with its constant arguments.  All registrations of one name must be identical, no two names may differ only in "
                "letter case (the registry rejects them), and every looked-up name must be registered somewhere.")
    ctx.assumptions += ["names composed at run time from user input are outside this rule and are counted"]
    regs, looks = {}, {}
    unknown = []
    for label, spec, ins, who in sites():
        if label is None:
            ctx.count("sites with a name composed at run time")
            unknown.append(ins.where())
        elif spec is not None:
            ctx.count("registration sites")
            regs.setdefault(label, {}).setdefault(spec, []).append((ins, who))
        else:
            ctx.count("lookup sites")
            looks.setdefault(label, []).append((ins, who))
    ctx.count("names registered", len(regs))
    ctx.count("names looked up", len(looks))
    for label, by in sorted(regs.items()):
        ctx.obligation(len(by) == 1)
        if len(by) == 1:
            ctx.sample("%s: %s, %d sites" % (label, text(next(iter(by))), len(next(iter(by.values())))))
            continue
        main = max(by, key=lambda k: (len(by[k]), k))
        for spec, who in sorted(by.items()):
            if spec == main:
                continue
            ins, w = who[0]
            mi, mw = by[main][0]
            ctx.violation("%s:%s~%s" % ((label,) + tuple("%d.%d.%d" % x for x in sorted((spec, main)))), "%s (%s)" % (ins.where(), ins.func()),
                          "%s is registered as (%s) here but as (%s) at %s" % (label, text(spec), text(main), mi.where()),
                          sites=[i.where() for i, _ in who], others=[i.where() for i, _ in by[main]])
    low = {}
    for label in list(regs) + list(looks):
        low.setdefault(label.lower(), set()).add(label)
    for l, names in sorted(low.items()):
        ctx.obligation(len(names) == 1)
        if len(names) > 1:
            ns = sorted(names)
            ins = (list(regs.get(ns[0], {}).values()) or [looks.get(ns[0])])[0][0][0]
            ctx.violation("case:%s" % l, ins.where(), "the names %s differ only in letter case" % ", ".join(ns))
    for label, who in sorted(looks.items()):
        ok = label in regs
        ctx.obligation(ok)
        if not ok:
            ins, w = who[0]
            ctx.violation("lookup:%s" % label, "%s (%s)" % (ins.where(), ins.func()), "%s is looked up by name but nothing registers it" % label)
    ctx.info["names composed at run time"] = sorted(set(unknown))
    ctx.need("registration sites", 250)
    ctx.need("lookup sites", 50)
    ctx.need("names registered", 80)
