"""What the program as a whole says about each named quantity."""
from .model import LEN, REL, TEMP
from .universe import models

_r = {}


def registrations():
    """label -> {(rel, len code, temp): [who]} over all model constructors."""
    if "x" not in _r:
        out = {}
        for c in models().classes.values():
            if not c.ctor or c.ctor is True:
                continue
            for ev in c.ctor.events:
                if ev.kind == "getFieldId" and ev.d["label"] is not None and ev.d["rel"] is not None:
                    key = (int(ev.d["rel"]), int(ev.d["len"]), int(ev.d["temp"]))
                    out.setdefault(ev.d["label"], {}).setdefault(key, []).append((c.name, ev.ins))
        _r["x"] = out
    return _r["x"]


def spec_of(label):
    """(rel, components, temp) if all registrations agree on kind and components."""
    r = registrations().get(label)
    if not r:
        return None
    s = set((REL.get(k[0]), LEN.get(k[1])) for k in r)
    if len(s) != 1:
        return None
    (rel, ln), = s
    ts = set(TEMP.get(k[2]) for k in r)
    return rel, ln, ts.pop() if len(ts) == 1 else None
