"""The whole source tree, one function at a time, with a call graph."""
import re
from . import front
from .model import common_calls, str_of
from .sem import Sem, base_callee

_w = {}


def extern(sem, ins, bc, A):
    """Shared call models; literal strings handed to any call are remembered in sem.texts."""
    name = ins.callee or ""
    if "basic_string<" in name[name.find("("):] and bc and not bc.startswith("std::"):
        if not hasattr(sem, "texts"):
            sem.texts = {}
        sem.texts[ins.id] = [str_of(sem, ins, a) if sem.base_of(a)[0] is not None else None for a in A]
    return common_calls(sem, ins, bc, A)


class Whole:
    def __init__(self):
        self.P = front.program(["raw:.*"])
        self.names = front.virtual_names()
        self.by_dem = {}
        self.by_name = {}
        for f in self.P.functions:
            self.by_dem.setdefault(f.dem, f)
        self.funcs = list(self.by_dem.values())
        self._sem = {}
        self.callees = {}
        self.callers = {}
        for f in self.funcs:
            for ins in f.instrs():
                if ins.op in ("call", "invoke") and ins.callee:
                    self.callees.setdefault(f.dem, []).append((ins, ins.callee))
                    self.callers.setdefault(ins.callee, []).append((f, ins))

    def virtual(self, ins):
        """Name of the library function a virtual call goes to."""
        c = ins.x.get("vc")
        if c is None:
            return None
        c = re.sub(r"^_ZTS\d+", "", c)
        n = self.names.get((c, ins.x["vs"]))
        if n is None and re.match(r"Epetra_\w*Comm$", c):
            n = self.names.get(("Epetra_Comm", ins.x["vs"]))
        return n

    def sem(self, f):
        if f.dem not in self._sem:
            self._sem[f.dem] = Sem(f, extern=extern)
        return self._sem[f.dem]

    def calling(self, pattern):
        """Functions that call something whose name matches."""
        rx = re.compile(pattern)
        out = []
        for f in self.funcs:
            if any(rx.search(base_callee(c) or "") for _, c in self.callees.get(f.dem, ())):
                out.append(f)
        return out


def whole():
    if "w" not in _w:
        _w["w"] = Whole()
    return _w["w"]
