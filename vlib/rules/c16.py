"""C16: text of any length fits the buffers it is put into."""
import re

from ..guards import NEG, conditions
from ..poly import Poly
from ..whole import whole
from ..model import str_of

STRING = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
OPEN = float("inf")
# library readers: argument that receives text -> room needed, terminator included
READERS = {"ex_get_init": (1, 81), "ex_get_name": (3, 33), "ex_get_variable_name": (3, 33), "ex_get_elem_block": (2, 33), "ex_get_block": (3, 33),
           "ex_get_var_name": (3, 33), "ex_get_prop_names": None}
TABLES = {"ex_get_names": (2, 33), "ex_get_coord_names": (1, 33), "ex_get_variable_names": (3, 33), "ex_get_var_names": (3, 33)}


def run(ctx):
    ctx.rule = ("For every call that writes text into a character buffer, the room in the buffer (local array, allocation, table of "
                "allocations) is compared with a bound on the text: format widths, literals, sizes of other buffers, explicit counts, "
                "tests on the length that dominate the call. Text that may come from a name, path or title has no bound of its own.")
    ctx.assumptions += ["names delivered by the database library have at most 32 characters and titles at most 80, as its interface states",
                        "numbers printed by %d, %e and the like take their largest width"]
    W = whole()
    for f in sorted(W.funcs, key=lambda f: f.dem):
        if any(i.op == "call" and i.callee and interesting(i.callee) for i in f.instrs()):
            Fn(ctx, W, f).go()
    ctx.need("text writes", 10)
    ctx.need("buffers with known room", 10)


def interesting(c):
    n = c.split("(")[0]
    return n in WRITERS or n in READERS or n in TABLES or n in (STRING + "::copy",) or re.match(r"std::(basic_)?istream.*::(getline|get|read)$", n) is not None \
        or n.startswith("std::basic_istream<char") and n.endswith(("::getline", "::get")) or re.search(r"operator>><.*\(std::basic_istream<.*, char\*\)", c) is not None


WRITERS = {"sprintf", "vsprintf", "snprintf", "vsnprintf", "strcpy", "stpcpy", "strncpy", "strcat", "strncat", "gets", "fgets", "getcwd",
           "__sprintf_chk", "__strcpy_chk", "__snprintf_chk", "scanf", "sscanf", "fscanf", "realpath", "gethostname"}


def literal(o):
    """Text of a literal operand."""
    return o["s"][o.get("off", 0):] if isinstance(o, dict) and o.get("k") == "g" and "s" in o else None


class Fn:
    def __init__(self, ctx, W, f, depth=0):
        self.ctx, self.W, self.f, self.depth = ctx, W, f, depth
        self.s = W.sem(f)
        self.calls = list(self.s.calls)

    # ---- room ------------------------------------------------------------
    def room(self, p):
        """Bytes from p to the end of its buffer: int, Poly or None."""
        s = self.s
        b, off = s.base_of(p) if p.t else (None, None)
        if b is None:
            return None
        k = s.A.keys[b]
        r = None
        if k[0] == "alloca":
            r = Poly.const(self.f.defs[k[1]].x["sz"])
        elif k[0] == "call":
            r = self.allocated(b)
        elif k[0] == "vdata":
            r = None
        elif k[0] == "load":
            rs = self.pointers(k[1])
            rs = [self.room(q) for q in rs]
            if not rs or any(x is None for x in rs):
                return None
            r = rs[0]
            for x in rs[1:]:
                if x != r:
                    if x.const_value() is None or r.const_value() is None:
                        return None
                    r = min(x, r, key=lambda y: y.const_value())
        elif k[0] == "arg" and self.depth < 3:
            n = next((j for j, a in enumerate(self.f.args) if a["id"] == k[1]), None)
            rs = []
            for g, i in self.W.callers.get(self.f.dem, ()):
                F = Fn(self.ctx, self.W, g, self.depth + 1)
                rs.append(F.room(F.s.opv(i.a[n])))
            if not rs or any(x is None or x.const_value() is None for x in rs):
                return None
            r = Poly.const(min(int(x.const_value()) for x in rs))
        elif k[0] in ("phi", "sel"):
            rs = [self.room(q) for x in k[1:] for q in (x if isinstance(x, tuple) else (x,)) if isinstance(q, Poly) and q.t]
            rs = [x for x in rs if x is not None]
            if not rs or any(x != rs[0] for x in rs):
                return None
            r = rs[0]
        return None if r is None else r - off

    def allocated(self, a):
        inf = (self.s.A.info[a] or {})
        n = inf.get("name") or ""
        if n.startswith(("operator new", "malloc", "alloca")):
            i = self.f.defs[self.s.A.keys[a][1]]
            return self.s.opv(i.a[0])
        if n.startswith("calloc"):
            i = self.f.defs[self.s.A.keys[a][1]]
            return self.s.mul(self.s.opv(i.a[0]), self.s.opv(i.a[1]))
        return None

    def pointers(self, addr):
        """Pointers stored in the table that addr lies in."""
        s = self.s
        b, off = s.base_of(addr) if addr.t else (None, None)
        return [v for i, a, v, ver in s.stores if b is not None and a.t and s.base_of(a)[0] == b and v.t and s.base_of(v)[0] is not None]

    # ---- length ----------------------------------------------------------
    def length(self, p, ins=None, seen=()):
        """Largest number of characters of the text at p."""
        s = self.s
        if ins is not None:
            t = str_of(s, ins, p) if p.t and s.base_of(p)[0] is not None else None
            if t is not None:
                return len(t)
        b, off = s.base_of(p) if p.t else (None, None)
        if b is None:
            return OPEN
        k = s.A.keys[b]
        if k[0] == "global":
            for i in self.f.instrs():
                for o in i.a:
                    if isinstance(o, dict) and o.get("k") == "g" and o.get("v") == k[1] and "s" in o:
                        return len(o["s"])
        if k[0] == "alloca":
            sz = self.f.defs[k[1]].x
            if re.match(r"\[\d+ x i8\]$", sz.get("at", "")):
                return min(sz["sz"] - 1, self.contents(b, seen))
        if k[0] == "call" and b not in seen:
            inf = (s.A.info[b] or {})
            n = inf.get("name") or ""
            if n.endswith(("::c_str", "::data")) and n.startswith(STRING):
                obj = s.opv(self.f.defs[k[1]].a[0])
                return min(self.text(obj, seen + (b,)), self.tested(obj, ins))
            r = self.allocated(b)
            if r is not None and r.const_value() is not None:
                return int(r.const_value()) - 1
        if k[0] == "load":
            rs = [self.room(q) for q in self.pointers(k[1])]
            if rs and all(x is not None and x.const_value() is not None for x in rs):
                return max(int(x.const_value()) for x in rs) - 1
        if k[0] == "arg" and self.depth < 3:
            return self.passed(k[1], lambda F, q, i: F.length(q, i))
        return OPEN

    def contents(self, b, seen):
        """Largest text put into a local array, if only formatted or copied texts are."""
        s, out = self.s, 0
        if ("in", b) in seen:
            return OPEN
        for i in self.f.instrs():
            if i.op == "store" and s.opv(i.a[1]).t and s.base_of(s.opv(i.a[1]))[0] == b:
                return OPEN
            if i.op != "call" or not i.a:
                continue
            A = [s.opv(o) for o in i.a]
            n = (i.callee or "").split("(")[0]
            for k, q in enumerate(A):
                if not q.t or s.base_of(q)[0] != b:
                    continue
                if n == "sprintf" and k == 0 and literal(i.a[1]) is not None:
                    out = max(out, self.printed(i, literal(i.a[1]), A[2:], seen + (("in", b),)))
                elif n == "strcpy" and k == 0:
                    out = max(out, self.length(A[1], i, seen + (("in", b),)))
                elif n in ("sprintf", "strcpy", "system", "puts", "printf", "strlen") or n.startswith(("llvm.lifetime", "std::", "PeridigmNS::", "fopen")) and not interesting(i.callee or ""):
                    pass
                else:
                    return OPEN
        return out

    def passed(self, arg, what):
        """Largest value over all callers of what is passed for an argument."""
        n = next((j for j, a in enumerate(self.f.args) if a["id"] == arg), None)
        out = 0
        cs = self.W.callers.get(self.f.dem, ())
        if n is None or not cs:
            return OPEN
        for g, i in cs:
            F = Fn(self.ctx, self.W, g, self.depth + 1)
            out = max(out, what(F, F.s.opv(i.a[n]), i))
        return out

    def tested(self, obj, ins):
        """Bound on a string's length from tests that hold at an instruction."""
        s, best = self.s, OPEN
        if ins is None:
            return best
        for c, truth in conditions(self.f, ins.blk):
            if c.op != "icmp" or not isinstance(truth, bool):
                continue
            l, r = s.opv(c.a[0]), s.opv(c.a[1])
            p = c.x["p"] if truth else NEG[c.x["p"]]
            if self.size_of(r, obj):
                l, r = r, l
                p = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(p, p)
            v = r.const_value()
            if v is None or not self.size_of(l, obj):
                continue
            if p in ("ult", "slt"):
                best = min(best, int(v) - 1)
            elif p in ("ule", "sle", "eq"):
                best = min(best, int(v))
        return best

    def size_of(self, q, obj):
        s = self.s
        a = next(iter(q.atoms()), None)
        if a is None or q != Poly.atom(a) or s.A.keys[a][0] != "call":
            return False
        n = (s.A.info[a] or {}).get("name") or ""
        i = self.f.defs[s.A.keys[a][1]]
        if n.startswith(STRING) and n.endswith(("::size", "::length")):
            return s.opv(i.a[0]) == obj
        if n == "strlen":
            p = s.opv(i.a[0])
            b = s.base_of(p)[0] if p.t else None
            if b is not None and s.A.keys[b][0] == "call" and (s.A.info[b].get("name") or "").endswith("::c_str"):
                return s.opv(self.f.defs[s.A.keys[b][1]].a[0]) == obj
            return p == obj
        return False

    def text(self, obj, seen=()):
        """Largest length of a std::string: number, 'n' counted as OPEN only if outside text takes part."""
        s = self.s
        b, off = s.base_of(obj) if obj.t else (None, None)
        if b is None:
            return OPEN
        k = s.A.keys[b]
        if ("text", b, off) in seen:
            return 0
        seen = seen + (("text", b, off),)
        if k[0] == "arg":
            a = next((x for x in self.f.args if x["id"] == k[1]), None)
            if a is not None and not a.get("sret"):
                return self.passed(k[1], lambda F, q, i: F.text(q)) if off.is_zero() and self.depth < 3 else OPEN
        elif k[0] != "alloca":
            return OPEN
        out, known = 0, False
        for ins, bc, A, mem in self.calls:
            if not A or not A[0].t or A[0] != obj:
                continue
            bc = bc or ""
            m = bc[len(STRING) + 2:].split("<")[0] if bc.startswith(STRING) else ""
            if bc.startswith(STRING) and m in ("~basic_string", "c_str", "data", "size", "length", "empty", "begin", "end", "operator[]", "at", "find", "compare", "clear", "reserve",
                                               "substr", "capacity", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of", "copy", "max_size"):
                if m != "substr":
                    continue
            known = True
            if bc.startswith(STRING) and m in ("basic_string", "operator=", "assign", "append", "operator+=", "push_back"):
                if m == "push_back":
                    n = OPEN if self.f.nest(ins.blk) else 1
                elif len(A) == 1:
                    n = 0
                elif len(A) >= 3 and self.character(A) and A[1].const_value() is not None:
                    n = int(A[1].const_value())
                elif m == "operator+=" and A[1].const_value() is not None or m == "operator=" and A[1].const_value() is not None:
                    n = 1
                else:
                    n = self.either(A[1], ins, seen)
                    if m in ("append", "operator+=") and self.f.nest(ins.blk) and not self.f.nest(self.f.defs[k[1]].blk if k[0] == "alloca" else 0):
                        n = OPEN if n == OPEN else n
                if m in ("append", "operator+=", "push_back"):
                    out += n
                else:
                    out = max(out, n)
            elif re.search(r"::str(\[abi:cxx11\])?$", bc) and len(A) == 2:
                out = max(out, self.stream(A[1], seen))
            elif bc == STRING + "::substr" and len(A) == 4:
                n = A[3].const_value()
                out = max(out, int(n) if n is not None and 0 <= n < 1 << 30 else self.text(A[1], seen))
            elif re.search(r"std::operator\+<", ins.callee or "") and len(A) == 3:
                out = max(out, self.either(A[1], ins, seen) + self.either(A[2], ins, seen))
            elif "std::to_string" in (ins.callee or "") or "std::__cxx11::to_string" in (ins.callee or ""):
                out = max(out, 20)
            elif ins.callee in self.W.by_dem and self.W.by_dem[ins.callee].args and self.W.by_dem[ins.callee].args[0].get("sret") and self.depth < 3:
                G = self.W.by_dem[ins.callee]
                F = Fn(self.ctx, self.W, G, self.depth + 1)
                out = max(out, F.text(Poly.atom(F.s.A.tab[("arg", G.args[0]["id"])])) if ("arg", G.args[0]["id"]) in F.s.A.tab else OPEN)
            elif bc == STRING + "::substr":
                continue
            else:
                return OPEN
        return out if known else OPEN

    def character(self, A):
        return A[2].const_value() is not None and A[1].const_value() is not None

    def either(self, p, ins, seen):
        """Length of a piece given as characters or as a string object."""
        n = self.length(p, ins, seen)
        return n if n != OPEN else self.text(p, seen)

    def stream(self, obj, seen):
        """Length of what was put into a string stream; numbers and literals only are within bounds by nature."""
        s, out = self.s, 0
        b0 = s.base_of(obj)[0] if obj.t else None
        if b0 is None or s.A.keys[b0][0] != "alloca":
            return OPEN
        mine = {b0}
        for ins, bc, A, mem in self.calls:
            n = ins.callee or ""
            if "operator<<" not in n or len(A) < 2 or not A[0].t:
                continue
            b = s.base_of(A[0])[0]
            if b not in mine:
                continue
            if ins.id in s.val and s.val[ins.id].t:
                mine |= s.val[ins.id].atoms()
            if re.search(r"operator<<\((int|unsigned int|long|unsigned long|double|float|bool)\)", n):
                continue                        # a number
            if "(*)" in n:
                continue                        # a manipulator
            m = self.either(A[1], ins, seen) if A[1].t and s.base_of(A[1])[0] is not None else 1
            if m == OPEN:
                return OPEN
            out += m
        return out

    def printed(self, ins, fmt, args, seen=()):
        """Largest length of a formatted text."""
        n, at = 0, 0
        sign = 0 if fmt.strip() in ("%d", "%i") else 1     # a lone number is a count
        for m in re.finditer(r"%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(?:hh|h|ll|l|z|j|t|L)?([diouxXeEfFgGaAcsp%])|(.)", fmt, re.S):
            if m.group(5) is not None:
                n += 1
                continue
            conv = m.group(4)
            if conv == "%":
                n += 1
                continue
            w = int(m.group(2)) if m.group(2) and m.group(2) != "*" else 0
            pr = int(m.group(3)) if m.group(3) and m.group(3) != "*" else None
            a = args[at] if at < len(args) else None
            at += 1
            if conv in "diouxX":
                k = sign + (19 if re.search(r"l|z|j|t", m.group(0)) else 10)
            elif conv in "eEgGaA":
                k = 8 + (6 if pr is None else pr)
            elif conv in "fF":
                k = 311 + (6 if pr is None else pr)
            elif conv == "c":
                k = 1
            elif conv == "p":
                k = 18
            else:
                k = self.length(a, ins, seen) if a is not None else OPEN
                if pr is not None:
                    k = min(k, pr)
            n += max(w, k)
        return n

    # ---- writes ----------------------------------------------------------
    def go(self):
        for ins in list(self.f.instrs()):
            if ins.op != "call" or not ins.callee or not interesting(ins.callee):
                continue
            A = [self.s.opv(o) for o in ins.a]
            self.one(ins, ins.callee.split("(")[0], A)

    def one(self, ins, n, A):
        ctx, s = self.ctx, self.s
        if n in READERS:
            if READERS[n]:
                at, need = READERS[n]
                self.judge(ins, A[at], need, n)
            return
        if n in TABLES:
            at, need = TABLES[n]
            b, off = s.base_of(A[at]) if A[at].t else (None, None)
            for p in self.pointers(A[at]):
                self.judge(ins, p, need, n)
            return
        if n in ("scanf", "sscanf", "fscanf"):
            fa = 0 if n == "scanf" else 1
            t = literal(ins.a[fa])
            at = fa
            for m in re.finditer(r"%(\*)?(\d+)?(?:hh|h|ll|l|z|j|t|L)?(\[[^]]*\]|[a-zA-Z])|%%", t or ""):
                if m.group(0) == "%%" or m.group(1):
                    continue
                at += 1
                if m.group(3) == "s" or m.group(3).startswith("["):
                    self.judge(ins, A[at], OPEN if m.group(2) is None else int(m.group(2)) + 1, n)
            return
        if "operator>>" in ins.callee:
            return self.judge(ins, A[1], OPEN, "operator>>")
        dst = A[0]
        if n in ("sprintf", "vsprintf", "__sprintf_chk"):
            fa = 1 if n != "__sprintf_chk" else 3
            t = literal(ins.a[fa])
            need = OPEN if t is None else self.printed(ins, t, A[fa + 1:]) + 1
        elif n in ("strcpy", "stpcpy", "__strcpy_chk"):
            need = self.length(A[1], ins) + 1
        elif n in ("strcat", "strncat"):
            k = self.length(A[1], ins)
            if n == "strncat" and A[2].const_value() is not None:
                k = min(k, int(A[2].const_value()))
            before = self.before(ins, dst)
            need = before + k + 1
        elif n in ("snprintf", "vsnprintf", "__snprintf_chk", "getcwd", "gethostname"):
            return self.counted(ins, dst, A[1], n)
        elif n == "fgets":
            return self.counted(ins, dst, A[1], n)
        elif n.endswith(("::getline", "::get")):
            if len(A) < 3:
                return
            return self.counted(ins, A[1], A[2], n)
        elif n == STRING + "::copy":
            return self.counted(ins, A[1], A[2], n)
        elif n == "strncpy":
            self.counted(ins, dst, A[2], n)
            k, cnt, room = self.length(A[1], ins), A[2].const_value(), self.room(dst)
            ended = cnt is not None and k < cnt or self.closed(dst, room)
            ctx.obligation(ended)
            if not ended:
                self.report(ins, n, "the copy may fill the buffer without a terminator")
            return
        elif n == "gets":
            need = OPEN
        else:
            return
        self.judge(ins, dst, need, n)

    def before(self, ins, dst):
        """Text already in the buffer: what one dominating write put there, else the room itself."""
        out = None
        for i in self.f.instrs():
            if i.op == "call" and i.callee and i.callee.split("(")[0] in ("strcpy", "sprintf", "strcat") and i is not ins and self.s.opv(i.a[0]) == dst:
                n = i.callee.split("(")[0]
                if n == "strcpy":
                    k = self.length(self.s.opv(i.a[1]), i)
                elif n == "sprintf":
                    t = literal(i.a[1])
                    k = OPEN if t is None else self.printed(i, t, [self.s.opv(o) for o in i.a[2:]])
                else:
                    k = self.length(self.s.opv(i.a[1]), i)
                    if (i.blk, i.pos) < (ins.blk, ins.pos) or self.f.nest(i.blk):
                        out = (out or 0) + k
                    continue
                out = max(out or 0, k)
        return 0 if out is None else out

    def counted(self, ins, dst, cnt, n):
        ctx = self.ctx
        room = self.room(dst)
        ctx.count("text writes")
        if room is None:
            return self.unknown(ins, dst, n)
        ctx.count("buffers with known room")
        d = room - cnt
        c = d.const_value()
        if c is None:
            return ctx.undecided("%s: %s with count %s into %s bytes" % (ins.where(), n, self.s.show(cnt, 3)[:60], self.s.show(room, 3)[:60]))
        ctx.obligation(c >= 0)
        if c < 0:
            self.report(ins, n, "the count exceeds the %s bytes of the buffer by %d" % (self.s.show(room, 3), -c))

    def closed(self, dst, room):
        """A terminator is put into the buffer elsewhere."""
        s = self.s
        b, off = s.base_of(dst)
        for i, a, v, ver in s.stores:
            if a.t and v.is_zero() and s.base_of(a)[0] is not None:
                b2, o2 = s.base_of(a)
                if b2 == b or s.A.keys[b2][0] == s.A.keys[b][0] == "load" and s.A.keys[b2][1] == s.A.keys[b][1]:
                    left = None if room is None else (room - (o2 - off)).const_value()
                    if left is None or left >= 1:
                        return True
        return any(bc and bc.startswith("llvm.memset") and A[0].t and s.base_of(A[0])[0] == b and A[1].is_zero() for i, bc, A, m in self.calls)

    def unknown(self, ins, dst, n):
        s = self.s
        b = s.base_of(dst)[0] if dst.t else None
        if b is not None and s.A.keys[b][0] == "arg":
            if not self.W.callers.get(self.f.dem):
                return          # written out at its call sites, where it is decided
            return self.ctx.undecided("%s: %s into a buffer of the caller" % (ins.where(), n))
        self.ctx.undecided("%s: %s into a buffer of unknown size (%s)" % (ins.where(), n, s.show(dst, 4)[:100]))

    def judge(self, ins, dst, need, n):
        ctx = self.ctx
        ctx.count("text writes")
        room = self.room(dst)
        if room is None:
            return self.unknown(ins, dst, n)
        ctx.count("buffers with known room")
        r = room.const_value()
        if r is None:
            r = self.fitted(ins, dst, room, n)
            if r is None:
                return ctx.undecided("%s: %s into %s bytes" % (ins.where(), n, self.s.show(room, 3)[:80]))
        ctx.obligation(need <= r)
        if need > r:
            self.report(ins, n, "the buffer holds %d bytes, the text %s" % (r, "has no bound" if need == OPEN else "may take %d" % need))

    def fitted(self, ins, dst, room, n):
        """Room allocated for the very text: its length plus at least one."""
        s = self.s
        if n not in ("strcpy", "stpcpy"):
            return None
        src = s.opv(ins.a[1])
        b = s.base_of(src)[0] if src.t else None
        if b is None:
            return None
        obj = s.opv(self.f.defs[s.A.keys[b][1]].a[0]) if s.A.keys[b][0] == "call" else src
        sizes = [a for a in room.atoms() if self.size_of(Poly.atom(a), obj) or self.size_of(Poly.atom(a), src)]
        if len(sizes) == 1:
            c = (room - Poly.atom(sizes[0])).const_value()
            if c is not None:
                return OPEN if c >= 1 else 0
        return None

    def report(self, ins, n, what):
        self.ctx.violation("%s:%s:%s" % (self.f.dem.split("(")[0].replace("PeridigmNS::", ""), n.split("::")[-1], ins.loc[1] if isinstance(ins.loc, tuple) else self.rank(ins, n)),
                           ins.where(), "%s writes text without enough room: %s" % (n.split("::")[-1], what), path=[ins.path()])

    def rank(self, ins, n):
        """Position among the calls of the same kind in the function."""
        same = [i for i in self.f.instrs() if i.op == "call" and i.callee and i.callee.split("(")[0] == n]
        return sorted(same, key=lambda i: (i.blk, i.pos)).index(ins) if ins in same else 0
