"""In-memory form of the normalised program printed by pdx."""
import json


class Ins:
    __slots__ = ("id", "op", "ty", "a", "blk", "x", "pos", "loc")

    def __init__(self, j, blk, pos):
        self.id = j["i"]
        self.op = j["o"]
        self.ty = j["t"]
        self.a = j["a"]
        self.blk = blk
        self.pos = pos
        self.loc = j.get("l")
        self.x = j

    @property
    def callee(self):
        return self.x.get("f")

    def where(self):
        if not self.loc:
            return "?"
        f, l, fn = self.loc[0]
        return "%s:%d" % (f, l)

    def func(self):
        """Innermost source function containing this instruction."""
        if not self.loc:
            return "?"
        return self.loc[0][2].split("(")[0]

    def path(self):
        """Source call chain, innermost first."""
        return " <- ".join("%s (%s:%d)" % (fn.split("(")[0], f, l) for f, l, fn in (self.loc or []))


class Loop:
    __slots__ = ("idx", "h", "b", "la", "par", "kids")


class Func:
    def __init__(self, j):
        self.name = j["name"]
        self.dem = j["dem"]
        self.internal = self.name.startswith("_ZL") or "_GLOBAL__N_1" in self.name or "{lambda" in self.dem
        self.cls = j.get("class", "")
        self.kind = j.get("kind", "")
        self.file = j.get("file", "?")
        self.line = j.get("line", 0)
        self.args = j["args"]
        self.blocks = []
        self.succ = []
        self.defs = {}
        for bi, b in enumerate(j["blocks"]):
            L = [Ins(i, bi, k) for k, i in enumerate(b["ins"])]
            for i in L:
                self.defs[i.id] = i
            self.blocks.append(L)
            self.succ.append(b["succ"])
        n = len(self.blocks)
        self.pred = [[] for _ in range(n)]
        for i, s in enumerate(self.succ):
            for t in s:
                if i not in self.pred[t]:
                    self.pred[t].append(i)
        self.rpo = self._rpo()
        self.idom = self._idom(self.rpo, self.pred, 0)
        self.loops = []
        for k, l in enumerate(j["loops"]):
            L = Loop()
            L.idx = k
            L.h = l["h"]
            L.b = frozenset(l["b"])
            L.la = l["la"]
            L.par = l["par"]
            L.kids = []
            self.loops.append(L)
        for L in self.loops:
            if L.par >= 0:
                self.loops[L.par].kids.append(L.idx)
        self.loop_of = [None] * n          # innermost
        for L in self.loops:               # preorder: inner ones come later
            for b in L.b:
                self.loop_of[b] = L.idx
        self.header = {L.h: L.idx for L in self.loops}

    def nest(self, blk):
        """Loop indices containing the block, innermost first."""
        r = []
        l = self.loop_of[blk]
        while l is not None and l >= 0:
            r.append(l)
            l = self.loops[l].par
        return r

    def _rpo(self):
        seen = set()
        out = []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    adv = True
                    break
            if not adv:
                out.append(b)
                st.pop()
        out.reverse()
        return out

    @staticmethod
    def _idom(rpo, pred, root):
        num = {b: i for i, b in enumerate(rpo)}
        idom = {root: root}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == root:
                    continue
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        return idom

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            p = self.idom.get(b)
            if p is None or p == b:
                return False
            b = p

    def postdoms(self):
        """Post-dominator tree over blocks that can reach a normal return; virtual exit = -1."""
        if hasattr(self, "_pd"):
            return self._pd
        n = len(self.blocks)
        exits = [b for b in range(n) if self.blocks[b] and self.blocks[b][-1].op == "ret"]
        rs = [[] for _ in range(n + 1)]   # reverse succ = pred ; index n is the virtual exit
        rp = [[] for _ in range(n + 1)]
        for b in range(n):
            for s in self.succ[b]:
                rs[s].append(b)
                rp[b].append(s)
        for e in exits:
            rs[n].append(e)
            rp[e].append(n)
        # rpo of reverse graph from n
        seen = {n}
        out = []
        st = [(n, iter(rs[n]))]
        while st:
            b, it = st[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(rs[s])))
                    adv = True
                    break
            if not adv:
                out.append(b)
                st.pop()
        out.reverse()
        self._pd = self._idom(out, rp, n)
        return self._pd

    def postdominates(self, a, b):
        pd = self.postdoms()
        while True:
            if a == b:
                return True
            p = pd.get(b)
            if p is None or p == b:
                return False
            b = p

    def control_equiv(self, a, b):
        if a == b:
            return True
        return (self.dominates(a, b) and self.postdominates(b, a)) or \
               (self.dominates(b, a) and self.postdominates(a, b))

    def can_throw_only(self, b):
        """Block from which no normal return is reachable."""
        return b not in self.postdoms()

    def instrs(self):
        for b in self.rpo:
            for i in self.blocks[b]:
                yield i


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.functions = [Func(j) for j in d["functions"]]
        self.classes = d["classes"]
        self.calls = d["calls"]
        self.notes = d["notes"]
