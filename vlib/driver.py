"""Runs one check: evidence, known findings, exit codes."""
import importlib
import json
import os
import sys
import time
import traceback

from .front import VERIF, REPO, CheckError

KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_keys(pid):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: property=%s " % pid) and " key=" in l:
                rest = l.split(" key=", 1)[1]
                k, _, what = rest.partition(" | ")
                out[k.strip()] = what.strip()
    return out


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.counts = {}
        self.samples = []
        self.viol = []
        self.assumptions = []
        self.rule = ""
        self.obl = self.done = 0
        self.info = {}
        self.und = []

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def obligation(self, ok=True):
        self.obl += 1
        if ok:
            self.done += 1

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, key, where, msg, **details):
        """key: stable name of the construct (no line numbers)."""
        if any(v["key"] == key for v in self.viol):
            return
        self.viol.append(dict(key=key, where=where, msg=msg, **details))

    def undecided(self, msg):
        """A construct the rule cannot decide: the run ends in an error unless a violation is found."""
        self.und.append(msg)

    def child(self):
        return Ctx(self.pid)

    def delta(self):
        return dict(counts=self.counts, samples=self.samples, viol=self.viol, obl=self.obl, done=self.done, und=self.und, info=self.info)

    def merge(self, d):
        for k, v in d["counts"].items():
            self.count(k, v)
        for x in d["samples"][:2]:
            self.sample(x)
        for v in d["viol"]:
            if not any(w["key"] == v["key"] for w in self.viol):
                self.viol.append(v)
        self.obl += d["obl"]
        self.done += d["done"]
        self.und += d["und"]
        for k, v in d["info"].items():
            if isinstance(v, list):
                self.info.setdefault(k, []).extend(v)
            elif isinstance(v, int):
                self.info[k] = self.info.get(k, 0) + v
            else:
                self.info[k] = v

    def need(self, name, n):
        c = self.counts.get(name, 0)
        if c < n:
            raise CheckError("analysed only %d %s (at least %d expected): the analysis no longer finds what it decides on" % (c, name, n))


def main(pid):
    t0 = time.time()
    ctx = Ctx(pid)
    evd = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    ev = os.path.join(evd, pid + ".json")
    if os.path.exists(ev):
        os.remove(ev)
    try:
        mod = importlib.import_module("vlib.rules." + pid.lower())
        mod.run(ctx)
    except CheckError as e:
        print("ERROR property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s internal error" % pid)
        return 3
    known = known_keys(pid)
    new = [v for v in ctx.viol if v["key"] not in known]
    old = [v for v in ctx.viol if v["key"] in known]
    cov = dict(explanation=ctx.rule, obligations=ctx.obl, discharged=ctx.done, samples=ctx.samples, analysed=ctx.counts)
    cov.update(ctx.info)
    if old:
        cov["known_findings_seen"] = [v["key"] for v in old]
    d = dict(property=pid, tier=ctx.tier, seed=ctx.seed, level="other", coverage=cov, assumptions=ctx.assumptions,
             wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(ev, "w") as f:
        json.dump(d, f, indent=1)
    for v in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[v["key"]] or v["msg"]))
    print("%s: %d obligations, %d discharged; %s" % (pid, ctx.obl, ctx.done, ", ".join("%s=%d" % kv for kv in sorted(ctx.counts.items()))))
    if new:
        rd = os.path.join(evd, "replay")
        os.makedirs(rd, exist_ok=True)
        for n, v in enumerate(new):
            p = os.path.join(rd, "%s-%d.json" % (pid, n))
            with open(p, "w") as f:
                json.dump(v, f, indent=1)
            print("%s: %s\n    %s" % (v["where"], v["msg"], v["key"]))
            print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    if ctx.und:
        for m in ctx.und[:20]:
            print("UNDECIDED %s" % m)
        print("ERROR property=%s %d constructs could not be decided" % (pid, len(ctx.und)))
        return 2
    return 0
