"""Front end: /repo source -> clang bitcode -> pdx -> Program.

Everything is derived from the current working tree on each run.  Results are
kept under /verif/.cache, addressed by a hash of all inputs, only to avoid
repeating identical work."""
import concurrent.futures as cf
import hashlib
import os
import re
import shutil
import subprocess
import time
import sys
import tempfile

from .ir import Program

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
SUB = ["core", "io", "io/discretization", "io/mesh_input", "io/mesh_input/quick_grid", "io/mesh_output",
       "io/bond_volume", "io/utilities", "io/pdneigh", "contact", "materials", "damage", "api", "compute",
       "io/bond_volume/quick_grid"]
SYS = ["/usr/include/trilinos", "/usr/include/hdf5/openmpi", "/usr/include/scotch",
       "/usr/lib/x86_64-linux-gnu/openmpi/include", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
DEFS = ["-DUSE_YAML", "-DNDEBUG"]
EXTS = (".cpp", ".cxx", ".cc", ".c", ".C")


class CheckError(Exception):
    """The check cannot give an answer (anchor vanished, source does not compile, ...)."""


def flags():
    inc = ["-I" + s for s in SYS] + ["-I" + REPO, "-I" + REPO + "/src"] + ["-I%s/src/%s" % (REPO, s) for s in SUB]
    for r, ds, fs in os.walk(os.path.join(REPO, "src")):
        if is_test_dir(r):
            ds[:] = []
            continue
        if any(f.endswith((".h", ".hpp", ".hh")) for f in fs) and "-I" + r not in inc:
            inc.append("-I" + r)
    return inc + ["-I" + os.path.join(VERIF, "stubs")] + DEFS


def is_test_dir(r):
    p = os.path.relpath(r, REPO).split(os.sep)
    return any(x in ("unit_test", "unit_tests", "test", "tests", "utPeridigm") or x.startswith("unit_test") for x in p)


def all_tus():
    out = []
    for r, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        if is_test_dir(r):
            ds[:] = []
            continue
        for f in sorted(fs):
            if f.endswith(EXTS):
                out.append(os.path.join(r, f))
    return out


def tree_hash():
    h = hashlib.sha256()
    for r, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        if is_test_dir(r):
            ds[:] = []
            continue
        for f in sorted(fs):
            if f.endswith(EXTS + (".h", ".hpp", ".hh", ".ipp")):
                p = os.path.join(r, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    h.update(" ".join(flags()).encode())
    return h.hexdigest()[:24]


def tool():
    src = os.path.join(VERIF, "tools/pdx/pdx.cpp")
    hs = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(CACHE, "pdx-" + hs)
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        tmp = "%s.%d.tmp" % (out, os.getpid())
        r = subprocess.run(["bash", os.path.join(VERIF, "tools/pdx/build.sh"), tmp], capture_output=True, text=True)
        if r.returncode or not os.path.exists(tmp):
            raise CheckError("cannot build the IR normaliser: " + r.stderr[-2000:])
        os.rename(tmp, out)
    return out, hs


def age(p):
    """Seconds since a file was last used (0 when another run removed it)."""
    try:
        return time.time() - os.path.getmtime(p)
    except OSError:
        return 0


def prune():
    """Keep the cache small: drop all but the newest few trees."""
    bd = os.path.join(CACHE, "bc")
    try:
        ds = [os.path.join(CACHE, d) for d in os.listdir(CACHE) if d.startswith("t-")]
        fs = [os.path.join(bd, f) for f in os.listdir(bd)] if os.path.isdir(bd) else []
    except OSError:
        return
    for f in sorted(fs, key=age)[3000:]:
        if f.endswith(".bc") and age(f) > 3600:
            try:
                os.remove(f)
            except OSError:
                pass
    for d in sorted(ds, key=age)[12:]:
        if age(d) > 1800 and d.startswith(os.path.join(VERIF, ".cache", "t-")):
            shutil.rmtree(d, ignore_errors=True)


def headers_hash():
    h = hashlib.sha256()
    for r, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        if is_test_dir(r):
            ds[:] = []
            continue
        for f in sorted(fs):
            if f.endswith((".h", ".hpp", ".hh", ".ipp")):
                p = os.path.join(r, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    h.update(" ".join(flags()).encode())
    return h.hexdigest()


def bitcode():
    """Compile every translation unit; returns list of (tu, bc)."""
    d = os.path.join(CACHE, "t-" + tree_hash())
    os.makedirs(d, exist_ok=True)
    os.utime(d)
    prune()
    fl = flags()
    tus = all_tus()
    hh = headers_hash()
    bd = os.path.join(CACHE, "bc")
    os.makedirs(bd, exist_ok=True)
    if len(tus) < 60:
        raise CheckError("only %d translation units found under %s/src" % (len(tus), REPO))

    def one(f):
        k = hashlib.sha256(("v2" + hh + f).encode() + open(f, "rb").read()).hexdigest()[:24]
        o = os.path.join(bd, os.path.basename(f) + "." + k + ".bc")
        if os.path.exists(o):
            try:
                os.utime(o)
                return f, o, None
            except OSError:
                pass                            # removed meanwhile
        t = "%s.%d.tmp" % (o, os.getpid())
        r = subprocess.run(["clang++-18", "-std=gnu++17", "-O1", "-ffp-contract=off", "-Xclang", "-disable-llvm-passes",
                            "-gline-tables-only", "-flto", "-fwhole-program-vtables", "-c", "-emit-llvm", "-w"] + fl + ["-x", "c++", f, "-o", t],
                           capture_output=True, text=True)
        if r.returncode:
            return f, None, r.stderr[-1500:]
        os.rename(t, o)
        return f, o, None

    with cf.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4) as ex:
        res = list(ex.map(one, tus))
    bad = [(f, e) for f, o, e in res if e is not None]
    if bad:
        raise CheckError("does not compile: " + "; ".join("%s: %s" % b for b in bad[:3]))
    return d, [(f, o) for f, o, e in res]


def virtual_names():
    """(class, byte offset of the slot) -> name, for the library functions in stubs/vprobe.cpp."""
    src = os.path.join(VERIF, "stubs/vprobe.cpp")
    out = os.path.join(CACHE, "vprobe-%s.ll" % hashlib.sha256(open(src, "rb").read()).hexdigest()[:16])
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        tmp = "%s.%d.tmp" % (out, os.getpid())
        r = subprocess.run(["clang++-18", "-std=gnu++17", "-O1", "-Xclang", "-disable-llvm-passes", "-flto", "-fwhole-program-vtables", "-S", "-emit-llvm", "-w"]
                           + ["-I" + x for x in SYS] + [src, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            raise CheckError("cannot compile the virtual function probes: " + r.stderr[-1500:])
        os.rename(tmp, out)
    names = {}
    for fn in re.split(r"^define ", open(out).read(), flags=re.M)[1:]:
        m = re.match(r"internal void @_ZL\d+(\w+?)__(\w+)_\d+R", fn)
        c = re.search(r'type\.test\(ptr %\w+, metadata !"_ZTS\d+(\w+)"\)', fn)
        g = re.search(r"getelementptr inbounds ptr, ptr %\w+, i64 (\d+)", fn)
        if m and c:
            names[(c.group(1), 8 * int(g.group(1)) if g else 0)] = m.group(1) + "::" + m.group(2)
    return names


def program(specs, opts=()):
    """Program for the given pdx entry-point specs over the whole source tree."""
    exe, hs = tool()
    d, bcs = bitcode()
    key = hashlib.sha256(repr((sorted(specs), tuple(opts), hs)).encode()).hexdigest()[:16]
    out = os.path.join(d, "p-%s.json" % key)
    if not os.path.exists(out):
        tmp = "%s.%d.tmp" % (out, os.getpid())
        r = subprocess.run([exe, "--root", REPO + "/src"] + list(opts) + ["--out", tmp] + list(specs) + ["--"] + [b for _, b in bcs],
                           capture_output=True, text=True)
        if r.returncode or not os.path.exists(tmp):
            raise CheckError("normaliser failed: " + r.stderr[-1500:])
        os.rename(tmp, out)
    P = Program(out)
    P.tus = len(bcs)
    return P
