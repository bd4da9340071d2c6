"""Builds, from /repo's current working tree, the images the simulator loads.

Every translation unit of the repository is compiled with the simulation hooks on; objects are kept
in /verif/build keyed by the content of the unit, of every header and of the flags."""
import fcntl, hashlib, os, re, shutil, subprocess, sys, glob, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GANDALF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
NATIVE = os.path.join(VERIF, "sim", "native")

MAX_RANKS = 8
BASE = ["-w", "-fPIC", "-DGANDALF_DOUBLE_PRECISION", "-DGANDALF_GSL", "-DDEBUG1", "-DGANDALF_SIM_HOOKS"]
VARIANTS = {
    # name: (compiler, flags)
    "serial": ("g++", ["-O1"]),
    "mpi": ("g++", ["-O1", "-fno-gnu-unique", "-DMPI_PARALLEL", "-I" + os.path.join(NATIVE, "mpi")]),
    # every memory access calls into the host, which is the only part of the thread sanitizer that is used
    "omp": ("g++", ["-O1", "-fopenmp", "-Dnone=shared", "-fsanitize=thread", "--param=tsan-instrument-func-entry-exit=0"]),
}


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def unit_names(variant):
    mk = _read(os.path.join(REPO, "src", "Makefile")).decode("utf-8", "replace")
    names = []
    for line in re.findall(r"^OBJ\s*\+?=\s*(.*)$", mk, re.M):
        for w in line.split():
            if w.endswith(".o"):
                n = w[:-2]
                if n.startswith("Mpi") and variant != "mpi":
                    continue
                names.append(n)
    for n in ("Exception", "gandalf"):
        names.append(n)
    return sorted(set(names))


def sources():
    out = {}
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in files:
            b, e = os.path.splitext(f)
            if e in (".cpp", ".c") and "UnitTest" not in root and "Testing" not in root:
                out.setdefault(b, os.path.join(root, f))
    return out


def header_hash():
    hs = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in sorted(files):
            if f.endswith((".h", ".hpp", ".ipp", ".tpp", ".inc", ".i", ".def")):
                p = os.path.join(root, f)
                hs.append((os.path.relpath(p, REPO), _read(p)))
    hs.sort()
    return _sha(*[x for pr in hs for x in pr])


def _lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def _run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("%s failed:\n%s\n%s" % (what, " ".join(cmd), r.stdout.decode("utf-8", "replace")[-4000:]))


def prune(keep, sub, maxbytes=1500 << 20):
    files = []
    for p in glob.glob(os.path.join(BUILD, sub, "*")):
        st = os.stat(p)
        files.append((st.st_mtime, st.st_size, p))
    files.sort()
    total = sum(f[1] for f in files)
    for m, s, p in files:
        if total <= maxbytes:
            break
        if p in keep:
            continue
        try:
            os.remove(p)
        except OSError:
            pass
        total -= s


def gnode():
    """the simulator host"""
    lk = _lock()
    try:
        srcs = [os.path.join(NATIVE, f) for f in ("host.cpp", "sched.cpp", "stubs.cpp", "mpi.cpp", "omp.cpp") if os.path.exists(os.path.join(NATIVE, f))]
        deps = srcs + sorted(glob.glob(os.path.join(NATIVE, "*.h")) + glob.glob(os.path.join(NATIVE, "mpi", "*.h")))
        flags = ["-std=c++17", "-O2", "-g", "-w", "-fno-builtin-malloc", "-fno-builtin-pow", "-I" + os.path.join(NATIVE, "mpi")]
        key = _sha(*([_read(d) for d in deps] + flags))
        out = os.path.join(BUILD, "bin", "gnode-" + key)
        if not os.path.exists(out):
            os.makedirs(os.path.dirname(out), exist_ok=True)
            objs = []
            with ThreadPoolExecutor(8) as ex:
                futs = []
                for s in srcs:
                    o = out + "." + os.path.basename(s) + ".o"
                    objs.append(o)
                    futs.append(ex.submit(_run, ["g++"] + flags + ["-c", s, "-o", o], "compiling the simulator"))
                for f in futs:
                    f.result()
            _run(["g++", "-rdynamic", "-o", out + ".tmp"] + objs + ["-ldl"], "linking the simulator")
            os.rename(out + ".tmp", out)
            for o in objs:
                os.remove(o)
        os.utime(out)
        prune({out}, "bin", 200 << 20)
        return out
    finally:
        lk.close()


def image(variant="serial"):
    """compile and link one image of the code under test; returns the path of the shared object"""
    lk = _lock()
    try:
        cxx, vflags = VARIANTS[variant]
        names = unit_names(variant)
        src = sources()
        hh = header_hash()
        probe = os.path.join(NATIVE, "probe.cpp")
        view = _read(os.path.join(NATIVE, "view.h"))
        if variant == "mpi":
            view += _read(os.path.join(NATIVE, "mpi", "mpi.h"))
        objdir = os.path.join(BUILD, "obj")
        os.makedirs(objdir, exist_ok=True)
        os.makedirs(os.path.join(BUILD, "img"), exist_ok=True)
        inc = ["-I" + os.path.join(REPO, "src", "Headers")]
        jobs, objs = [], []
        for n in names:
            if n not in src:
                raise BuildError("no source for object " + n)
            ex = []
            if n == "gandalf":
                ex = ["-Dmain=gandalf_main"]
            s = src[n]
            flags = BASE + vflags + ex + inc
            key = _sha(cxx, " ".join(flags), hh, n, _read(s), view if variant == "mpi" else b"")
            o = os.path.join(objdir, key + ".o")
            objs.append(o)
            if not os.path.exists(o):
                jobs.append((os.path.getsize(s), [cxx] + flags + ["-c", s, "-o"], o, n))
        flags = BASE + vflags + inc + ["-fno-access-control", "-I" + NATIVE]
        key = _sha(cxx, " ".join(flags), hh, "probe", _read(probe), view)
        o = os.path.join(objdir, key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((10**6, [cxx] + flags + ["-c", probe, "-o"], o, "probe"))
        jobs.sort(key=lambda j: -j[0])

        def one(j):
            _, cmd, o, n = j
            _run(cmd + [o + ".tmp"], "compiling " + n)
            os.rename(o + ".tmp", o)
        if jobs:
            with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
                list(ex.map(one, jobs))
        out = os.path.join(BUILD, "img", variant + "-" + _sha(*objs) + ".so")
        if not os.path.exists(out):
            link = [cxx, "-shared", "-o", out + ".tmp"] + objs + ["-L/usr/local/lib", "-lgsl", "-lgslcblas", "-lm", "-Wl,-Bsymbolic"]
            _run(link, "linking image " + variant)
            if variant == "mpi":                 # one copy for every rank: each has its own global variables
                for r in range(1, MAX_RANKS):
                    shutil.copyfile(out + ".tmp", out + ".%d" % r)
            os.rename(out + ".tmp", out)
        for o in objs:
            os.utime(o)
        mine = {out} | ({out + ".%d" % r for r in range(1, MAX_RANKS)} if variant == "mpi" else set())
        for o in mine:
            os.utime(o)
        prune(set(objs), "obj", 2000 << 20)
        prune(mine, "img", 900 << 20)
        return out
    finally:
        lk.close()


if __name__ == "__main__":
    t0 = time.time()
    print(gnode())
    for v in sys.argv[1:]:
        print(image(v), "%.1fs" % (time.time() - t0))
