"""Runs one simulated process (one plan) and parses what it reports."""
import os, re, shutil, struct, subprocess, tempfile, hashlib, signal

SCRATCH_ROOT = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
EV = re.compile(r"^ev (\d+) r(\d+) code=(\d+) (.*)$")
OP = re.compile(r"^op (\d+) (\w+) (\S*)(.*)$")
ROP = re.compile(r"^rop (\d+) (\w+) (\S*)(.*)$")


class HarnessError(Exception):
    """the machinery itself failed; never a violation"""


class Scratch:
    def __init__(self, tag="gsim"):
        self.root = tempfile.mkdtemp(prefix="gandalf-%s-" % tag, dir=SCRATCH_ROOT)
        self.work = os.path.join(self.root, "work")
        os.mkdir(self.work)
        self.n = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        r = self.root
        if r and os.path.dirname(r) == SCRATCH_ROOT and os.path.basename(r).startswith("gandalf-"):
            shutil.rmtree(r, ignore_errors=True)
        self.root = None

    def path(self, *p):
        return os.path.join(self.work, *p)

    def snapshot_tree(self):
        """all files of the working directory: name -> bytes"""
        out = {}
        for root, _, files in os.walk(self.work):
            for f in files:
                p = os.path.join(root, f)
                with open(p, "rb") as fh:
                    out[os.path.relpath(p, self.work)] = fh.read()
        return out

    def restore_tree(self, tree):
        shutil.rmtree(self.work)
        os.mkdir(self.work)
        for k, v in tree.items():
            p = os.path.join(self.work, k)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as fh:
                fh.write(v)


def _num(s):
    try:
        return int(s)
    except ValueError:
        try:
            return float(s)
        except ValueError:
            return s


class Event:
    __slots__ = ("idx", "rank", "code", "line", "t", "step", "n", "nresync", "nblk", "nlr", "Nh", "Ns", "dead", "mg", "ms",
                 "snap", "tsnaplast", "tsnapnext", "lite", "tlitelast", "tlitenext", "restart", "kill", "dig", "mut",
                 "wall", "dt")

    def __init__(self, m):
        self.idx, self.rank, self.code = int(m.group(1)), int(m.group(2)), int(m.group(3))
        self.line = m.group(0)
        d = dict(x.split("=", 1) for x in m.group(4).split())
        self.t, self.step = float(d["t"]), int(d["step"])
        self.n, self.nresync = (int(x) for x in d["n"].split("/"))
        self.nblk, self.nlr = int(d["nblk"]), int(d["nlr"])
        self.Nh, self.Ns, self.dead = int(d["Nh"]), int(d["Ns"]), int(d["dead"])
        self.mg, self.ms = float(d["mg"]), float(d["ms"])
        a = d["snap"].split("/")
        self.snap, self.tsnaplast, self.tsnapnext = int(a[0]), float(a[1]), float(a[2])
        a = d["lite"].split("/")
        self.lite, self.tlitelast, self.tlitenext = int(a[0]), float(a[1]), float(a[2])
        self.restart, self.kill, self.dig, self.mut = int(d["restart"]), int(d["kill"]), d["dig"], int(d["mut"])
        self.wall, self.dt = int(d["wall"]), float(d["dt"])


class Result:
    def __init__(self, rc, lines, dump, stderr, stdout):
        self.rc = rc
        self.lines = lines
        self.dump = dump
        self.stderr = stderr
        self.stdout = stdout
        self.events, self.ops, self.rops = [], [], []
        self.why, self.hash, self.counts = None, None, {}
        self.asserts = []
        self.misc = []
        for l in lines:
            if l.startswith("ev "):
                m = EV.match(l)
                self.events.append(Event(m))
            elif l.startswith("op "):
                m = OP.match(l)
                self.ops.append((int(m.group(1)), m.group(2), m.group(3), m.group(4).strip()))
            elif l.startswith("rop "):
                m = ROP.match(l)
                self.rops.append((int(m.group(1)), m.group(2), m.group(3), m.group(4).strip()))
            elif l.startswith("exit "):
                a = l.split(None, 2)
                self.why = a[2] if len(a) > 2 else ""
                self.exit_code = int(a[1])
            elif l.startswith("hash "):
                self.hash = l.split()[1]
            elif l.startswith("count "):
                self.counts = {k: int(v) for k, v in (x.split("=") for x in l.split()[1:])}
            elif l.startswith("assert "):
                self.asserts.append(l[7:])
            else:
                self.misc.append(l)

    @property
    def ok(self):
        return self.rc == 0

    def faults_fired(self):
        n = {}
        for o in self.ops:
            x = o[3]
            k = None
            if "ENOSPC" in x: k = "write-enospc"
            elif "EIO" in x: k = "write-eio"
            elif "EINTR" in x: k = "write-eintr"
            elif "torn" in x: k = "torn-write-crash"
            elif "full" in x: k = "disk-full"
            elif "filling" in x: k = "write-enospc"
            elif "short" in x: k = "short-write"
            elif "fault" in x and o[1] == "open": k = "open-failure"
            elif "fault" in x and o[1] == "close": k = "close-failure"
            elif "fault" in x: k = o[1] + "-failure"
            if k: n[k] = n.get(k, 0) + 1
        for o in self.rops:
            x = o[3]
            k = None
            if "EIO" in x: k = "read-eio"
            elif "EOF" in x: k = "read-eof"
            elif "EINTR" in x: k = "read-eintr"
            elif "short" in x: k = "short-read"
            elif "fault" in x: k = "read-open-failure"
            if k: n[k] = n.get(k, 0) + 1
        for l in self.misc:
            if l.startswith("crash "): n["crash"] = n.get("crash", 0) + 1
            elif l.startswith("clockjump "): n["clock-jump"] = n.get("clock-jump", 0) + 1
        return n


VIEW_I = ("ndim rank event restart Nsteps n nresync Nblocksteps Nfullsteps level_max level_step Nlevels integration_step "
          "level_diff_max Noutsnap Noutlitesnap nlastrestart kill Nhydro Nstar Nsink ismfv Nnbody dimensionless hydro_single "
          "Nhydromax").split()
VIEW_D = ("t timestep dt_max tend tsnapnext tsnaplast tlitesnapnext tlitesnaplast dt_snap dt_litesnap mmean sr sm st sv su "
          "srho rin min_ tin vin uin rhoin dt_min_hydro").split()
HC, SC = 48, 28
VIEW_FMT = "<32i" + "24d" + "12d" + "4d"
VIEW_SZ = struct.calcsize(VIEW_FMT)


def read_dump(path):
    """yield dict(ev, view, H, S) with numpy arrays, and dict(snap...) records"""
    import numpy as np
    with open(path, "rb") as f:
        buf = f.read()
    p, out = 0, []
    while p + 32 <= len(buf):
        magic, a, b, c = struct.unpack_from("<4q", buf, p)
        p += 32
        if magic == 0x47414e44:
            vals = struct.unpack_from(VIEW_FMT, buf, p)
            p += VIEW_SZ
            v = dict(zip(VIEW_I, vals[:32]))
            v.update(zip(VIEW_D, vals[32:56]))
            v["boxmin"], v["boxmax"] = vals[56:59], vals[59:62]
            v["dommin"], v["dommax"] = vals[62:65], vals[65:68]
            H = np.frombuffer(buf, dtype="<f8", count=b, offset=p).reshape(-1, HC)
            p += 8 * b
            S = np.frombuffer(buf, dtype="<f8", count=c, offset=p).reshape(-1, SC)
            p += 8 * c
            out.append({"ev": a, "view": v, "H": H, "S": S})
        elif magic == 0x534e4150:
            nm = buf[p:p + 64]
            fn = buf[p + 64:p + 192].split(b"\0")[0].decode()
            t, = struct.unpack_from("<d", buf, p + 192)
            p += 200
            names = [nm[24 + 8 * i:32 + 8 * i].split(b"\0")[0].decode() for i in range(c)]
            cols = {}
            for i in range(c):
                cols[names[i]] = np.frombuffer(buf, dtype="<f8", count=b, offset=p)
                p += 8 * b
            out.append({"snap": a, "species": nm[:24].split(b"\0")[0].decode(), "file": fn, "t": t, "n": b, "cols": cols})
        else:
            raise HarnessError("bad dump record in " + path)
    return out


def run(gnode, image, scratch, plan=None, faults=(), clks=(), ops=(), stalls=(), timeout=120, dump=None, keep=False, cpu=110):
    """plan: dict of extra keys; returns Result"""
    scratch.n += 1
    base = os.path.join(scratch.root, "n%d" % scratch.n)
    kv = {"image": image, "cwd": scratch.work, "trace": base + ".trace", "stdout": base + ".out"}
    if dump is not None:
        kv["dumpfile"] = base + ".dump"
        kv["dump"] = dump
    kv.update(plan or {})
    with open(base + ".plan", "w") as f:
        for k, v in kv.items():
            f.write("%s %s\n" % (k, v))
        for x in faults:
            f.write("fault %s %d %d %d\n" % tuple(x))
        for x in clks:
            f.write("clk %d %d %d %d\n" % tuple(x))
        for x in ops:
            f.write("op %s %d\n" % tuple(x))
        for x in stalls:
            f.write("stall %d %d %d\n" % tuple(x))
    env = {"PATH": "/usr/bin:/bin", "LANG": "C", "GNODE_CPU": str(cpu)}
    env["MALLOC_ARENA_MAX"] = "1"
    try:
        p = subprocess.run([gnode, base + ".plan"], cwd=scratch.root,
                           stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout, env=env)
        rc, err = p.returncode, p.stderr[-2000:].decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        rc, err = 203, "wall timeout"
    try:
        with open(base + ".trace") as f:
            lines = f.read().split("\n")
        if lines and lines[-1] == "":
            lines.pop()
        else:
            lines = lines[:-1]
    except OSError:
        lines = []
    out = ""
    try:
        with open(base + ".out", "rb") as f:
            out = f.read()[-3000:].decode("utf-8", "replace")
    except OSError:
        pass
    r = Result(rc, lines, base + ".dump" if dump is not None else None, err, out)
    if 96 <= rc <= 99 or rc == 250:
        raise HarnessError("simulated process could not start: rc=%d %s %s" % (rc, err, "\n".join(lines[-3:])))
    if not keep:
        for e in (".trace", ".out"):
            try:
                os.remove(base + e)
            except OSError:
                pass
    return r


def tree_hash(tree, skip=()):
    h = hashlib.sha256()
    for k in sorted(tree):
        if k in skip:
            continue
        h.update(k.encode() + b"\0" + tree[k] + b"\0")
    return h.hexdigest()[:16]
