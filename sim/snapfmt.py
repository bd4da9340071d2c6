"""Independent readers (and one writer) for the snapshot formats, written from the format itself.

read(path|bytes, form) -> Snap, or raises BadSnapshot when the file is not exactly one complete snapshot."""
import struct
import numpy as np


class BadSnapshot(Exception):
    pass


class Snap:
    """fields in file units: t, ndim, Nh, Ns, noutsnap, nsteps, noutlite, tsnaplast, mmean, tlitelast, counts (icm,gas,cdm,dust),
    arrays iorig,r,m,h,v,rho,u and stars r,v,m,h,radius"""
    def __init__(self):
        self.noutsnap = self.nsteps = self.noutlite = None
        self.tsnaplast = self.mmean = self.tlitelast = None
        self.counts = None
        self.units = []
        self.iorig = None
        self.star = {}


TAG_U, TAG_F = b"SERENBINARYDUMPV3", "SERENASCIIDUMPV2"
IDS = ["porig", "r", "m", "h", "v", "rho", "u", "temp"]


def _b(x):
    if isinstance(x, bytes):
        return x
    with open(x, "rb") as f:
        return f.read()


class _Cur:
    def __init__(self, b):
        self.b, self.p = b, 0

    def take(self, n):
        if n < 0 or self.p + n > len(self.b):
            raise BadSnapshot("file ends early at byte %d of %d wanted" % (len(self.b), self.p + n))
        r = self.b[self.p:self.p + n]
        self.p += n
        return r

    def arr(self, dt, n):
        return np.frombuffer(self.take(np.dtype(dt).itemsize * n), dtype=dt)


def read_su(src, lite=False):
    c = _Cur(_b(src))
    s = Snap()
    tag = c.take(20)
    if tag.strip() != TAG_U:
        raise BadSnapshot("wrong tag")
    pr, n1, n2, n3 = c.arr("<i4", 4)
    fl = "<f4" if pr == 4 else "<f8"
    if pr not in (4, 8) or not (n1 == n2 == n3) or not 1 <= n1 <= 3:
        raise BadSnapshot("bad header")
    s.ndim = nd = int(n1)
    idata, ilp = c.arr("<i4", 50), c.arr("<i8", 50)
    rdata = c.arr(fl, 50)
    dd = c.arr("<f8", 50)
    nunit, ndata = int(idata[19]), int(idata[20])
    if not (0 <= nunit <= 50 and 0 <= ndata <= 50):
        raise BadSnapshot("bad unit/data counts")
    s.units = [c.take(20).decode("latin1").strip() for _ in range(nunit)]
    ids = [c.take(20).decode("latin1").strip() for _ in range(ndata)]
    td = c.arr("<i4", 5 * ndata).reshape(ndata, 5)
    s.Nh, s.Ns = int(idata[0]), int(idata[1])
    s.counts = tuple(int(x) for x in idata[3:7])
    if sum(s.counts) != s.Nh or s.Nh < 0 or s.Ns < 0:
        raise BadSnapshot("particle counts do not add up")
    s.noutsnap, s.nsteps, s.noutlite = int(ilp[0]), int(ilp[1]), int(ilp[10])
    s.t, s.tsnaplast, s.mmean, s.tlitelast = float(dd[0]), float(dd[1]), float(dd[2]), float(dd[10])
    s.rdata = rdata
    s.ids = ids
    for k, name in enumerate(ids):
        if name == "sink_v1":
            L = 12 + 2 * nd
            hd = list(c.arr("<i4", 6))
            if hd != [2, 2, 0, L, 0, 0] or int(td[k][2]) != s.Ns:
                raise BadSnapshot("bad sink block")
            rows = []
            for i in range(s.Ns):
                q = c.arr("<i4", 4)
                if list(q) != [1, 1, i + 1, 0]:
                    raise BadSnapshot("bad sink row")
                rows.append(c.arr(fl, L))
            _stars(s, np.array(rows, dtype=float).reshape(s.Ns, L))
        else:
            if int(td[k][2]) != s.Nh or int(td[k][1]) != 1:
                raise BadSnapshot("array extent differs from the particle number")
            if name == "porig":
                s.iorig = c.arr("<i4", s.Nh).astype(int)
            elif name in ("r", "v"):
                setattr(s, name, c.arr(fl, s.Nh * nd).reshape(s.Nh, nd).astype(float))
            elif name in ("m", "h", "rho", "u", "temp"):
                setattr(s, name, c.arr(fl, s.Nh).astype(float))
            else:
                raise BadSnapshot("unknown array " + name)
    if c.p != len(c.b):
        raise BadSnapshot("%d bytes after the end of the snapshot" % (len(c.b) - c.p))
    _need(s, lite)
    return s


def _stars(s, rows):
    nd = s.ndim
    s.star = {"r": rows[:, 1:1 + nd], "v": rows[:, 1 + nd:1 + 2 * nd], "m": rows[:, 1 + 2 * nd],
              "h": rows[:, 2 + 2 * nd], "radius": rows[:, 3 + 2 * nd]}


def _need(s, lite):
    want = {"r", "m", "h", "rho", "u"} | (set() if lite else {"porig", "v"})
    if s.Nh and not want <= set(s.ids):
        raise BadSnapshot("arrays missing: %s" % sorted(want - set(s.ids)))
    if s.Ns and "sink_v1" not in s.ids:
        raise BadSnapshot("star block missing")


def read_sf(src):
    b = _b(src)
    tok = b.decode("latin1").split()
    if not b.endswith(b"\n"):
        raise BadSnapshot("file ends early")
    p = [0]

    def take(n, f=float):
        if p[0] + n > len(tok):
            raise BadSnapshot("file ends early at token %d" % len(tok))
        r = tok[p[0]:p[0] + n]
        p[0] += n
        try:
            return [f(x) for x in r]
        except ValueError as e:
            raise BadSnapshot(str(e))
    s = Snap()
    if take(1, str)[0] not in (TAG_F, "SERENASCIIDUMPV3"):
        raise BadSnapshot("wrong tag")
    pr, n1, n2, n3 = take(4, int)
    if not (n1 == n2 == n3) or not 1 <= n1 <= 3:
        raise BadSnapshot("bad header")
    s.ndim = nd = n1
    idata, ilp, rdata, dd = take(50, int), take(50, int), take(50), take(50)
    nunit, ndata = idata[19], idata[20]
    if not (0 <= nunit <= 50 and 0 <= ndata <= 50):
        raise BadSnapshot("bad unit/data counts")
    s.units = take(nunit, str)
    s.ids = take(ndata, str)
    td = [take(5, int) for _ in range(ndata)]
    s.Nh, s.Ns = idata[0], idata[1]
    s.counts = tuple(idata[3:7])
    if sum(s.counts) != s.Nh:
        raise BadSnapshot("particle counts do not add up")
    s.noutsnap, s.nsteps, s.noutlite = ilp[0], ilp[1], ilp[10]
    s.t, s.tsnaplast, s.mmean, s.tlitelast = dd[0], dd[1], dd[2], dd[10]
    for k, name in enumerate(s.ids):
        if name == "sink_v1":
            L = 12 + 2 * nd
            if take(6, int) != [2, 2, 0, L, 0, 0]:
                raise BadSnapshot("bad sink block")
            rows = []
            for i in range(s.Ns):
                fl = take(1, str)[0]
                if fl in ("T", "F"):
                    fl += take(1, str)[0]
                if fl != "TT" or take(2, int) != [i + 1, 0]:
                    raise BadSnapshot("bad sink row")
                rows.append(take(L))
            _stars(s, np.array(rows, dtype=float).reshape(s.Ns, L))
        else:
            if td[k][2] != s.Nh:
                raise BadSnapshot("array extent differs from the particle number")
            if name == "porig":
                s.iorig = np.array(take(s.Nh, int))
            elif name in ("r", "v"):
                setattr(s, name, np.array(take(s.Nh * nd)).reshape(s.Nh, nd))
            elif name in ("m", "h", "rho", "u", "temp"):
                setattr(s, name, np.array(take(s.Nh)))
            else:
                raise BadSnapshot("unknown array " + name)
    if p[0] != len(tok):
        raise BadSnapshot("%d tokens after the end of the snapshot" % (len(tok) - p[0]))
    _need(s, False)
    return s


def read_column(src):
    b = _b(src)
    if not b.endswith(b"\n"):
        raise BadSnapshot("file ends early")
    lines = b.decode("latin1").split("\n")[:-1]
    if len(lines) < 4:
        raise BadSnapshot("header incomplete")
    s = Snap()
    try:
        s.Nh, s.Ns, s.ndim, s.t = int(lines[0]), int(lines[1]), int(lines[2]), float(lines[3])
        rows = [[float(x) for x in l.split()] for l in lines[4:]]
    except ValueError as e:
        raise BadSnapshot(str(e))
    nd = s.ndim
    if len(rows) != s.Nh + s.Ns or any(len(r) != 2 * nd + 4 for r in rows):
        raise BadSnapshot("row count or length")
    a = np.array(rows[:s.Nh]).reshape(s.Nh, 2 * nd + 4)
    s.r, s.v, s.m, s.h, s.rho, s.u = a[:, :nd], a[:, nd:2 * nd], a[:, 2 * nd], a[:, 2 * nd + 1], a[:, 2 * nd + 2], a[:, 2 * nd + 3]
    q = np.array(rows[s.Nh:]).reshape(s.Ns, 2 * nd + 4)
    if s.Ns:
        s.star = {"r": q[:, :nd], "v": q[:, nd:2 * nd], "m": q[:, 2 * nd], "h": q[:, 2 * nd + 1]}
    return s


def read(src, form):
    if form in ("su", "seren_unform"):
        return read_su(src)
    if form in ("sf", "seren_form"):
        return read_sf(src)
    if form == "slite":
        return read_su(src, lite=True)
    if form == "column":
        return read_column(src)
    raise BadSnapshot("unknown format " + repr(form))


def write_su(nd, r, v, m, h, rho, u, counts, star=None, t=0.0):
    """bytes of a dimensionless snapshot; star = (r, v, m, h, radius) arrays; counts = (icm, gas, cdm, dust)"""
    N = len(m)
    Ns = 0 if star is None else len(star[2])
    ids, td = [], []
    if N:
        for name, w, typ, un in (("porig", 1, 2, 0), ("r", nd, 4, 1), ("m", 1, 4, 2), ("h", 1, 4, 1), ("v", nd, 4, 4), ("rho", 1, 4, 6), ("u", 1, 4, 20)):
            ids.append(name)
            td.append((w, 1, N, typ, un))
    if Ns:
        ids.append("sink_v1")
        td.append((1, 1, Ns, 7, 0))
    idata = [0] * 50
    idata[0], idata[1], idata[20] = N, Ns, len(ids)
    idata[3:7] = list(counts)
    dd = [0.0] * 50
    dd[0] = t
    dd[2] = float(np.mean(m)) if N else 0.0
    o = TAG_U.ljust(20) + struct.pack("<4i", 8, nd, nd, nd) + struct.pack("<50i", *idata) + struct.pack("<50q", *([0] * 50))
    o += struct.pack("<50d", *([0.0] * 50)) + struct.pack("<50d", *dd)
    o += b"".join(i.encode().ljust(20) for i in ids) + b"".join(struct.pack("<5i", *x) for x in td)
    if N:
        o += np.arange(N, dtype="<i4").tobytes()
        for a in (r, m, h, v, rho, u):
            o += np.ascontiguousarray(a, dtype="<f8").tobytes()
    if Ns:
        L = 12 + 2 * nd
        o += struct.pack("<6i", 2, 2, 0, L, 0, 0)
        sr, sv, sm, sh, srad = star
        for i in range(Ns):
            row = np.zeros(L)
            row[1:1 + nd], row[1 + nd:1 + 2 * nd] = sr[i], sv[i]
            row[1 + 2 * nd], row[2 + 2 * nd], row[3 + 2 * nd] = sm[i], sh[i], srad[i]
            o += struct.pack("<4i", 1, 1, i + 1, 0) + row.astype("<f8").tobytes()
    return o
