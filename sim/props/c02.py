"""C02: forming sinks and accreting gas conserves mass, momentum, centre of mass and angular momentum, and takes only what is inside."""
import copy
import numpy as np
import core, scen, node, mpisim
from core import Violation, Session, must_run
from . import m01

ID = "C02"
VARIANTS = ["serial", "mpi"]
TIERS = {"quick": {"cases": 1500, "cap_s": 50, "shrink_s": 60}, "thorough": {"cases": 200000, "cap_s": 780, "shrink_s": 90}}
RULE = "distinct (scenario family, scheme, dimensions, boundaries, neighbour search, levels, smooth accretion, ranks, sinks formed, particles swallowed entirely or in part, images of particles swallowed, restarted) combinations"
REAL, STUB, ASSUME = core.REAL_SERIAL, core.STUB_SERIAL + mpisim.STUB[-1:], core.ASSUME_SERIAL
FAMS = ["sinks", "accrete", "swallow", "edgesinks", "edgesinks"]


def gen(r, tier, i):
    ranks = r.choice([1, 1, 1, 1, 1, 2, 4])
    kw = dict(tscale=r.choice([0.5, 1.0, 1.5]), nrestartstep=r.choice([100000, 2, 3]), out_file_form="su")
    s = scen.draw(r, FAMS, **kw) if ranks == 1 else mpisim.draw(r, FAMS, **kw)
    p = s["p"]
    if s["fam"] == "accrete" and r.random() < 0.4:
        p["create_sinks"], p["rho_sink"] = 1, r.choice([0.5, 1.0])
        p["sink_radius_mode"], p["sink_radius"] = r.choice([("hmult", 1.0), ("hmult", 2.0), ("fixed", 0.1)])
    if s["fam"] == "sinks":
        p["tend"] *= r.choice([1, 3])
        p["rho_sink"] = r.choice([3e-18, 1e-17, 2e-17])
    restart = r.random() < 0.25
    if s["fam"] == "sinks" and (restart or ranks > 1):
        p["rho_sink"] = 2e-17                                              # below that set-up may fail: known finding F12
    return {"scen": s, "ranks": ranks, "t": mpisim.timing(r, ranks), "restart": restart, "stop": r.choice([0.3, 0.6]), "skew": []}


def sums(H, S, nd):
    """mass, momentum, first moment, angular momentum, and the scale of each"""
    g = H[H[:, 31] == 0]
    m = np.concatenate([g[:, 17], S[:, 9]])
    r = np.concatenate([g[:, 8:8 + nd], S[:, 0:nd]])
    v = np.concatenate([g[:, 11:11 + nd], S[:, 3:3 + nd]])
    if nd == 3:
        L = np.cross(r, v)
        spin = S[:, 19:22].sum(0)
    elif nd == 2:
        L = (r[:, 0] * v[:, 1] - r[:, 1] * v[:, 0])[:, None]
        spin = S[:, 21:22].sum(0)
    else:
        L, spin = np.zeros((len(m), 1)), np.zeros(1)
    R, V = np.abs(r).max(initial=0.0), np.abs(v).max(initial=0.0)
    return (np.array([m.sum()]), (m[:, None] * v).sum(0), (m[:, None] * r).sum(0), (m[:, None] * L).sum(0) + spin), (m.sum(), m.sum() * V, m.sum() * R, m.sum() * R * V)


NAMES = ["mass", "momentum", "centre of mass", "angular momentum"]


def pair(a, b, p, ranks, out, what):
    """the state right before and right after sinks were formed and accreted"""
    nd = a["view"]["ndim"]
    where = "%sstep %d" % (what, a["view"]["Nsteps"])
    Ha, Hb, Sa, Sb = a["H"], b["H"], a["S"], b["S"]
    if len(Ha) != len(Hb) or not np.array_equal(Ha[:, 0], Hb[:, 0]):
        raise Violation("particles", "%s: the list of particles changed while sinks accreted" % where)
    bnd = [p.get("boundary_lhs[%d]" % k, "open") for k in range(nd)]
    openbox = all(x == "open" for x in bnd)
    A, sc = sums(Ha, Sa, nd)
    B, _ = sums(Hb, Sb, nd)
    for i, nm in enumerate(NAMES):
        if i >= 2 and "periodic" in bnd:
            continue                                                       # images are where their originals are not
        if (np.abs(A[i] - B[i]) > 1e-11 * sc[i]).any():
            raise Violation(nm.replace(" ", "-"), "%s: sink formation and accretion changed the total %s from %s to %s" % (where, nm, A[i].tolist(), B[i].tolist()))
    live_a, live_b = Ha[:, 31] == 0, Hb[:, 31] == 0
    if (live_b & ~live_a).any():
        raise Violation("particles", "%s: particle %d came back to life" % (where, int(Ha[live_b & ~live_a][0, 0])))
    if (Hb[live_b][:, 17] <= 0).any():
        raise Violation("particles", "%s: live particles without mass" % where)
    na, nb = len(Sa), len(Sb)
    if nb < na:
        raise Violation("stars", "%s: %d of %d stars vanished" % (where, na - nb, na))
    gone = live_a & ~live_b
    part = live_b & (Hb[:, 17] != Ha[:, 17])
    if (Hb[live_b][:, 17] > Ha[live_b][:, 17]).any():
        raise Violation("particles", "%s: a particle gained mass from a sink" % where)
    same = live_b & (np.any(Hb[:, 8:14] != Ha[:, 8:14], axis=1))
    if same.any():
        raise Violation("particles", "%s: particle %d moved while sinks accreted" % (where, int(Ha[same][0, 0])))
    new = nb - na
    if new > gone.sum():
        raise Violation("stars", "%s: %d stars from %d particles" % (where, new, gone.sum()))
    # what was taken was inside: of a star that existed, or of one that formed from a particle that is gone
    rb = Ha[:, 8:8 + nd]
    size = np.array([a["view"]["boxmax"][k] - a["view"]["boxmin"][k] for k in range(nd)])

    def dist(x, y):
        d = x - y
        for k in range(nd):
            if bnd[k] == "periodic":
                d[:, k] -= size[k] * np.round(d[:, k] / size[k])
        return np.sqrt((d * d).sum(1))
    taken = gone | part
    inside = np.zeros(len(Ha), bool)
    for s in range(na):
        inside |= dist(rb, Sa[s, :nd]) <= Sa[s, 18] * (1 + 1e-12)
    if new:
        rnew = Sb[na:, 18].max()
        for j in np.nonzero(gone & ~inside)[0]:
            inside |= dist(rb, rb[j]) <= rnew * (1 + 1e-12)
    if (taken & ~inside).any():
        j = np.nonzero(taken & ~inside)[0][0]
        raise Violation("outside", "%s: particle %d at %s lost mass %g though it is in no sink" % (where, int(Ha[j, 0]), rb[j].tolist(), Ha[j, 17] - (Hb[j, 17] if live_b[j] else 0)))
    # a star that swallowed nothing is left alone
    d = Sb[:na, 9] - Sa[:, 9]
    if (d < -1e-14 * Sa[:, 9]).any():
        raise Violation("stars", "%s: a star lost mass" % where)
    for s in range(na):
        if d[s] == 0 and np.any(np.abs(Sb[s, :6] - Sa[s, :6]) > 1e-14 * (1e-300 + np.abs(Sa[s, :6]))):
            raise Violation("stars", "%s: star %d was changed without having swallowed anything" % (where, s))
        if d[s] > 0 and not (taken & (dist(rb, Sa[s, :nd]) <= Sa[s, 18] * (1 + 1e-12))).any():
            raise Violation("outside", "%s: star %d grew by %g with nothing inside" % (where, s, d[s]))
    # nothing stays inside a sink that is due, unless it takes its gas bit by bit
    if p["smooth_accretion"] == 0 and new == 0 and ranks == 1 and na:
        owner = np.full(len(Ha), -1)
        for s in range(na):
            x = rb - Sa[s, :nd]
            near = np.sqrt((x * x).sum(1)) < Sa[s, 18] * (1 - 1e-12)
            owner[near] = s
        n = a["view"]["n"]
        for s in range(na):
            late = live_b & (owner == s)
            if "periodic" not in bnd and n % int(max(1, Sa[s, 12])) == 0 and late.any():
                raise Violation("left-inside", "%s: particle %d stays inside sink %d, which swallows everything" % (where, int(Ha[late][0, 0]), s))
    img = False
    if not openbox and taken.any():
        x = np.ones(len(Ha), bool)
        for s in range(nb):
            q = rb - (Sa[s, :nd] if s < na else Sb[s, :nd])
            x &= np.sqrt((q * q).sum(1)) > Sb[s, 18] * 1.01
        img = bool((x & taken).any())
    return int(gone.sum()), int(part.sum()), new, img


def union(m, ranks):
    if ranks == 1:
        return m[0]
    H = np.concatenate([d["H"] for d in m])
    o = np.argsort(H[:, 0], kind="stable")
    return {"view": m[0]["view"], "H": H[o], "S": m[0]["S"]}


def history(r, p, ranks, out, what):
    dumps = [d for d in node.read_dump(r.dump)]
    ms = mpisim.moments(dumps, ranks) if ranks > 1 else [[d] for d in dumps]
    G = P = N = 0
    I = False
    prev = None
    for m in ms:
        e = m[0]["view"]["event"]
        if e == 7:
            prev = union(m, ranks)
        elif e == 8 and prev is not None:
            g, q, n, i = pair(prev, union(m, ranks), p, ranks, out, what)
            G, P, N, I, prev = G + g, P + q, N + n, I or i, None
    return G, P, N, I


def run(case, ctx, out):
    s, ranks, t = case["scen"], case["ranks"], case["t"]
    p = s["p"]
    plan = dict(mpisim.plan(ranks, t) if ranks > 1 else {}, **{"events.sinks": 1})
    with Session(ctx, out, "mpi" if ranks > 1 else "serial") as S:
        def go(argv, what):
            r = S.go(argv, plan=plan, stalls=t["stalls"] if ranks > 1 else (), dump="c7 c8")
            (mpisim.mpi_must_run if ranks > 1 else must_run)(r, "the run" + what, reference=True)
            G, P, N, I = history(r, p, ranks, out, what and "after a restart: ")
            out.probe("particles swallowed entirely", G - N)
            out.probe("particles swallowed in part", P)
            out.probe("sinks formed", N)
            out.probe("runs in which an image was swallowed", I)
            out.nontrivial = out.nontrivial or G + P > 0
            out.state(s["fam"], p["sim"], p["ndim"], p.get("boundary_lhs[0]"), p.get("neib_search"), p.get("Nlevels"), p["smooth_accretion"], ranks, min(N, 3), G > N, P > 0, I, bool(what))
        if case["restart"]:
            scen.setup(S.sc, s, tend=p["tend"] * case["stop"])
            go("p.dat", "")
            scen.setup(S.sc, s)
            go("-r p.dat", " restarted")
        else:
            scen.setup(S.sc, s)
            go("p.dat", "")


def shrink(case):
    if case["ranks"] > 1:
        c = copy.deepcopy(case)
        c["ranks"] = 1
        yield c
    yield from m01.shrink(case)
