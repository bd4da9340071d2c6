"""M04: a parallel job computes and records what a single process would."""
import copy
import numpy as np
import core, scen, node, mpisim
from core import Violation, Session, must_run
from . import m01, r03

ID = "M04"
VARIANTS = ["serial", "mpi"]
TIERS = {"quick": {"cases": 1500, "cap_s": 50, "shrink_s": 60}, "thorough": {"cases": 200000, "cap_s": 780, "shrink_s": 90}}
RULE = "distinct (scenario family, scheme, neighbour search, dimensions, boundaries, levels, multipole, ranks, format, compared to the end, hash of the interleaving) combinations"
REAL, STUB, ASSUME = mpisim.REAL, mpisim.STUB, mpisim.ASSUME
FAMS = mpisim.FAMS + ["edgesinks"]


def gen(r, tier, i):
    ranks = r.choice([2, 2, 4, 4, 8])
    s = mpisim.draw(r, FAMS, tscale=r.choice([0.1, 0.2]), out_file_form=r.choice(["su", "su", "column"]), nrestartstep=r.choice([100000, 3]), ndiagstep=r.choice([100000, 1]))
    p = s["p"]
    p["h_converge"], p["tabulated_kernel"] = 1e-7, 0                       # the solution for h is then unique
    p["dt_snap"] = p["tend"] / r.choice([1.7, 3, 7])
    p["tsnapfirst"] = r.choice([0.0, 0.4 * p["dt_snap"]])
    return {"scen": s, "ranks": ranks, "t": mpisim.timing(r, ranks), "restart": False, "skew": []}


def content(r, ms, S, p, fam, out):
    """every snapshot the job wrote holds the state of all ranks at its moment"""
    form, tree, last = p["out_file_form"], S.files(), None
    n = 0
    for m in ms:
        v = m[0]["view"]
        if v["event"] in (3, 5):
            d = mpisim.merged(m)
            if v["Noutsnap"] != (last["Noutsnap"] if last else 0):
                f = "RUN.%s.%05d" % (form, v["Noutsnap"])
                if f not in tree:
                    raise Violation("missing", "the job counts snapshot %d at step %d but %s is not there" % (v["Noutsnap"], v["Nsteps"], f))
                if not (form == "column" and (d["H"][:, 31] != 0).any()):
                    r03.check_content(f, tree[f], form, d, None, p, fam)
                    n += 1
            last = v
    out.probe("snapshots of jobs compared", n)


def by_id(H):
    H = H[H[:, 31] == 0]
    return H[np.argsort(H[:, 0], kind="stable")]


def compare(a, b, p):
    """largest and median difference of each quantity, in units of its own scale"""
    nd = a["view"]["ndim"]
    A, B = by_id(a["H"]), by_id(b["H"])
    if not len(A) and not len(B):
        return {}
    if len(A) != len(B) or not np.array_equal(A[:, 0], B[:, 0]):
        raise Violation("particles", "the job has %d particles, the single process %d" % (len(B), len(A)))
    R = {}
    if not len(A):
        return R
    h = A[:, 18:19]

    def rel(x, y, sc):
        d = np.abs(x - y).reshape(len(A), -1).max(1)
        return float((d / sc).max()), float(np.median(d / sc))
    dr = A[:, 8:8 + nd] - B[:, 8:8 + nd]
    for k in range(nd):
        if p.get("boundary_lhs[%d]" % k) == "periodic":
            L = a["view"]["boxmax"][k] - a["view"]["boxmin"][k]
            dr[:, k] -= L * np.round(dr[:, k] / L)
    R["r"] = rel(dr, 0 * dr, h[:, 0])
    for nm, c in (("v", slice(11, 11 + nd)), ("a", slice(14, 14 + nd))):
        X, Y = A[:, c], B[:, c]
        sc = np.sqrt((X * X).sum(1)).mean() + 1e-300
        cs = float(A[:, 37].mean())
        if nm == "v":
            sc = max(sc, cs)
        elif p.get("self_gravity"):
            sc += float(np.abs(A[:, 24]).mean()) / float(np.std(A[:, 8:8 + nd], axis=0).max() * 3)
        else:
            sc += float((A[:, 37] ** 2 / A[:, 18]).mean())
        R[nm] = rel(X, Y, np.full(len(A), sc))
    for nm, c in (("m", 17), ("h", 18), ("rho", 19), ("u", 20)) + ((("gpot", 24),) if p.get("self_gravity") else ()):
        R[nm] = rel(A[:, c], B[:, c], np.abs(A[:, c]) + 1e-300)
    R["dudt"] = rel(A[:, 30], B[:, 30], np.abs(A[:, 30]) + A[:, 20] * A[:, 37] / A[:, 18] + 1e-300)
    return R


def run(case, ctx, out):
    s, ranks, t = case["scen"], case["ranks"], case["t"]
    p = s["p"]
    with Session(ctx, out, "serial") as S:
        scen.setup(S.sc, s)
        a = S.go(dump="c2 c3 c5")
        must_run(a, "the single process", reference=True)
        A = [d for d in node.read_dump(a.dump)]
    with Session(ctx, out, "mpi") as S:
        scen.setup(S.sc, s)
        r = S.go(plan=mpisim.plan(ranks, t), stalls=t["stalls"], dump="c2 c3 c5")
        mpisim.mpi_must_run(r, "the job of %d ranks" % ranks, reference=True)
        mpisim.stats(r, out)
        ms = mpisim.moments(node.read_dump(r.dump), ranks)
        content(r, ms, S, p, s["fam"], out)
    M = [mpisim.merged(m) for m in ms]
    a2 = [d for d in A if d["view"]["event"] == 2][0]
    b2 = [d for d in M if d["view"]["event"] == 2][0]
    grav, mfv = bool(p.get("self_gravity")), bool(a2["view"]["ismfv"])
    judge(compare(a2, b2, p), START[grav], "after set-up", out)
    a1, b1 = A[-1], M[-1]
    done = a1["view"]["t"] > 0
    if done and not (swallowed(a1, a2) or swallowed(b1, b2)):      # whom a sink swallows may hang on a rounding
        judge(compare(a1, b1, p), END[grav, mfv], "at the end (t=%.9g and %.9g)" % (a1["view"]["t"], b1["view"]["t"]), out)
        out.probe("jobs compared to their end")
    out.nontrivial = len(M) > 2
    out.state(s["fam"], p["sim"], p.get("neib_search"), p["ndim"], p.get("boundary_lhs[0]"), p.get("Nlevels"), p.get("multipole"), ranks, p["out_file_form"], done, mpisim.schedule(r))


# largest and median difference allowed, each in units of the scale of its quantity: sums over neighbours agree to the
# precision of the smoothing lengths, tree gravity to its opening angle, later states to what grows from that
START = {False: {"r": (1e-9, 1e-12), "v": (1e-9, 1e-12), "m": (1e-12, 1e-13), "u": (1e-6, 1e-8), "h": (1e-5, 1e-6), "rho": (1e-5, 1e-6), "a": (1e-5, 1e-7), "dudt": (2e-5, 1e-7)},
         True: {"r": (1e-9, 1e-12), "v": (1e-9, 1e-12), "m": (1e-12, 1e-13), "u": (1e-6, 1e-8), "h": (1e-5, 1e-6), "rho": (1e-5, 1e-6), "a": (0.1, 0.025), "gpot": (0.1, 0.015), "dudt": (1e-5, 1e-7)}}
E0 = {"r": (5e-2, 1e-3), "v": (1e-1, 1e-3), "u": (5e-2, 1e-3), "h": (3e-2, 1e-3), "rho": (5e-2, 1e-3), "m": (2e-2, 1e-4)}
E1 = {"r": (0.5, 1e-2), "v": (0.5, 5e-2), "u": (0.5, 3e-2), "h": (0.3, 1e-2), "rho": (0.5, 2e-2), "a": (1.0, 5e-2), "gpot": (0.3, 2e-2), "m": (5e-2, 1e-3)}
END = {(False, False): dict(E0, a=(1e-1, 1e-3), dudt=(1e-1, 1e-3)), (False, True): E0, (True, False): E1, (True, True): E1}
NAMES = {"r": "positions", "v": "velocities", "m": "masses", "u": "internal energies", "h": "smoothing lengths", "rho": "densities", "a": "accelerations", "dudt": "heating rates", "gpot": "potentials"}


def swallowed(d, d0):
    n = lambda x: len(x["H"]) - int((x["H"][:, 31] != 0).sum())
    return n(d) != n(d0) or len(d["S"]) != len(d0["S"])


def judge(R, T, what, out):
    for k, (mx, md) in R.items():
        if k in T and not (mx <= T[k][0] and md <= T[k][1]):
            raise Violation("differs", "%s the %s of the job differ from those of a single process by %.3g at most and %.3g in the middle, both relative to their scale (allowed are %g and %g)" % (what, NAMES[k], mx, md, *T[k]))
    out.probe("states compared", 1)


shrink = m01.shrink
