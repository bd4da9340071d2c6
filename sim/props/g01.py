"""G01: gravity of every gas particle and star is the sum over all masses, exactly or within the accuracy asked for."""
import copy
import numpy as np
import core, scen, node, mpisim, refmodel as rm
from core import Violation, Session, must_run
from . import m01

ID = "G01"
VARIANTS = ["serial", "omp", "mpi"]
TIERS = {"quick": {"cases": 1500, "cap_s": 50, "shrink_s": 60}, "thorough": {"cases": 200000, "cap_s": 780, "shrink_s": 90}}
RULE = "distinct (scenario family, scheme, neighbour search, leaf size, tree rebuild interval, levels, opening criterion, multipole, exact, star integrator, threads, ranks, restarted) combinations"
REAL, STUB, ASSUME = mpisim.REAL, core.STUB_SERIAL + mpisim.STUB[-1:], core.ASSUME_SERIAL
FAMS = ["freefall", "freefall", "evrard", "evrard", "hybrid", "hybrid", "sinks", "accrete", "edgesinks", "plummer", "binary"]
PAR = [f for f in FAMS if f in mpisim.FAMS] + ["edgesinks"]
MAXROWS, MAXMOMENTS = 150, 6


def gen(r, tier, i):
    ranks = r.choice([1, 1, 1, 2, 4])
    threads = r.choice([1, 1, 3]) if ranks == 1 else 1
    kw = dict(tscale=r.choice([0.1, 0.3]) if threads == 1 and ranks == 1 else 0.1, nrestartstep=r.choice([100000, 3]), out_file_form="su", tabulated_kernel=0, h_converge=1e-8, kernel="m4")
    s = scen.draw(r, FAMS, **kw) if ranks == 1 else mpisim.draw(r, PAR, **kw)
    p = s["p"]
    p["Npec"] = 1                                                # repeated corrections move stars after their forces were computed
    if "nbody" in p and p["sim"] == "nbody":
        p["nbody_softening"] = r.choice([0, 1]) if s["fam"] == "plummer" else p["nbody_softening"]
    else:
        exact = r.random() < 0.6
        p["neib_search"] = r.choice(["kdtree", "octtree", "bruteforce"])
        p["Nleafmax"] = r.choice([6, 8, 12]) if p["neib_search"] == "octtree" else r.choice([1, 2, 4, 6, 8, 16])
        p["multipole"] = r.choice(["monopole", "quadrupole", "fast_monopole", "fast_quadrupole"])
        p["gravity_mac"] = r.choice(["geometric", "geometric", "gadget2", "eigenmac"])
        p["thetamaxsqd"] = 1e-9 if exact else r.choice([0.02, 0.1, 0.15, 0.3])
        for k in range(p["ndim"]):
            for side in ("lhs", "rhs"):
                if p.get("self_gravity") and "boundary_%s[%d]" % (side, k) in p:
                    p["boundary_%s[%d]" % (side, k)] = "open"   # gravity of a periodic box is another matter
        if ranks == 1:
            p["ntreebuildstep"] = r.choice([1, 1, 2, 4, 8])
        if r.random() < 0.4 and p.get("sph_integration") != "lfdkd":
            p["Nlevels"], p["level_diff_max"] = r.choice([2, 4, 7]), r.choice([1, 2])
        if p["ndim"] == 3:
            p["tend"] *= 0.5
    mem = {"heap.fill": r.choice([0, 170, 256]), "heap.seed": r.randrange(1000), "stack.fill": r.choice([0, 127, 200])} if r.random() < 0.4 else {}
    return {"scen": s, "ranks": ranks, "threads": threads, "sched": r.randrange(10 ** 6), "t": mpisim.timing(r, ranks), "restart": ranks == 1 and r.random() < 0.25, "stop": r.choice([0.3, 0.6]), "mem": mem, "skew": []}


def steps(r, ranks, p):
    """[(state when forces were known, state at the end of the step)], and the state after set-up"""
    D = node.read_dump(r.dump)
    D = [mpisim.merged(m) for m in mpisim.moments(D, ranks)] if ranks > 1 else [d for d in D if "ev" in d]
    pairs, last, before = [], None, None
    for d in D:
        e = d["view"]["event"]
        if e == 2:
            pairs.append((d, d))
        elif e == 9:
            last = d
        elif e == 7:
            before = d                                     # what a sink swallows changes its acceleration, too
        elif e == 4:
            if p["sim"] == "nbody" and p.get("nbody") == "lfkdk":
                last = d                                       # this scheme leaves the stars where their forces were computed
            pairs.append((last, dict(d, S=before["S"]) if before is not None else d))
            last = before = None
    if len(pairs) > MAXMOMENTS:
        k = sorted({0, 1, 2, len(pairs) - 2, len(pairs) - 1} | {int(x) for x in np.linspace(3, len(pairs) - 3, MAXMOMENTS - 4)})
        pairs = [pairs[i] for i in k if 0 <= i < len(pairs)]
    return pairs


def check(P, p, out, what):
    tree = p.get("neib_search") in ("kdtree", "octtree") and p["sim"] != "nbody"
    exact = not tree or p["thetamaxsqd"] < 1e-6
    sg = bool(p.get("self_gravity")) and p["sim"] != "nbody"
    for f, g in P:
        v = g["view"]
        nd, mfv, setup = v["ndim"], v["ismfv"], v["event"] == 2
        where = "%s, step %d (t=%.9g)%s" % (what, v["Nsteps"], v["t"], ", set-up" if setup else "")
        ker = rm.Kernel("m4", nd)
        src = f if f is not None else g
        H = src["H"][src["H"][:, 31] == 0]
        S = src["S"]
        act = np.ones(len(H), bool) if setup else (H[:, 2].astype(np.int64) & 2) != 0
        A = H[act]
        if f is not None and len(A) and (sg or len(S)):
            rng = np.random.RandomState(v["Nsteps"])
            if len(A) > MAXROWS:
                A = A[np.sort(rng.choice(len(A), MAXROWS, replace=False))]
            if sg:
                n, _ = rm.density(A, H, ker, numbers=mfv)
                z = rm.zeta_sum(A, H, ker)
                if not mfv:
                    z = z + rm.zeta_stars(A, S, ker, bool(p.get("nbody_softening", 1)))
                z = z * (-1.0 / nd) * A[:, 18] / n * A[:, 40] * (A[:, 17] if mfv else 1.0)
                z[A[:, 3] != -1] = 0
                free = A[:, 3] == -1
                if p.get("sink_particles"):
                    free &= np.abs((n if mfv else n) / (A[:, 43] if mfv else A[:, 19]) - 1) < 1e-6
                bad = free & ~(np.abs(A[:, 42] - z) <= 1e-6 * np.abs(z) + 1e-30)
                out.probe("corrections compared", int(free.sum()))
                if bad.any():
                    i = int(np.argmax(bad))
                    raise Violation("softening", "%s: particle %d corrects for its changing softening by %.9g, its neighbours call for %.9g" % (where, int(A[i, 0]), A[i, 42], z[i]))
                a, pot, size = rm.gravity(A, None, H, S, ker, mfv)
            else:
                a, pot = rm.star_gravity(A, S, ker)
                size = np.sqrt((a * a).sum(1)) + np.abs(pot)
            da, dp = A[:, 44:44 + nd] - a, A[:, 24] - pot
            out.probe("accelerations of gas compared", len(A))
            if exact or not sg:
                bad = ~(np.abs(da).max(1) <= 1e-9 * size)
                if bad.any():
                    i = int(np.argmax(bad))
                    raise Violation("gas", "%s: particle %d feels gravity %s, the sum over all masses is %s" % (where, int(A[i, 0]), A[i, 44:44 + nd].tolist(), a[i].tolist()))
                bad = ~(np.abs(dp) <= 1e-9 * np.abs(pot)) if sg or not mfv else np.zeros(len(A), bool)
                if bad.any():
                    i = int(np.argmax(bad))
                    raise Violation("potential", "%s: particle %d has the potential %.12g, the sum over all masses is %.12g" % (where, int(A[i, 0]), A[i, 24], pot[i]))
            else:
                sc = np.sqrt((a * a).sum(1)).mean()
                e, ep = np.sqrt((da * da).sum(1)) / sc, np.abs(dp) / np.abs(pot)
                judge(LIMITS[p["multipole"]], (e.max(), np.median(e), ep.max(), np.median(ep)), "gas", where)
        # stars: forces at the positions of f, recorded at g
        T = g["S"]
        if f is None or not len(S) or len(S) != len(T) or p.get("sub_systems"):
            continue
        if p.get("nbody") == "lfdkd" and not setup:
            continue
        due = np.ones(len(T), bool) if setup else (S[:, 13] == v["n"] if f is g else S[:, 12] + S[:, 13] == src["view"]["n"])
        due &= S[:, 9] > 0
        if not due.any():
            continue
        a, pot, size = rm.star_forces(S, H if sg else H[:0], ker, bool(p.get("nbody_softening", 1)), rm.bounds(p, v))
        da, dp = T[:, 6:6 + nd] - a, T[:, 26] - pot
        out.probe("accelerations of stars compared", int(due.sum()))
        if exact or not sg:
            bad = due & ~(np.abs(da).max(1) <= 1e-9 * size)
            if bad.any():
                i = int(np.argmax(bad))
                raise Violation("star", "%s: star %d feels gravity %s, the sum over all masses is %s" % (where, i, T[i, 6:6 + nd].tolist(), a[i].tolist()))
        else:
            e = np.sqrt((da * da).sum(1)) / size
            judge(STARS[p["multipole"]], (e[due].max(), 0, 0, 0), "stars", where)


# largest and median error of the acceleration (in units of its mean) and of the potential (of its value): three times the
# largest of thousands of runs with opening angles of up to 0.55 rad
LIMITS = {"monopole": (0.045, 0.018, 0.02, 0.004), "fast_monopole": (0.045, 0.018, 0.02, 0.004), "quadrupole": (0.01, 0.0025, 0.0025, 0.0004), "fast_quadrupole": (0.04, 0.01, 0.02, 0.003)}
STARS = {"monopole": (0.03,), "fast_monopole": (0.03,), "quadrupole": (0.008,), "fast_quadrupole": (0.02,)}


def judge(limits, have, whom, where):
    if not all(h <= x for h, x in zip(have, limits)):
        raise Violation("accuracy", "%s: the gravity of the %s differs from the sum over all masses by %s (largest and median of acceleration and potential), allowed are %s" % (where, whom, " ".join("%.3g" % x for x in have), " ".join("%g" % x for x in limits)))


def run(case, ctx, out):
    s, ranks, threads, t = case["scen"], case["ranks"], case["threads"], case["t"]
    p = s["p"]
    variant = "mpi" if ranks > 1 else "omp" if threads > 1 else "serial"
    over = dict(case["mem"], **{"events.forces": 1, "events.sinks": 1})
    with Session(ctx, out, variant) as S:
        scen.setup(S.sc, s)
        if ranks > 1:
            r = S.go(plan=mpisim.plan(ranks, t, **over), stalls=t["stalls"], dump="c2 c4 c7 c9")
            mpisim.mpi_must_run(r, "the job of %d ranks" % ranks, reference=True)
            mpisim.stats(r, out)
            P = steps(r, ranks, p)
            check(P, p, out, "the job of %d ranks" % ranks)
        else:
            plan = dict(over, **({"omp.threads": threads, "sched.seed": case["sched"]} if threads > 1 else {}))
            if case["restart"]:
                scen.setup(S.sc, s, tend=p["tend"] * case["stop"])
            r = S.go(plan=plan, dump="c2 c4 c7 c9")
            must_run(r, "the run", reference=True)
            P = steps(r, 1, p)
            check(P, p, out, "the run")
            if case["restart"]:
                scen.setup(S.sc, s)
                r = S.go("-r p.dat", plan=plan, dump="c2 c4 c7 c9")
                must_run(r, "the restarted run", reference=True)
                P = steps(r, 1, p)
                check(P, p, out, "the restarted run")
                out.probe("restarted runs")
    out.nontrivial = len(P) > 1
    out.state(s["fam"], p["sim"], p.get("neib_search"), p.get("Nleafmax"), p.get("ntreebuildstep"), p.get("Nlevels"), p.get("gravity_mac"), p.get("multipole"), p.get("thetamaxsqd"), p.get("nbody"), threads, ranks, case["restart"])


def shrink(case):
    p = case["scen"]["p"]
    for k, v in (("restart", False), ("threads", 1), ("mem", {})):
        if case[k] != v:
            c = copy.deepcopy(case)
            c[k] = v
            yield c
    if case["ranks"] > 1:
        c = copy.deepcopy(case)
        c["ranks"], c["skew"] = 1, []
        yield c
        yield from m01.shrink(case)
    for k, v in (("Nlevels", 1), ("dt_snap", 1e9), ("ntreebuildstep", 1), ("neib_search", "bruteforce"), ("multipole", "monopole"), ("gravity_mac", "geometric")):
        if p.get(k, v) != v:
            c = copy.deepcopy(case)
            c["scen"]["p"][k] = v
            yield c
    c = copy.deepcopy(case)
    c["scen"]["p"]["tend"] *= 0.5
    yield c
