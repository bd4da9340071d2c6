"""N01: density and hydrodynamical forces of every particle are the sums over exactly its true neighbours."""
import copy
import numpy as np
import core, scen, node, mpisim, refmodel as rm
from core import Violation, Session, must_run
from . import m01

ID = "N01"
VARIANTS = ["serial", "omp", "mpi"]
TIERS = {"quick": {"cases": 1500, "cap_s": 50, "shrink_s": 60}, "thorough": {"cases": 200000, "cap_s": 780, "shrink_s": 90}}
RULE = "distinct (scenario family, scheme, neighbour search, leaf size, tree rebuild interval, levels, boundaries, dimensions, kernel, threads, ranks, restarted) combinations"
REAL, STUB, ASSUME = mpisim.REAL, core.STUB_SERIAL + mpisim.STUB[-1:], core.ASSUME_SERIAL
FAMS = ["box", "box", "box", "soundwave", "sod", "sedov", "khi", "gresho", "noh", "disc", "evrard", "freefall", "hybrid", "accrete", "sinks", "edgesinks", "edgesinks", "dustbox", "dustwave", "dustmix", "mfvdust"]
PAR = [f for f in FAMS if f in mpisim.FAMS] + ["edgesinks"]
GAS = ("box", "edgesinks", "gresho", "khi", "dustmix", "sedov")          # boundaries of these are drawn
MAXROWS, MAXMOMENTS = 400, 8


def gen(r, tier, i):
    ranks = r.choice([1, 1, 1, 2, 4])
    threads = r.choice([1, 1, 3]) if ranks == 1 else 1
    kw = dict(tscale=r.choice([0.1, 0.3]) if threads == 1 and ranks == 1 else 0.1, nrestartstep=r.choice([100000, 3]), out_file_form="su", tabulated_kernel=0, h_converge=1e-8)
    s = scen.draw(r, FAMS, **kw) if ranks == 1 else mpisim.draw(r, PAR, **kw)
    p = s["p"]
    if s["fam"] in GAS and not p.get("self_gravity") and r.random() < 0.7:
        for k in range(p["ndim"]):
            b = r.choice(["periodic", "periodic", "sides"])
            for side in ("lhs", "rhs"):
                p["boundary_%s[%d]" % (side, k)] = b if b == "periodic" else "open" if "dust_forces" in p else r.choice(["mirror", "mirror", "open"])
    p["kernel"] = r.choice(["m4", "m4", "quintic"]) if s["fam"] in ("box", "soundwave", "sod", "sedov", "gresho") and not p.get("self_gravity") else "m4"
    p["neib_search"] = r.choice(["kdtree", "octtree", "bruteforce"])
    if "dust_forces" in p and p["neib_search"] == "octtree":
        p["neib_search"] = "kdtree"
    p["Nleafmax"] = r.choice([6, 8, 12]) if p["neib_search"] == "octtree" else r.choice([1, 2, 4, 6, 8, 16])
    if ranks == 1:
        p["ntreebuildstep"] = r.choice([1, 1, 2, 4, 8])
    if r.random() < 0.4 and s["fam"] not in ("disc", "dustbox", "dustwave", "dustmix", "mfvdust") and p.get("sph_integration") != "lfdkd":
        p["Nlevels"], p["level_diff_max"] = r.choice([2, 4, 7]), r.choice([1, 2])
    if p["ndim"] == 3:
        p["tend"] *= 0.5
    mem = {"heap.fill": r.choice([0, 170, 256]), "heap.seed": r.randrange(1000), "stack.fill": r.choice([0, 127, 200])} if r.random() < 0.4 else {}
    return {"scen": s, "ranks": ranks, "threads": threads, "sched": r.randrange(10 ** 6), "t": mpisim.timing(r, ranks), "restart": ranks == 1 and r.random() < 0.25, "stop": r.choice([0.3, 0.6]), "mem": mem, "skew": []}


def moments(r, ranks):
    D = node.read_dump(r.dump)
    D = [mpisim.merged(m) for m in mpisim.moments(D, ranks)] if ranks > 1 else [d for d in D if "ev" in d]
    # a sample of the moments at which forces were known, always with the first and the last ones
    f = [d for d in D if d["view"]["event"] != 4 or d["view"]["ismfv"]]
    if len(f) > MAXMOMENTS:
        k = sorted({0, 1, 2, len(f) - 2, len(f) - 1} | {int(x) for x in np.linspace(3, len(f) - 3, MAXMOMENTS - 4)})
        f = [f[i] for i in k if 0 <= i < len(f)]
    return f


def active(d, p):
    """rows whose properties were computed at this moment, and whether their forces were too"""
    v, H = d["view"], d["H"]
    e, mfv = v["event"], v["ismfv"]
    if e == 2:
        return np.ones(len(H), bool)
    if e == 9:
        return (H[:, 2].astype(np.int64) & 2) != 0
    return H[:, 6] == v["n"]


def lowest(p, H, nd):
    """smallest smoothing length the program lets a particle have"""
    if not p.get("sink_particles"):
        return np.zeros(len(H))
    return p.get("h_fac", 1.2) * (H[:, 17] / p["rho_sink"]) ** (1.0 / nd)


def thin(A, rng):
    return A if len(A) <= MAXROWS else A[np.sort(rng.choice(len(A), MAXROWS, replace=False))]


def check(D, p, fam, out, what):
    worst = 0
    for d in D:
        v, nd = d["view"], d["view"]["ndim"]
        mfv, e = v["ismfv"], v["event"]
        H = d["H"][d["H"][:, 31] == 0]
        d = dict(d, H=H)
        act = active(d, p)
        rng = np.random.RandomState(v["Nsteps"])
        where = "%s, step %d (t=%.9g)%s" % (what, v["Nsteps"], v["t"], {2: ", set-up", 9: "", 4: ""}[e])

        def fail(key, A, i, msg, *a):
            raise Violation(key, "%s: particle %d at %s %s" % (where, int(A[i, 0]), np.round(A[i, 8:8 + nd], 6).tolist(), msg % a))
        ker = rm.Kernel(p.get("kernel", "m4"), nd)
        for kinds in ((0, 1), (3,)):                     # gas and dust do not see each other in the density
            sel = np.isin(H[:, 1], kinds)
            if mfv and e == 9 and not (p.get("self_gravity") or len(d["S"])):
                continue                                    # not recomputed before the forces in this case
            A = H[sel & act]
            if not len(A):
                continue
            A = thin(A, rng)
            B, _ = rm.images(H[sel], rm.bounds(p, v), ker.range * 1.01 * max(H[sel][:, 18]))
            n, o = rm.density(A, B, ker, numbers=mfv)
            free = A[:, 3] == -1 if mfv else A[:, 18] > lowest(p, A, nd) * (1 + 1e-9)
            if mfv and p.get("sink_particles") and e == 4:
                free &= False                               # masses have changed since
            bad = free & ~(np.abs((A[:, 43] if mfv else A[:, 19]) / n - 1) < 1e-6)
            out.probe("densities compared", int(free.sum()))
            if bad.any():
                i = int(np.argmax(bad))
                fail("density", A, i, "has %s %.9g, the sum over its true neighbours is %.9g (h = %.6g)", "number density" if mfv else "density", A[i, 43 if mfv else 19], n[i], A[i, 18])
            m = 1.0 if mfv else A[:, 17]
            h = p.get("h_fac", 1.2) * (m / n) ** (1.0 / nd)
            bad = free & ~(np.abs(A[:, 18] / h - 1) < 1e-6)
            if bad.any():
                i = int(np.argmax(bad))
                fail("size", A, i, "has smoothing length %.9g, its density calls for %.9g", A[i, 18], h[i])
            om = 1 / (1 + A[:, 18] / (nd * n) * o)
            bad = free & ~(np.abs(A[:, 40] / om - 1) < 1e-5) & (A[:, 3] == -1)
            if bad.any():
                i = int(np.argmax(bad))
                fail("gradh", A, i, "corrects for its changing resolution by %.9g, its neighbours call for %.9g", A[i, 40], om[i])
            if mfv or kinds != (0, 1) or not p.get("hydro_forces", 1):
                continue
            if e == 2 and "dust_forces" in p:
                continue                                    # drag is included already
            visc = dict(avisc=p.get("avisc", "mon97"), td=p.get("time_dependent_avisc", "none"), alpha=p.get("alpha_visc", 1.0), beta=p.get("beta_visc", 2.0), acond=p.get("acond", "none"))
            a, du, dv, size = rm.sph_forces(A, B, ker, visc)
            ah = A[:, 14:14 + nd] - A[:, 44:44 + nd]
            tol = 1e-8 * size[0] + 1e-11 * np.abs(A[:, 44:44 + nd]).sum(1)
            bad = ~(np.abs(ah - a).max(1) <= tol)
            out.probe("forces compared", len(A))
            if bad.any():
                i = int(np.argmax(bad))
                fail("force", A, i, "feels the acceleration %s from the gas, the sum over its true neighbours is %s", ah[i].tolist(), a[i].tolist())
            for key, col, want, sz, word in (("heating", 30, du, size[1], "is heated at rate"), ("divergence", 25, dv, size[2], "sees the velocity diverge at rate")):
                if key == "heating" and e == 2:
                    continue
                bad = ~(np.abs(A[:, col] - want) <= 1e-8 * sz + 1e-30)
                if bad.any():
                    i = int(np.argmax(bad))
                    fail(key, A, i, word + " %.12g, its true neighbours give %.12g", A[i, col], want[i])


def run(case, ctx, out):
    s, ranks, threads, t = case["scen"], case["ranks"], case["threads"], case["t"]
    p = s["p"]
    variant = "mpi" if ranks > 1 else "omp" if threads > 1 else "serial"
    over = dict(case["mem"], **{"events.forces": 1})
    with Session(ctx, out, variant) as S:
        scen.setup(S.sc, s)
        if ranks > 1:
            r = S.go(plan=mpisim.plan(ranks, t, **over), stalls=t["stalls"], dump="c2 c4 c9")
            mpisim.mpi_must_run(r, "the job of %d ranks" % ranks, reference=True)
            mpisim.stats(r, out)
            D = moments(r, ranks)
            check(D, p, s["fam"], out, "the job of %d ranks" % ranks)
        else:
            plan = dict(over, **({"omp.threads": threads, "sched.seed": case["sched"]} if threads > 1 else {}))
            if case["restart"]:
                scen.setup(S.sc, s, tend=p["tend"] * case["stop"])
            r = S.go(plan=plan, dump="c2 c4 c9")
            must_run(r, "the run", reference=True)
            D = moments(r, 1)
            check(D, p, s["fam"], out, "the run")
            if case["restart"]:
                scen.setup(S.sc, s)
                r = S.go("-r p.dat", plan=plan, dump="c2 c4 c9")
                must_run(r, "the restarted run", reference=True)
                D = moments(r, 1)
                check(D, p, s["fam"], out, "the restarted run")
                out.probe("restarted runs")
    out.nontrivial = len(D) > 1
    out.state(s["fam"], p["sim"], p["neib_search"], p["Nleafmax"], p.get("ntreebuildstep"), p.get("Nlevels"), tuple(p.get("boundary_%s[%d]" % (a, k)) for k in range(p["ndim"]) for a in ("lhs", "rhs")), p["ndim"], p["kernel"], threads, ranks, case["restart"])


def shrink(case):
    p = case["scen"]["p"]
    for k, v in (("restart", False), ("threads", 1), ("mem", {})):
        if case[k] != v:
            c = copy.deepcopy(case)
            c[k] = v
            yield c
    if case["ranks"] > 1:
        c = copy.deepcopy(case)
        c["ranks"], c["skew"] = 1, []
        yield c
        yield from m01.shrink(case)
    for k, v in (("Nlevels", 1), ("dt_snap", 1e9), ("self_gravity", 0), ("ntreebuildstep", 1), ("neib_search", "bruteforce"), ("time_dependent_avisc", "none"), ("acond", "none")):
        if p.get(k, v) != v:
            c = copy.deepcopy(case)
            c["scen"]["p"][k] = v
            yield c
    c = copy.deepcopy(case)
    c["scen"]["p"]["tend"] *= 0.5
    yield c
