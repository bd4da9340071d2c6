"""V01: the adaptive viscosity of every gas particle stays within its bounds and follows its rate equation."""
import copy
import numpy as np
import core, scen, node, mpisim
from core import Violation, Session, must_run
from . import m01

ID = "V01"
VARIANTS = ["serial", "omp", "mpi"]
TIERS = {"quick": {"cases": 1500, "cap_s": 45, "shrink_s": 60}, "thorough": {"cases": 200000, "cap_s": 780, "shrink_s": 90}}
RULE = "distinct (scenario family, switch, self-gravity, integrator, levels, neighbour search, dimensions, threads, ranks, restarted, viscosity rose, viscosity decayed) combinations"
REAL, STUB, ASSUME = mpisim.REAL, core.STUB_SERIAL + mpisim.STUB[-1:], core.ASSUME_SERIAL
FAMS = ["box", "soundwave", "sod", "sod", "sedov", "khi", "gresho", "noh", "noh", "disc", "evrard", "freefall", "accrete", "sinks", "edgesinks", "dustbox", "dustmix"]
PAR = [f for f in FAMS if f in mpisim.FAMS] + ["edgesinks"]


def gen(r, tier, i):
    ranks = r.choice([1, 1, 1, 1, 2, 4])
    threads = r.choice([1, 1, 3]) if ranks == 1 else 1
    kw = dict(tscale=r.choice([0.2, 0.5]) if threads == 1 and ranks == 1 else 0.15, nrestartstep=r.choice([100000, 3]), out_file_form="su")
    while True:
        s = scen.draw(r, FAMS, **kw) if ranks == 1 else mpisim.draw(r, PAR, **kw)
        if s["p"]["sim"] in ("sph", "gradhsph"):
            break
    p = s["p"]
    p["time_dependent_avisc"] = r.choice(["mm97", "mm97", "cd2010"])
    p["avisc"] = "mon97"
    p["alpha_visc"], p["alpha_visc_min"] = r.choice([(1.0, 0.1), (1.0, 0.1), (2.0, 0.02), (0.8, 0.0), (0.7, 0.3)])
    if r.random() < 0.4 and s["fam"] != "disc":
        p["Nlevels"], p["level_diff_max"] = r.choice([2, 4, 7]), r.choice([1, 2])
    if p["ndim"] == 3 and s["fam"] in ("box", "dustbox") or s["fam"] in ("dustmix",):
        p["tend"] *= 0.3
    if p.get("dust_forces") == "full_twofluid" or p.get("sph_integration") == "lfdkd":
        p["Nlevels"] = 1
    return {"scen": s, "ranks": ranks, "threads": threads, "sched": r.randrange(10 ** 6), "t": mpisim.timing(r, ranks), "restart": ranks == 1 and r.random() < 0.25, "stop": r.choice([0.3, 0.6]), "skew": []}


def check(dumps, p, out, what):
    """dumps: the state after set-up and after every step"""
    lo, hi, switch = p["alpha_visc_min"], p["alpha_visc"], p["time_dependent_avisc"]
    prev, rose, fell = None, False, False
    for d in dumps:
        v, H = d["view"], d["H"]
        H = H[(H[:, 31] == 0) & (H[:, 1] <= 1)]
        H = H[np.argsort(H[:, 0], kind="stable")]
        al, dal, ids = H[:, 38], H[:, 39], H[:, 0]

        def fail(key, i, msg):
            raise Violation(key, "%s, step %d (t=%.9g): particle %d %s" % (what, v["Nsteps"], v["t"], int(ids[i]), msg))
        bad = ~((al >= lo - 1e-9) & (al <= hi + 1e-9))
        if bad.any():
            i = int(np.argmax(bad))
            fail("bounds", i, "has viscosity %.6g, outside [%g, %g]" % (al[i], lo, hi))
        decay = 0.1 * H[:, 37] * (lo - al) / H[:, 18]
        dkd = p.get("sph_integration") == "lfdkd"
        now = np.ones(len(H), bool) if v["Nsteps"] == 0 else H[:, 6] == v["n"]
        if dkd and v["Nsteps"] > 0:                     # the half-step integrator advances the viscosity once more after the forces
            now[:] = False
        if switch == "mm97":
            want = decay + np.maximum(-H[:, 25], 0) * (hi - al)
            bad = now & (np.abs(dal - want) > 1e-9 * (np.abs(decay) + np.abs(H[:, 25]) * (hi - lo) + 1e-300))
            out.probe("rates compared", int(now.sum()))
        else:
            bad = now & ~((dal <= 1e-9 * H[:, 37] / H[:, 18] * hi) & (dal >= decay - 1e-9 * H[:, 37] / H[:, 18] * hi))
        if bad.any():
            i = int(np.argmax(bad))
            fail("rate", i, "changes its viscosity %.6g at rate %.9g, its state prescribes %s (decay %.6g, divergence %.6g)" % (al[i], dal[i], "%.9g" % want[i] if switch == "mm97" else "a decay", decay[i], H[i, 25]))
        if prev is not None and prev[0] == v["Nsteps"] - 1:
            _, t0, P = prev
            a, b = np.isin(P[:, 0], ids), np.isin(ids, P[:, 0])
            P, q = P[a], al[b]
            if len(P) == len(q) and np.array_equal(P[:, 0], ids[b]):
                w = P[:, 38] + P[:, 39] * (v["t"] - t0)
                tol = 1e-9 * (hi + np.abs(P[:, 39]) * (v["t"] - t0)) + 1e-9 * np.abs(P[:, 39]) * abs(v["t"])
                bad = np.abs(q - w) > tol if switch == "mm97" else q < w - tol
                if bad.any():
                    i = int(np.argmax(bad))
                    raise Violation("advance", "%s, step %d (t=%.9g): the viscosity of particle %d went from %.9g to %.9g, its rate gives %.9g" % (what, v["Nsteps"], v["t"], int(P[i, 0]), P[i, 38], q[i], w[i]))
                rose |= bool((q > P[:, 38] + 1e-6).any())
                fell |= bool((q < P[:, 38] - 1e-6).any())
                out.probe("viscosities compared", len(q))
        prev = (v["Nsteps"], v["t"], H)
    return rose, fell


def run(case, ctx, out):
    s, ranks, threads, t = case["scen"], case["ranks"], case["threads"], case["t"]
    p = s["p"]
    variant = "mpi" if ranks > 1 else "omp" if threads > 1 else "serial"
    res = []
    with Session(ctx, out, variant) as S:
        scen.setup(S.sc, s)
        if ranks > 1:
            r = S.go(plan=mpisim.plan(ranks, t), stalls=t["stalls"], dump="c2 c4")
            mpisim.mpi_must_run(r, "the job of %d ranks" % ranks, reference=True)
            mpisim.stats(r, out)
            D = [mpisim.merged(m) for m in mpisim.moments(node.read_dump(r.dump), ranks)]
        else:
            plan = {"omp.threads": threads, "sched.seed": case["sched"]} if threads > 1 else {}
            if case["restart"]:
                scen.setup(S.sc, s, tend=p["tend"] * case["stop"])
            r = S.go(plan=plan, dump="c2 c4")
            must_run(r, "the run", reference=True)
            D = node.read_dump(r.dump)
            if case["restart"]:
                res.append(check(D, p, out, "the first run"))
                scen.setup(S.sc, s)
                r = S.go("-r p.dat", plan=plan, dump="c2 c4")
                must_run(r, "the restarted run", reference=True)
                D = node.read_dump(r.dump)
                out.probe("restarted runs")
        res.append(check(D, p, out, "the run" if ranks == 1 else "the job of %d ranks" % ranks))
    out.nontrivial = len(D) > 2 and any(a or b for a, b in res)
    out.state(s["fam"], p["time_dependent_avisc"], p.get("self_gravity"), p.get("sph_integration"), p.get("Nlevels"), p.get("neib_search"), p["ndim"], threads, ranks, case["restart"], any(a for a, b in res), any(b for a, b in res))


def shrink(case):
    p = case["scen"]["p"]
    if case["restart"]:
        c = copy.deepcopy(case)
        c["restart"] = False
        yield c
    if case["threads"] > 1:
        c = copy.deepcopy(case)
        c["threads"] = 1
        yield c
    if case["ranks"] > 1:
        c = copy.deepcopy(case)
        c["ranks"], c["skew"] = 1, []
        yield c
        yield from m01.shrink(case)
    for k, v in (("Nlevels", 1), ("dt_snap", 1e9), ("self_gravity", 0)):
        if p.get(k, v) != v:
            c = copy.deepcopy(case)
            c["scen"]["p"][k] = v
            yield c
    c = copy.deepcopy(case)
    c["scen"]["p"]["tend"] *= 0.5
    yield c
