"""M01: a parallel job neither stops for ever nor misuses the message passing, whatever the timing of ranks and messages."""
import copy
import core, scen, mpisim
from core import Violation, Session

ID = "M01"
VARIANTS = ["mpi"]
TIERS = {"quick": {"cases": 1500, "cap_s": 50, "shrink_s": 60}, "thorough": {"cases": 200000, "cap_s": 780, "shrink_s": 90}}
RULE = "distinct (scenario family, scheme, neighbour search, ranks, order of the schedule, buffering, stalls, restarted, hash of the interleaving) combinations"
REAL, STUB, ASSUME = mpisim.REAL, mpisim.STUB, mpisim.ASSUME


def gen(r, tier, i):
    ranks = r.choice([2, 2, 4, 4, 4, 8])
    s = mpisim.draw(r, tscale=r.choice([0.1, 0.2, 0.4]), out_file_form=r.choice(["su", "su", "column"]), nrestartstep=r.choice([100000, 2, 7]), ndiagstep=r.choice([100000, 1, 3]))
    if r.random() < 0.3:
        s["p"]["litesnap"], s["p"]["dt_litesnap"], s["p"]["tlitesnapfirst"] = 1, s["p"]["tend"] / r.choice([4, 7]), 0.0
    return {"scen": s, "ranks": ranks, "t": mpisim.timing(r, ranks), "restart": r.random() < 0.3 and s["p"]["out_file_form"] == "su", "ranks2": r.choice([2, 4, 8]), "t2": mpisim.timing(r, 2),
            "skew": [r.choice([0, 0, 1, -1, 3600, -86400]) for _ in range(ranks)] if r.random() < 0.3 else []}


def run(case, ctx, out):
    s, ranks, t = case["scen"], case["ranks"], case["t"]
    p = s["p"]
    skew = {"clock.skew%d" % k: v * 10 ** 9 for k, v in enumerate(case["skew"]) if v}
    with Session(ctx, out, "mpi") as S:
        scen.setup(S.sc, s)
        r = S.go(plan=mpisim.plan(ranks, t, **skew), stalls=t["stalls"])
        mpisim.mpi_must_run(r, "the job of %d ranks" % ranks)
        v = mpisim.stats(r, out)
        out.nontrivial = bool(v) and v[1] > 0 and r.events[-1].step > 0
        out.state(s["fam"], p["sim"], p.get("neib_search"), ranks, t["plan"]["sched.mode"], t["plan"]["mpi.eager"], bool(t["stalls"]), False, mpisim.schedule(r))
        if len({(e.step, e.t) for e in r.events if e.code == 6}) > 1:
            raise Violation("apart", "the ranks ended at different times: %s" % sorted({(e.step, e.t) for e in r.events if e.code == 6}))
        if case["restart"]:
            t2 = case["t2"]
            scen.setup(S.sc, s, tend=p["tend"] * 1.3)
            q = S.go("-r p.dat", plan=mpisim.plan(case["ranks2"], t2), stalls=t2["stalls"])
            mpisim.mpi_must_run(q, "the job restarted on %d ranks" % case["ranks2"])
            mpisim.stats(q, out)
            out.probe("restarted jobs")
            out.state(s["fam"], p["sim"], p.get("neib_search"), case["ranks2"], t2["plan"]["sched.mode"], t2["plan"]["mpi.eager"], bool(t2["stalls"]), True, mpisim.schedule(q))


def shrink(case):
    p, t = case["scen"]["p"], case["t"]
    if case["restart"]:
        c = copy.deepcopy(case)
        c["restart"] = False
        yield c
    for k, v in (("stalls", []),):
        if t[k]:
            c = copy.deepcopy(case)
            c["t"][k] = v
            yield c
    for k, v in (("mpi.slow", 0), ("mpi.strict", 0), ("mpi.eager", 1 << 30), ("sched.mode", "fifo")):
        if t["plan"][k] != v:
            c = copy.deepcopy(case)
            c["t"]["plan"][k] = v
            yield c
    if case["skew"]:
        c = copy.deepcopy(case)
        c["skew"] = []
        yield c
    if case["ranks"] > 2:
        c = copy.deepcopy(case)
        c["ranks"] //= 2
        c["skew"] = []
        yield c
    for k, v in (("Nlevels", 1), ("dt_snap", 1e9), ("litesnap", 0), ("nrestartstep", 100000), ("ndiagstep", 100000)):
        if k in p and p[k] != v:
            c = copy.deepcopy(case)
            c["scen"]["p"][k] = v
            yield c
    if p["tend"] > 1e-3:
        c = copy.deepcopy(case)
        c["scen"]["p"]["tend"] /= 2
        yield c
