"""M03: every particle belongs to exactly one process, and the processes agree on everything they share."""
import copy
import numpy as np
import core, scen, node, mpisim
from core import Violation, Session
from . import m01

ID = "M03"
VARIANTS = ["mpi"]
TIERS = {"quick": {"cases": 1500, "cap_s": 50, "shrink_s": 60}, "thorough": {"cases": 200000, "cap_s": 780, "shrink_s": 90}}
RULE = "distinct (scenario family, scheme, neighbour search, ranks, particles changed their owner, accretion or star formation seen, hash of the interleaving) combinations"
REAL, STUB, ASSUME = mpisim.REAL, mpisim.STUB, mpisim.ASSUME
FAMS = mpisim.FAMS + ["sinks", "accrete", "khi", "evrard", "sedov", "swallow", "edgesinks"]
SHARED = ["Nsteps", "n", "nresync", "Nblocksteps", "Nfullsteps", "level_max", "level_step", "Nlevels", "integration_step", "Noutsnap", "Noutlitesnap", "Nstar", "Nsink", "t", "timestep", "dt_max",
          "tsnapnext", "tlitesnapnext", "tsnaplast", "tlitesnaplast"]


def gen(r, tier, i):
    ranks = r.choice([2, 2, 4, 4, 8])
    s = mpisim.draw(r, FAMS, tscale=r.choice([0.15, 0.3, 0.6]), nrestartstep=r.choice([100000, 3]), out_file_form=r.choice(["su", "su", "column"]))
    return {"scen": s, "ranks": ranks, "t": mpisim.timing(r, ranks), "restart": r.random() < 0.25 and s["p"]["out_file_form"] == "su", "ranks2": r.choice([1, 2, 4, 8]), "t2": mpisim.timing(r, 2), "skew": []}


def check(m, p, ids, gone, out, what):
    """one moment of the job; returns the owner of each live particle"""
    v = m[0]["view"]
    where = "%sevent %d of step %d" % (what, v["event"], v["Nsteps"])
    for d in m[1:]:
        for k in SHARED:
            if d["view"][k] != v[k] and (k != "Nsink" or p.get("sink_particles")):
                raise Violation("disagree", "%s: %s is %s on rank %d and %s on rank 0" % (where, k, d["view"][k], d["view"]["rank"], v[k]))
        if d["S"].shape != m[0]["S"].shape or not np.array_equal(d["S"][:, :18], m[0]["S"][:, :18], equal_nan=True):
            bad = "another number of" if d["S"].shape != m[0]["S"].shape else "other values (columns %s) for the" % np.unique(np.nonzero(d["S"][:, :18] != m[0]["S"][:, :18])[1]).tolist()
            raise Violation("stars", "%s: rank %d has %s stars than rank 0" % (where, d["view"]["rank"], bad))
    live = [d["H"][d["H"][:, 31] == 0] for d in m]
    have = np.concatenate([x[:, 0] for x in live]).astype(int)
    u, c = np.unique(have, return_counts=True)
    if (c > 1).any():
        x = int(u[c > 1][0])
        raise Violation("owners", "%s: particle %d exists on ranks %s" % (where, x, [d["view"]["rank"] for d, l in zip(m, live) if (l[:, 0] == x).any()]))
    new = set(u.tolist())
    dead = set(np.concatenate([d["H"][d["H"][:, 31] != 0][:, 0] for d in m]).astype(int).tolist())
    if ids is not None:
        lost = ids - new
        # a particle may only vanish by being swallowed: it is seen dead at least once, or a star gained what it lost
        if new - ids:
            raise Violation("owners", "%s: particles %s appeared from nowhere" % (where, sorted(new - ids)[:5]))
        if lost and not len(m[0]["S"]):
            raise Violation("owners", "%s: particles %s got lost" % (where, sorted(lost)[:5]))
        gone |= lost
        if gone & new:
            raise Violation("owners", "%s: particles %s came back" % (where, sorted(gone & new)[:5]))
    if v["event"] in (2, 4):
        nd = v["ndim"]
        for a, x in zip(m, live):
            w = a["view"]
            # the drag of the meshless scheme moves particles a little once the owners are settled
            slack = 0.3 * x[:, 18] if w["ismfv"] and "dust_forces" in p else 0.0
            for k in range(nd):
                lo, hi = w["dommin"][k], w["dommax"][k]
                bad = (x[:, 8 + k] < lo - slack) | (x[:, 8 + k] > hi + slack)
                if bad.any():
                    raise Violation("domain", "%s: particle %d at %s is on rank %d, whose domain is %s..%s" % (where, int(x[bad][0, 0]), x[bad][0, 8:8 + nd].tolist(), w["rank"], w["dommin"][:nd], w["dommax"][:nd]))
        for i, a in enumerate(m):
            for b in m[i + 1:]:
                if all(max(a["view"]["dommin"][k], b["view"]["dommin"][k]) < min(a["view"]["dommax"][k], b["view"]["dommax"][k]) for k in range(nd)):
                    raise Violation("domain", "%s: the domains of ranks %d and %d overlap" % (where, a["view"]["rank"], b["view"]["rank"]))
    return new, {int(i): k for k, x in enumerate(live) for i in x[:, 0]}


def mass(m):
    """all mass: live gas plus stars"""
    return sum(float(d["H"][d["H"][:, 31] == 0][:, 17].sum()) for d in m) + float(m[0]["S"][:, 9].sum() if len(m[0]["S"]) else 0.0)


def job(r, ranks, p, out, what, ids=None):
    ms = mpisim.moments(node.read_dump(r.dump), ranks)
    gone, owner, moved, M = set(), None, 0, None
    for m in ms:
        ids, o = check(m, p, ids, gone, out, what)
        if owner is not None:
            moved += sum(1 for k in o if owner.get(k, o[k]) != o[k])
        owner = o
        if "mfv" not in p["sim"] and m[0]["view"]["event"] in (2, 6):
            x = mass(m)
            if M is not None and abs(x - M) > 1e-11 * abs(M):
                raise Violation("mass", "%sstep %d: the total mass of gas and stars is %.15g instead of %.15g" % (what, m[0]["view"]["Nsteps"], x, M))
            M = x
    out.probe("particles that changed their owner", moved)
    return ids, moved, len(gone), len(ms[-1][0]["S"]) if ms else 0


def run(case, ctx, out):
    s, ranks, t = case["scen"], case["ranks"], case["t"]
    p = s["p"]
    with Session(ctx, out, "mpi") as S:
        scen.setup(S.sc, s)
        r = S.go(plan=mpisim.plan(ranks, t), stalls=t["stalls"], dump="all")
        mpisim.mpi_must_run(r, "the job of %d ranks" % ranks, reference=True)
        mpisim.stats(r, out)
        ids, moved, gone, ns = job(r, ranks, p, out, "")
        out.nontrivial = r.events[-1].step > 0
        out.state(s["fam"], p["sim"], p.get("neib_search"), ranks, moved > 0, gone > 0, ns > 0, mpisim.schedule(r))
        out.probe("jobs in which particles were swallowed", gone > 0)
        if case["restart"]:
            t2 = case["t2"]
            scen.setup(S.sc, s, tend=p["tend"] * 1.3)
            q = S.go("-r p.dat", plan=mpisim.plan(case["ranks2"], t2), stalls=t2["stalls"], dump="all")
            mpisim.mpi_must_run(q, "the job restarted on %d ranks" % case["ranks2"], reference=True)
            job(q, case["ranks2"], p, out, "after a restart on %d ranks: " % case["ranks2"])
            out.probe("restarted jobs")


shrink = m01.shrink
