"""P01: the result does not depend on the number of threads or on how they are scheduled."""
import copy, re
import numpy as np
import core, scen, node
from core import Violation, Session, must_run
from .d01 import W, same_events

ID = "P01"
VARIANTS = ["omp"]
TIERS = {"quick": {"cases": 1500, "cap_s": 50, "shrink_s": 60}, "thorough": {"cases": 200000, "cap_s": 780, "shrink_s": 90}}
RULE = "distinct (scenario family, threads, kind of schedule, comparison, preempted inside unordered accesses, hash of the sequence of switches) combinations"
REAL = core.REAL_SERIAL + ["the parallel regions as the compiler outlines them, with the parallel tree build, neighbour, force and sink loops"]
STUB = core.STUB_SERIAL + ["the OpenMP run-time (teams, barriers, work sharing, locks) on fibers with a seeded scheduler"]
ASSUME = core.ASSUME_SERIAL + ["sequentially consistent memory: threads are preempted between accesses, stores are never reordered by the processor",
                               "preemption points are run-time calls and those memory accesses that a happens-before analysis of the same run finds unordered"]
FAMS = [f for f in scen.FAMILIES if f not in ("ewald", "subsys", "binary", "plummer")] * 2 + ["plummer", "binary", "hybrid", "swallow", "swallow", "sinks", "accrete", "swallow", "dustmix"]


def gen(r, tier, i):
    s = scen.draw(r, FAMS, tscale=r.choice([0.15, 0.3, 0.3]), nrestartstep=100000)
    p = s["p"]
    if p["ndim"] == 3 and s["fam"] in ("box", "dustbox") or s["fam"] in ("hybrid", "dustmix"):
        p["tend"] *= 0.3            # slow ones
    if r.random() < 0.5:
        p["dt_snap"] = 2 * p["tend"]
    if inexact(p) and r.random() < 0.6:
        p["Nlevels"] = 1
    plan = {"omp.threads": r.choice([2, 2, 3, 4, 4, 8]), "sched.seed": r.randrange(10 ** 6), "sched.mode": r.choice(["random", "random", "prio", "lifo"]),
            "sched.keep": r.choice([0.1, 0.5, 0.9]), "sched.changes": r.choice([3, 20]), "sched.span": r.choice([300, 3000])}
    return {"scen": s, "plan": plan, "map": r.randrange(1, 1000)}


def inexact(p):
    """sums over particles pairs are collected from all threads in these schemes, so rounding depends on who computed what"""
    return "mfv" in p["sim"] or p.get("dust_forces") == "full_twofluid"


def strip(r):
    return [W.sub("", e.line) for e in r.events]


def same(a, b, fa, fb, what):
    same_events(strip(a), strip(b), what)
    for k in sorted(set(fa) | set(fb)):
        if k.endswith(".timing"):
            continue
        if fa.get(k) != fb.get(k):
            raise Violation("output", "%s %s" % (k, what))


def near(A, B, p, out):
    """the state up to rounding, as long as no discrete decision (a timestep level) hangs on the last bit"""
    worst = 0.0
    for n, (a, b) in enumerate(zip(A, B)):
        if a["view"]["event"] != b["view"]["event"] or a["view"]["Nsteps"] != b["view"]["Nsteps"]:
            raise Violation("events", "event %d is of another kind with several threads" % n)
        if a["H"].shape != b["H"].shape or a["S"].shape != b["S"].shape:
            raise Violation("state", "event %d: another number of particles with several threads" % n)
        if a["view"]["Nsteps"] > 10:
            break
        X, Y = a["H"][np.argsort(a["H"][:, 0], kind="stable")], b["H"][np.argsort(b["H"][:, 0], kind="stable")]
        live = (X[:, 31] == 0)
        if not np.array_equal(X[:, 31], Y[:, 31]):
            raise Violation("state", "event %d: other particles are dead with several threads" % n)
        L = np.ptp(X[:, 8:11], axis=0).max() + 1e-300
        V = np.abs(X[live, 11:14]).max() + X[live, 37].max() + 1e-300
        for k, sc in (((8, 9, 10), L), ((11, 12, 13), V), ((17,), X[live, 17].max()), ((18,), X[live, 18].max()), ((19,), X[live, 19].max()), ((20,), X[live, 20].max() + V * V)):
            for c in k:
                d = np.abs(X[live, c] - Y[live, c])
                if "periodic" in str(p.get("boundary_lhs[0]")) and c in (8, 9, 10):
                    d = np.minimum(d, np.abs(d - L))
                    d[d > 0.4 * L] = 0
                e = d.max() / sc if sc > 0 else 0.0
                worst = max(worst, e)
                if not e < 1e-7:
                    i = int(np.argmax(d))
                    raise Violation("state", "event %d (step %d): column %d of particle %d differs by %.3g of its scale with several threads" % (n, a["view"]["Nsteps"], c, int(X[live][i, 0]), e))
        out.probe("states compared up to rounding")


def run(case, ctx, out):
    s = case["scen"]
    p = s["p"]
    loose = inexact(p)
    dump = "all" if loose else None
    with Session(ctx, out, "omp") as S:
        scen.setup(S.sc, s)
        tree = S.files()

        def go(plan, dump=None):
            S.sc.restore_tree(tree)
            r = S.go(plan=plan, dump=dump, keep=False)
            return r, S.files()
        a, fa = go({"omp.threads": 1}, dump)
        must_run(a, "the run with one thread", reference=True)
        plan = dict(case["plan"])
        if loose:
            plan.update({"omp.map": case["map"], "omp.ordered": 1})
        b, fb = go(dict(plan, **{"omp.detect": 1}), dump)
        check_end(b, "the run with %d threads" % plan["omp.threads"])
        racy = " ".join(l[5:] for l in b.misc if l.startswith("racy "))
        plan2 = dict(plan, **{"sched.seed": plan["sched.seed"] + 1})
        if racy:
            plan2["omp.hot"] = racy
        if not loose:
            same(a, b, fa, fb, "with %d threads" % plan["omp.threads"])
        else:
            near(node.read_dump(a.dump), node.read_dump(b.dump), p, out)
        c, fc = go(plan2)
        check_end(c, "the run with %d threads under another schedule" % plan["omp.threads"])
        same(b, c, fb, fc, "under another schedule of %d threads" % plan["omp.threads"])
        pre = [int(l.split()[2]) for l in c.misc if l.startswith("preempted")]
        sw = [re.search(r"switches=(\d+) hash=(\w+)", l).groups() for r in (b, c) for l in r.misc if l.startswith("sched ")]
        out.nontrivial = len(sw) == 2 and len(a.events) > 4
        out.probe("thread switches", sum(int(x[0]) for x in sw))
        out.probe("preemptions at unordered accesses", pre[0] if pre else 0)
        out.probe("cases with unordered accesses", bool(racy))
        for x in sw:
            out.state(s["fam"], plan["omp.threads"], plan["sched.mode"], loose, bool(racy), x[1])


def check_end(r, what):
    if r.rc == 204:
        w = [l for l in r.misc if l.startswith("stuck")]
        raise Violation("deadlock", "%s stopped for ever: %s" % (what, "; ".join(w[:4])))
    must_run(r, what)


def shrink(case):
    p, pl = case["scen"]["p"], case["plan"]
    if p["tend"] > 1e-3:
        c = copy.deepcopy(case)
        c["scen"]["p"]["tend"] /= 2
        yield c
    for k, v in (("Nlevels", 1), ("dt_snap", 1e9), ("litesnap", 0)):
        if k in p and p[k] != v:
            c = copy.deepcopy(case)
            c["scen"]["p"][k] = v
            yield c
    if pl["omp.threads"] > 2:
        c = copy.deepcopy(case)
        c["plan"]["omp.threads"] = 2
        yield c
    # fewer free choices of the scheduler
    n = pl.get("sched.limit", 4096)
    while n > 1:
        n //= 2
        c = copy.deepcopy(case)
        c["plan"]["sched.limit"] = n
        yield c
        if pl.get("sched.limit"):
            break
