"""D01: the result is a function of the inputs alone: not of memory contents, addresses, clocks or files an earlier run left behind."""
import copy, re
import core, scen, hist
from core import Violation, Session, must_run

ID = "D01"
VARIANTS = ["serial"]
TIERS = {"quick": {"cases": 1500, "cap_s": 50, "shrink_s": 60}, "thorough": {"cases": 200000, "cap_s": 780, "shrink_s": 90}}
RULE = "distinct (scenario family, neighbour search, format, kinds of environment difference, accretion or star formation seen) combinations compared"
REAL, STUB, ASSUME = core.REAL_SERIAL, core.STUB_SERIAL, core.ASSUME_SERIAL
FAMS = [f for f in scen.FAMILIES] + ["sinks", "accrete", "evrard", "hybrid"]
W = re.compile(r" wall=\S+")


def env(r):
    e = {"heap.fill": r.choice([0, 255, 165, 256, 256, 1]), "heap.gap": r.choice([0, 0, 7, 1000]), "heap.seed": r.randrange(10 ** 6), "stack.fill": r.choice([0, 255, 90, 1])}
    if r.random() < 0.6:
        e.update({"clock.start": r.choice([5, 1600000000, 4102444800]), "clock.step_w": r.choice([1, 10 ** 6, 10 ** 9, 10 ** 11]), "clock.step_c": r.choice([1, 10 ** 6, 10 ** 10]),
                  "clock.jitter": r.choice([0.0, 0.9]), "clock.seed": r.randrange(10 ** 6)})
    return e


def gen(r, tier, i):
    s = scen.draw(r, FAMS, tscale=r.choice([0.3, 0.6, 1.0]), out_file_form=r.choice(["su", "su", "sf", "column"]), nrestartstep=r.choice([100000, 1, 4]), ndiagstep=r.choice([100000, 1, 3]))
    if r.random() < 0.3:
        s["p"]["litesnap"], s["p"]["dt_litesnap"], s["p"]["tlitesnapfirst"] = 1, s["p"]["tend"] / r.choice([4, 7]), 0.0
    jumps = [[r.randrange(1, 60), r.choice([3600, -3600, -10 ** 6, 10 ** 5])] for _ in range(r.choice([0, 0, 1, 2]))]
    return {"scen": s, "env": [env(r) for _ in range(2)], "jumps": jumps, "stale": r.choice([None, "same", "other"]), "same_dir": r.random() < 0.5}


def lines(r):
    return [W.sub("", e.line) for e in r.events]


def same_events(a, b, what):
    if a == b:
        return
    for x, y in zip(a, b):
        if x != y:
            d = [(u, v) for u, v in zip(x.split(), y.split()) if u != v]
            raise Violation("evolution", "%s: at event %s the state differs: %s" % (what, x.split()[1], ", ".join("%s instead of %s" % (v, u) for u, v in d[:5])))
    raise Violation("evolution", "%s: %d events instead of %d" % (what, len(b), len(a)))


def same_files(a, b, what, extra_ok, diag_tail):
    for k in sorted(a):
        if k.endswith(".timing"):
            continue
        if k not in b:
            raise Violation("output", "%s: file %s is missing" % (what, k))
        if k.endswith(".diag") and diag_tail:
            if not b[k].endswith(a[k]):
                raise Violation("output", "%s: the new rows of %s differ" % (what, k))
            continue
        if a[k] != b[k]:
            x, y = a[k], b[k]
            i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
            raise Violation("output", "%s: %s differs from byte %d of %d on (%r instead of %r)" % (what, k, i, len(x), y[i:i + 24], x[i:i + 24]))
    if not extra_ok:
        e = sorted(set(b) - set(a))
        if e:
            raise Violation("output", "%s: additional files %s" % (what, e))


def run(case, ctx, out):
    s = case["scen"]
    with Session(ctx, out) as S:
        scen.setup(S.sc, s)
        tree0 = S.files()
        a = S.go(plan={"heap.fill": 0, "heap.seed": 1, "stack.fill": 0})
        must_run(a, "the run", reference=True)
        fa, la = S.files(), lines(a)
        e0, e1 = a.events[0], a.events[-1]
        out.nontrivial = e1.step > 0
        out.state(s["fam"], s["p"].get("neib_search"), s["p"]["out_file_form"], case["stale"], bool(case["jumps"]), e1.dead > 0, e1.Ns > e0.Ns)
        out.probe("runs with accreted particles", e1.dead > 0)
        out.probe("runs that formed stars", e1.Ns > e0.Ns)
        # another memory, another clock
        S.sc.restore_tree(tree0)
        clks = [(k, -1, w * 10 ** 9, abs(w) * 10 ** 9) for k, w in case["jumps"]]
        b = S.go(plan=case["env"][0], clks=clks)
        what = "with other memory contents, addresses and clocks"
        must_run(b, what)
        same_events(la, lines(b), what)
        same_files(fa, S.files(), what, False, False)
        out.probe("runs with clock jumps", bool(clks))
        if case["stale"] is None:
            return
        # files of an earlier run of the same name
        if case["stale"] == "other":
            S.sc.restore_tree(tree0)
            scen.setup(S.sc, s, dt_snap=s["p"]["dt_snap"] * 0.6, ndiagstep=2, nrestartstep=2)
            q = S.go(plan=case["env"][1], faults=[("crash", max(1, a.ops[-1][0] // 2), max(1, a.ops[-1][0] // 2) + 1, 0)])
            scen.setup(S.sc, s)
        what = "in a directory holding the files of an earlier run"
        c = S.go(plan=case["env"][1])
        must_run(c, what)
        same_events([x for x in la], lines(c), what)
        same_files(fa, S.files(), what, True, True)
        out.probe("runs among files of an earlier run")


def shrink(case):
    p = case["scen"]["p"]
    for k, v in (("stale", None), ("jumps", [])):
        if case[k] != v:
            c = copy.deepcopy(case)
            c[k] = v
            yield c
    for i in (0, 1):
        for k in list(case["env"][i]):
            if case["env"][i][k]:
                c = copy.deepcopy(case)
                if k.startswith("clock"):
                    for q in [q for q in c["env"][i] if q.startswith("clock")]:
                        del c["env"][i][q]
                else:
                    c["env"][i][k] = 0
                yield c
    for k, v in (("Nlevels", 1), ("nrestartstep", 100000), ("ndiagstep", 100000), ("out_file_form", "su"), ("litesnap", 0)):
        if k in p and p[k] != v:
            c = copy.deepcopy(case)
            c["scen"]["p"][k] = v
            yield c
    if p["tend"] > 1.5 * p["dt_snap"]:
        c = copy.deepcopy(case)
        c["scen"]["p"]["tend"] = p["tend"] / 2
        yield c
