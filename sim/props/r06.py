"""R06: the wall-clock limit stops a run in time, loses nothing, and a chain of limited runs reaches the end; the 'cont' marker tells whether it has."""
import copy
import core, scen, hist
from core import Violation, Session, must_run

ID = "R06"
VARIANTS = ["serial"]
TIERS = {"quick": {"cases": 1500, "cap_s": 50, "shrink_s": 60}, "thorough": {"cases": 200000, "cap_s": 780, "shrink_s": 90}}
RULE = "distinct (scenario family, format, why the limit was reached, stopped at a synchronised step, launches in the chain (log2), crash in the chain) combinations with at least one limited stop"
REAL, STUB, ASSUME = core.REAL_SERIAL, core.STUB_SERIAL, core.ASSUME_SERIAL
FAMS = ["box", "soundwave", "sod", "sedov", "khi", "freefall", "plummer", "binary", "hybrid", "sinks", "dustwave", "accrete", "dustmix", "gresho", "evrard", "noh", "disc", "mfvdust", "subsys"]
W = 1000.0          # limit in seconds


def gen(r, tier, i):
    s = scen.draw(r, FAMS, tscale=r.choice([0.15, 0.3, 0.6]), out_file_form=r.choice(["su", "su", "sf"]), nrestartstep=r.choice([100000, 1, 3]),
                  ndiagstep=r.choice([100000, 1, 4]))
    s["p"]["tmax_wallclock"] = W
    chain = []
    for _ in range(12):
        # seconds one step takes, in parts of the limit; sudden jumps of the wall clock at some event
        c = {"step": r.choice([0.0, 0.02, 0.2, 0.2, 0.5, 2.0]), "jit": r.choice([0.0, 0.5]), "seed": r.randrange(10 ** 6), "jumps": [], "crash": None}
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
            c["jumps"].append([r.randrange(60), r.choice([0.3, 0.9, 2.0, 1000.0, -0.5, -50.0])])
        if r.random() < 0.08:
            c["crash"] = r.random()
        chain.append(c)
    return {"scen": s, "chain": chain, "heap": {"heap.fill": r.choice([0, 0, 165, 256]), "heap.seed": r.randrange(1000)}}


def clockplan(c):
    ns = int(c["step"] * W * 1e9)
    pl = {"clock.step_w": max(1000, ns), "clock.step_c": 1000000, "clock.jitter": c["jit"], "clock.seed": c["seed"], "clock.start": 1700000000 + c["seed"]}
    return pl, [(e, -1, int(j * W * 1e9), 0) for e, j in c["jumps"]]


def run(case, ctx, out):
    s = case["scen"]
    p = s["p"]
    form = p["out_file_form"]
    exact = hist.exactable(s, form)
    tol = 1e-10 if form == "su" else 1e-8
    with Session(ctx, out) as S:
        scen.setup(S.sc, s)
        arg, mark, stops, crashed, total, left = "p.dat", None, 0, False, 0, {}
        for n in range(400):
            c = case["chain"][n] if n < len(case["chain"]) else {"step": 2.0 if n < 60 else 0.0, "jit": 0.0, "seed": 1, "jumps": [], "crash": None}
            pl, clks = clockplan(c)
            pl.update(case["heap"])
            faults = []
            if c["crash"] is not None:
                o = 300 + int(c["crash"] * 200)
                faults = [("crash", o, o + 1, 0)]
            r = S.go(arg, plan=pl, clks=clks, faults=faults)
            ev = r.events
            what = "launch %d" % (n + 1)
            if r.why != "crash":
                must_run(r, what, reference=n == 0)
            # where it resumed
            if mark is not None and ev:
                if not ev[0].restart or not any(hist.same_state(ev[0], e, exact, tol) for e in mark):
                    raise Violation("resume", "%s resumed from %s%s; recorded was %s" % (what, hist.show(ev[0]), "" if ev[0].restart else " (afresh)", " or ".join(hist.show(e) for e in mark)))
            # when it stopped
            w0 = pl["clock.start"] + 0.123456789
            steps = [e for e in ev if e.code == 5]
            tree = S.files()
            if r.why == "crash":
                crashed = True
                lin = hist.Lineage()
                lin.absorb(r)
                cands = [e for _, e in lin.candidates()]
                if lin.mark is None and mark:
                    cands += mark
                if "RUN.restart" not in tree:
                    mark, arg = None, "-r p.dat"
                else:
                    mark, arg = cands, "-r p.dat"
                left.update(hist.numbered(tree, form))
                if "cont" not in tree and not (ev and ev[-1].code == 6):
                    raise Violation("marker", "%s was killed, yet the continuation marker is gone" % what)
                continue
            last = ev[-1]
            if last.code != 6:
                raise Violation("end", "%s ended without finishing its loop" % what)
            fin = p["dimensionless"] == 1 and last.t >= p["tend"] or p["dimensionless"] == 0 and "cont" not in tree
            lim = 0.95 * W
            for a, b in zip(steps, steps[1:]):
                if a.wall / 1e6 - w0 > lim + 1.0:
                    raise Violation("overrun", "%s: %.6g s after its start (limit %.6g) the run made another step" % (what, a.wall / 1e6 - w0, W))
            if not steps and not fin:
                raise Violation("progress", "%s made no step" % what)
            if steps:
                mx = max(e.wall / 1e6 - w0 for e in ev)
                if not fin and mx < lim - 1.0:
                    raise Violation("early", "%s stopped at t=%.9g although only %.6g s of %.6g s were used" % (what, last.t, mx, W))
            if fin:
                if "cont" in tree:
                    raise Violation("marker", "%s reached the end, yet the continuation marker is still there" % what)
                break
            # stopped by the limit: the state is recorded, and the marker asks for another launch
            stops += 1
            if "cont" not in tree:
                raise Violation("marker", "%s stopped at t=%.9g before the end time %.9g, yet the continuation marker is gone" % (what, last.t, p["tend"]))
            hist.check_record(tree, "after " + what)
            mark, arg = [last], "-r p.dat"
            left.update(hist.numbered(tree, form))
            out.state(s["fam"], form, bool(c["jumps"]), last.n % max(1, last.nresync) == 0, n.bit_length(), crashed)
            out.probe("stopped by the limit" + ("" if last.n % max(1, last.nresync) == 0 else " between synchronised steps"))
            if n and steps and len(steps) == 1:
                out.probe("a launch with time for a single step")
        else:
            raise Violation("progress", "400 launches did not reach the end time")
        hist.check_series(S.files(), form, last.snap, "after the last launch", left)
        hist.check_record(S.files(), "after the last launch")
        out.nontrivial = stops > 0
        out.probe("chains finished")




def shrink(case):
    p = case["scen"]["p"]
    if len(case["chain"]) > 1:
        c = copy.deepcopy(case)
        c["chain"] = c["chain"][:len(c["chain"]) // 2]
        yield c
        c = copy.deepcopy(case)
        c["chain"].pop()
        yield c
    for i, x in enumerate(case["chain"]):
        for k, v in (("crash", None), ("jumps", []), ("jit", 0.0)):
            if x[k] != v:
                c = copy.deepcopy(case)
                c["chain"][i][k] = v
                yield c
    for k, v in (("Nlevels", 1), ("nrestartstep", 100000), ("ndiagstep", 100000), ("out_file_form", "su")):
        if k in p and p[k] != v:
            c = copy.deepcopy(case)
            c["scen"]["p"][k] = v
            yield c
    if p["tend"] > 1.5 * p["dt_snap"]:
        c = copy.deepcopy(case)
        c["scen"]["p"]["tend"] = p["tend"] / 2
        yield c
