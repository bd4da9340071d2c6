"""R04: failing writes never make the directory less restartable; transient ones have no effect at all."""
import copy
import core, scen, hist, snapfmt
from core import Violation, Session, must_run
from props import r01

ID = "R04"
VARIANTS = ["serial"]
TIERS = {"quick": {"cases": 1500, "cap_s": 50, "shrink_s": 60}, "thorough": {"cases": 200000, "cap_s": 780, "shrink_s": 90}}
RULE = "distinct (scenario family, kinds of fault that fired, file and operation class they hit, state the restart resumed from) combinations"
REAL, STUB, ASSUME = core.REAL_SERIAL, core.STUB_SERIAL, core.ASSUME_SERIAL
FAMS = ["box", "soundwave", "sod", "sedov", "khi", "freefall", "plummer", "binary", "hybrid", "sinks", "dustwave", "accrete", "dustmix", "gresho", "evrard", "noh", "disc", "mfvdust", "subsys"]
ENOSPC, EIO, EACCES, EMFILE = 28, 5, 13, 24
HARD = ["enospc", "enospc", "eio", "openfail", "closefail", "renamefail", "full", "budget"]


def gen(r, tier, i):
    form = r.choice(["su", "su", "su", "sf"])
    s = scen.draw(r, FAMS, tscale=r.choice([0.3, 0.6, 1.0]), out_file_form=form, nrestartstep=r.choice([100000, 1, 2, 3, 6]),
                  ndiagstep=r.choice([100000, 1, 4]))
    if r.random() < 0.2:
        s["p"]["litesnap"], s["p"]["dt_litesnap"], s["p"]["tlitesnapfirst"] = 1, s["p"]["tend"] / 5, 0.0
    mode = "soft" if r.random() < 0.2 else "hard"
    fl = []
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        k = r.choice(["short", "eintr"]) if mode == "soft" else r.choice(HARD)
        fl.append({"k": k, "cls": r.choice(r01.CLASSES), "at": r.random(), "len": r.choice([1, 1, 1, 2, 5, 20]), "arg": r.randrange(10 ** 6)})
    crash = r.random() if mode == "hard" and r.random() < 0.5 else None
    return {"scen": s, "mode": mode, "faults": fl, "crash": crash, "heap": {"heap.fill": r.choice([0, 0, 165, 256]), "heap.seed": r.randrange(1000)}}


def plan_faults(case, ops):
    out, budget = [], None
    for f in case["faults"]:
        k = f["k"]
        if k == "budget":
            n = sum(int(o[3].split()[0]) for o in ops if o[1] == "write")
            budget = int(f["at"] * n)
            continue
        c = dict(f, kind="torn" if k in ("enospc", "eio", "short", "eintr", "full") else "crash")
        if k == "openfail":
            c["cls"] = "open"
        if k == "closefail":
            c["cls"] = "close"
        if k == "renamefail":
            c["cls"] = "rename"
        o = r01.pick(ops, c, None)[0]
        if k == "full":
            out.append(("enospc", o, 10 ** 9, 0))
            out.append(("openfail", o, 10 ** 9, ENOSPC))
        elif k == "enospc":
            out.append((k, o, o + f["len"], f["arg"] % 4096))
        elif k in ("eio", "short", "eintr"):
            out.append((k, o, o + (f["len"] if k != "eintr" else min(3, f["len"])), f["arg"]))
        elif k == "openfail":
            out.append((k, o, o + f["len"], [ENOSPC, EACCES, EMFILE][f["arg"] % 3]))
        elif k == "closefail":
            out.append((k, o, o + 1, EIO))
        elif k == "renamefail":
            out.append((k, o, o + f["len"], [ENOSPC, EACCES][f["arg"] % 2]))
    return out, budget


def hit(o):
    x = o[3]
    return any(w in x for w in ("ENOSPC", "EIO", "fault", "full", "filling"))


def own_exit(r):
    """the program may stop itself with an error when it cannot write; it may not crash or hang"""
    if core.died(r) is not None and core.die_class(r) != "error-exit":
        must_run(r, "the run with failing writes")


def run(case, ctx, out):
    s = case["scen"]
    form = s["p"]["out_file_form"]
    exact = hist.exactable(s, form)
    tol = 1e-10 if form == "su" else 1e-8
    with Session(ctx, out) as S:
        scen.setup(S.sc, s)
        tree0 = S.files()
        full = S.go(plan=case["heap"])
        must_run(full, "the run without faults", reference=True)
        ref = S.files()
        fl, budget = plan_faults(case, full.ops)
        S.sc.restore_tree(tree0)
        pl = dict(case["heap"])
        if budget is not None:
            pl["disk.budget"] = budget
        if case["crash"] is not None:
            dry = S.go(plan=pl, faults=fl)
            own_exit(dry)
            o = dry.ops[int(case["crash"] * len(dry.ops))][0]
            fl.append(("crash", o, o + 1, 0))
            S.sc.restore_tree(tree0)
        r = S.go(plan=pl, faults=fl)
        if r.why != "crash":
            own_exit(r)
        tree = S.files()
        kinds = sorted(k for k in r.faults_fired())
        if kinds:
            out.nontrivial = True
        if case["mode"] == "soft":
            must_run(r, "the run with short and interrupted writes")
            a = [(e.code, e.t, e.step, e.dig, e.snap) for e in full.events]
            b = [(e.code, e.t, e.step, e.dig, e.snap) for e in r.events]
            if a != b:
                raise Violation("disturbed", "short or interrupted writes changed the course of the run")
            for k in sorted(set(ref) | set(tree)):
                if k != "RUN.timing" and ref.get(k) != tree.get(k):
                    raise Violation("disturbed", "short or interrupted writes changed the contents of %s" % k)
            out.state(s["fam"], tuple(kinds), form)
            return
        for a, b in zip(full.events, r.events):
            if (a.code, a.t, a.step, a.dig, a.snap) != (b.code, b.t, b.step, b.dig, b.snap):
                raise Violation("disturbed", "failing writes changed the evolution: step %d t=%.17g instead of step %d t=%.17g" % (b.step, b.t, a.step, a.t))
        what = "after failing writes (%s)" % ", ".join(kinds)
        hist.check_record(tree, what)
        # which outputs were touched by a fault
        bad = [o[0] for o in r.ops if hit(o)]
        clean, doubt, prev = None, [], None
        nwin = 0
        for e in r.events:
            if prev is not None and e.code in (3, 5):
                w = [x for x in bad if prev.mut <= x < e.mut]
                nwin += 1 if w else 0
                if e.snap != prev.snap or e.nlr != prev.nlr:
                    if w:
                        doubt.append(e)
                    else:
                        clean, doubt = e, []
                if not w and e.snap == prev.snap + 1:
                    f = "RUN.%s.%05d" % (form, e.snap)
                    if f in ref and tree.get(f) != ref[f]:
                        raise Violation("series", "%s: %s, written without a fault, differs from the one of the fault-free run" % (what, f))
            prev = e
        cands = ([clean] if clean else []) + doubt
        if r.why == "crash" and r.events and r.events[-1].code in (2, 4, 5, 6):
            cands.append(r.events[-1])
        if r.why != "crash" and core.died(r) and r.events:
            cands.append(r.events[-1])
        q = S.go("-r p.dat", plan=case["heap"])
        must_run(q, "the restart " + what)
        first = q.events[0]
        ok = [e for e in cands if first.restart and hist.same_state(first, e, exact, tol)]
        if not ok:
            if not (clean is None and not first.restart and hist.same_state(first, full.events[0], True) and "RUN.restart" not in tree):
                raise Violation("lost-state", "%s the restart resumed from %s%s; expected one of: %s" % (
                    what, hist.show(first), "" if first.restart else " (afresh)", "; ".join(hist.show(e) for e in cands) or "a fresh start"))
        # the restarted run, free of faults, must complete its own part of the series
        end = S.files()
        hist.check_record(end, "after the restart " + what)
        have = hist.numbered(end, form)
        for n in range(first.snap + 1, q.events[-1].snap + 1):
            if n not in have:
                raise Violation("series", "%s: the restarted run left a gap: snapshot %d is missing" % (what, n))
            try:
                snapfmt.read(end[have[n]], form)
            except snapfmt.BadSnapshot as e:
                raise Violation("series", "%s: after the restart %s is not a complete snapshot: %s" % (what, have[n], e))
        tag = "afresh" if not ok else "last clean record" if ok[0] is clean else "record touched by a fault"
        out.probe("resumed: " + tag)
        hitcls = tuple(sorted(set(r01.crash_class(o) for o in r.ops if hit(o))))[:3]
        out.state(s["fam"], tuple(kinds), hitcls, tag, case["crash"] is not None)


def shrink(case):
    for i in range(len(case["faults"])):
        if len(case["faults"]) > 1:
            c = copy.deepcopy(case)
            del c["faults"][i]
            yield c
    if case["crash"] is not None:
        c = copy.deepcopy(case)
        c["crash"] = None
        yield c
    for i, f in enumerate(case["faults"]):
        if f["len"] > 1:
            c = copy.deepcopy(case)
            c["faults"][i]["len"] = 1
            yield c
    p = case["scen"]["p"]
    for k, v in (("litesnap", 0), ("ndiagstep", 100000), ("nrestartstep", 100000), ("Nlevels", 1), ("out_file_form", "su")):
        if k in p and p[k] != v:
            c = copy.deepcopy(case)
            c["scen"]["p"][k] = v
            yield c
    if case["heap"]["heap.fill"]:
        c = copy.deepcopy(case)
        c["heap"]["heap.fill"] = 0
        yield c
    if p["tend"] > 1.5 * p["dt_snap"]:
        c = copy.deepcopy(case)
        c["scen"]["p"]["tend"] = p["tend"] / 2
        yield c
