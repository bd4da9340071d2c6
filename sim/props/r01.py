"""R01: a crash at any point leaves the directory restartable from the last recorded state (or the one being recorded)."""
import copy
import core, scen, hist, snapfmt
from core import Violation, Session, must_run

ID = "R01"
VARIANTS = ["serial"]
TIERS = {"quick": {"cases": 1500, "cap_s": 50, "shrink_s": 60}, "thorough": {"cases": 100000, "cap_s": 780, "shrink_s": 90}}
RULE = "distinct (scenario family, file and operation class at the crash, kind of state the restart resumed from, output format) combinations reached"
REAL, STUB, ASSUME = core.REAL_SERIAL, core.STUB_SERIAL, core.ASSUME_SERIAL
FAMS = ["box", "soundwave", "sod", "sedov", "khi", "freefall", "plummer", "binary", "hybrid", "sinks", "dustwave", "accrete", "dustmix", "gresho", "evrard", "noh", "disc", "mfvdust", "subsys"]
CLASSES = ["any", "rename", "record", "snapshot", "tmp", "open", "close", "early"]


def gen(r, tier, i):
    form = r.choice(["su", "su", "su", "sf"])
    s = scen.draw(r, FAMS, tscale=r.choice([0.3, 0.6, 1.0]), out_file_form=form,
                  nrestartstep=r.choice([100000, 1, 2, 3, 5, 8]), ndiagstep=r.choice([100000, 1, 4]))
    if r.random() < 0.2:
        s["p"]["litesnap"], s["p"]["dt_litesnap"], s["p"]["tlitesnapfirst"] = 1, s["p"]["tend"] / 5, 0.0
    crashes = []
    for _ in range(r.choice([1, 2, 3] if tier == "quick" else [1, 2, 3, 4, 6])):
        crashes.append({"cls": r.choice(CLASSES), "at": r.random(), "kind": r.choice(["crash", "crash", "torn"]), "k": r.randrange(10**6),
                        "benign": [[r.choice(["short", "eintr"]), r.randrange(40), r.randrange(10**6)] for _ in range(r.choice([0, 0, 1, 3]))]})
    return {"scen": s, "crashes": crashes, "heap": {"heap.fill": r.choice([0, 0, 165, 256]), "heap.seed": r.randrange(1000)}}


def pick(ops, c, r0):
    """operation number at which the crash happens, chosen among the operations a complete run performs from here"""
    cls = c["cls"]
    def ok(o):
        n, kind, path = o[0], o[1], o[2]
        if cls == "rename": return kind == "rename"
        if cls == "record": return ".restart" in path
        if cls == "snapshot": return bool(hist.SNAP.match(path))
        if cls == "tmp": return ".tmp" in path
        if cls == "open": return kind == "open" and path.startswith("RUN")
        if cls == "close": return kind == "close" and path.startswith("RUN")
        return True
    cand = [o for o in ops if ok(o)]
    if c["kind"] == "torn":
        w = [o for o in cand if o[1] == "write"]
        cand = w or cand
    if not cand:
        cand = ops
    j = int(c["at"] * len(cand))
    if cls == "early":
        j = int(c["at"] * min(6, len(cand)))
    return cand[min(j, len(cand) - 1)]


def crash_class(o):
    p = o[2]
    f = "record" if ".restart" in p else "tmp" if ".tmp" in p else "snapshot" if hist.SNAP.match(p) else "lite" if "slite" in p else "other"
    return f + "/" + o[1]


def run(case, ctx, out):
    s = case["scen"]
    form = s["p"]["out_file_form"]
    exact = hist.exactable(s, form)
    tol = 1e-10 if form == "su" else 1e-8
    with Session(ctx, out) as S:
        scen.setup(S.sc, s)
        tree0 = S.files()
        full = S.go(plan=case["heap"])
        must_run(full, "the uninterrupted run", reference=True)
        ref_tree, ref_ops, fresh = S.files(), full.ops, full.events[0]
        hist.check_series(ref_tree, form, full.events[-1].snap, "after the uninterrupted run")
        ops, tree, arg = ref_ops, tree0, "p.dat"
        lin = hist.Lineage()
        resumed_before = False
        resumed_mark = None             # what the directory was restartable from when the current launch began
        kept = {}                       # recorded snapshot files: their bytes may never change again
        for n, c in enumerate(case["crashes"]):
            o = pick(ops, c, None)
            S.sc.restore_tree(tree)
            fl = [(c["kind"] if o[1] == "write" or c["kind"] == "crash" else "crash", o[0], o[0] + 1, c["k"])]
            fl += [(k, a, a + 1, b) for k, a, b in c["benign"] if a < o[0]]
            r = S.go(arg, plan=case["heap"], faults=fl)
            if r.why != "crash":
                if c["benign"] and core.died(r) is None:
                    continue            # short writes moved the operation count past the end
                must_run(r, "the run before crash %d" % (n + 1))
                raise Violation("nocrash", "the crash at operation %d did not happen in a repeated run" % o[0])
            lin = hist.Lineage()
            lin.absorb(r)
            if lin.mark is None:
                lin.mark = resumed_mark
            tree = S.files()
            what = "after crash %d at operation %d (%s)" % (n + 1, o[0], crash_class(o))
            hist.check_record(tree, what)
            for k, b in kept.items():
                if tree.get(k) != b:
                    raise Violation("overwritten", "%s: %s, recorded earlier, has changed" % (what, k))
            for num, k in hist.numbered(tree, form).items():
                if lin.mark is not None and num <= lin.mark.snap:
                    kept.setdefault(k, tree[k])
                    if not resumed_before and ref_tree.get(k) != tree[k]:
                        raise Violation("prefix", "%s: %s differs from the one of the uninterrupted run" % (what, k))
            # restart, to the end
            r = S.go("-r p.dat", plan=case["heap"])
            must_run(r, "the restart " + what)
            first = r.events[0]
            cands = lin.candidates()
            hit = None
            for name, e in cands:
                if first.restart and hist.same_state(first, e, exact, tol):
                    hit = (name, e)
                    break
            if hit is None:
                if lin.mark is None and (not first.restart or first.step == 0) and hist.same_state(first, fresh, True) and "RUN.restart" not in tree:
                    hit = ("a fresh start", None)
                else:
                    raise Violation("lost-state", "%s the restart resumed from %s; expected one of: %s" % (
                        what, hist.show(first), "; ".join("%s (%s)" % (a, hist.show(b)) for a, b in cands) or "a fresh start"))
            out.state(s["fam"], crash_class(o), hit[0], form)
            out.probe("resumed from " + hit[0])
            if hit[0] != "a fresh start":
                out.nontrivial = True
            resumed_mark = hit[1]
            resumed_before = resumed_before or hit[1] is not None
            ftree = S.files()
            last = r.events[-1]
            hist.check_series(ftree, form, last.snap, "at the end, " + what, hist.numbered(tree, form))
            hist.check_record(ftree, "at the end, " + what)
            if last.t < full.events[-1].t * (1 - 1e-9) and last.t < r.events[0].t:
                raise Violation("end", "the restarted run stopped at t=%g" % last.t)
            for k, b in kept.items():
                if ftree.get(k) != b:
                    raise Violation("overwritten", "at the end, %s: %s, recorded before the crash, has changed" % (what, k))
            ops, arg = r.ops, "-r p.dat"


def shrink(case):
    cr = case["crashes"]
    for i in range(len(cr)):
        if len(cr) > 1:
            c = copy.deepcopy(case)
            del c["crashes"][i]
            yield c
    for i in range(len(cr)):
        if cr[i]["benign"]:
            c = copy.deepcopy(case)
            c["crashes"][i]["benign"] = []
            yield c
        if cr[i]["kind"] == "torn":
            c = copy.deepcopy(case)
            c["crashes"][i]["kind"] = "crash"
            yield c
    p = case["scen"]["p"]
    for k, v in (("litesnap", 0), ("ndiagstep", 100000), ("nrestartstep", 100000), ("Nlevels", 1), ("out_file_form", "su")):
        if k in p and p[k] != v:
            c = copy.deepcopy(case)
            c["scen"]["p"][k] = v
            yield c
    if case["heap"]["heap.fill"]:
        c = copy.deepcopy(case)
        c["heap"]["heap.fill"] = 0
        yield c
    if p["tend"] > 1.5 * p["dt_snap"]:
        c = copy.deepcopy(case)
        c["scen"]["p"]["tend"] = p["tend"] / 2
        yield c
