"""R03: snapshots come out on schedule, numbered without gap, and hold the state of their moment, across stops, crashes and restarts."""
import copy
import numpy as np
import core, scen, hist, node, snapfmt
from core import Violation, Session, must_run

ID = "R03"
VARIANTS = ["serial"]
TIERS = {"quick": {"cases": 1500, "cap_s": 50, "shrink_s": 60}, "thorough": {"cases": 200000, "cap_s": 780, "shrink_s": 90}}
RULE = "distinct (scenario family, format, launch history, several outputs due at once, output off a synchronised step, particles lost) combinations"
REAL, STUB, ASSUME = core.REAL_SERIAL, core.STUB_SERIAL, core.ASSUME_SERIAL
FAMS = ["box", "soundwave", "sod", "sedov", "khi", "freefall", "plummer", "binary", "hybrid", "sinks", "dustbox", "dustwave", "accrete", "dustmix", "gresho", "evrard", "noh", "disc", "mfvdust", "subsys"]


def gen(r, tier, i):
    form = r.choice(["su", "su", "sf", "column"])
    s = scen.draw(r, FAMS, tscale=r.choice([0.3, 0.6, 1.0]), out_file_form=form, nrestartstep=r.choice([100000, 1, 2, 3, 7]),
                  ndiagstep=r.choice([1, 2, 5, 100000]))
    p = s["p"]
    if s["fam"] == "dustbox":
        p["ndim"], p["neib_search"] = 2, "kdtree"
        p.pop("boxmin[2]", None)
        p.pop("boxmax[2]", None)
    p["dt_snap"] = p["tend"] / r.choice([1.7, 3, 5, 9, 30, 200])
    p["tsnapfirst"] = r.choice([0.0, 0.0, p["dt_snap"], 0.4 * p["dt_snap"], 2.5 * p["dt_snap"]])
    if r.random() < 0.6:
        p["litesnap"], p["dt_litesnap"] = 1, p["tend"] / r.choice([2, 5, 11, 60])
        p["tlitesnapfirst"] = r.choice([0.0, 0.3 * p["dt_litesnap"], p["dt_litesnap"]])
    if r.random() < 0.15:
        p["Nstepsmax"] = r.choice([1, 3, 7])
    hist_ = []
    if form != "column":
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            hist_.append({"kind": r.choice(["crash", "crash", "wall"]), "at": r.random()})
    drive = None
    if not hist_ and r.random() < 0.35:
        drive = [[r.choice("IR"), r.choice([1, 1, 2, 3, 7, 50])] for _ in range(r.choice([1, 2, 4]))]
    return {"scen": s, "hist": hist_, "drive": drive, "heap": {"heap.fill": r.choice([0, 0, 165, 256]), "heap.seed": r.randrange(1000)}}


class Model:
    """what the output routine has to do, as a function of time only"""
    def __init__(self, p, st):
        self.snap, self.ts, self.lite, self.tl = 0, p.get("tsnapfirst", 0.0) / st, 0, p.get("tlitesnapfirst", 0.0) / st
        self.ds, self.dl, self.on = p["dt_snap"] / st, p.get("dt_litesnap", 0.0) / st, p.get("litesnap", 0) == 1
        self.nr, self.nlr = p["nrestartstep"], 0

    def step(self, e):
        w = []
        if self.on and e.t >= self.tl:
            self.lite += 1
            self.tl += self.dl
            w.append("RUN.slite.%05d" % self.lite)
        if e.t >= self.ts:
            self.snap += 1
            self.ts += self.ds
            w.append("RUN.%s.%05d" % (self.form, self.snap))
        if e.n % max(1, e.nresync) == 0 and e.step - self.nlr >= self.nr:
            self.nlr = e.step
            w.append("RUN.%s.tmp.new" % self.form)
        return w


def snap_files(r, lo, hi):
    return [o[2] for o in r.ops if lo <= o[0] < hi and o[1] == "open" and (o[2].startswith("RUN.su.") or o[2].startswith("RUN.sf.") or
            o[2].startswith("RUN.column.") or o[2].startswith("RUN.slite."))]


def rel(a, b, tol):
    return np.all(np.abs(a - b) <= tol * np.maximum(np.abs(a), np.abs(b)) + 1e-290)


def check_content(name, data, form, d, e, p, fam):
    A = d["view"]
    nd = A["ndim"]
    try:
        s = snapfmt.read(data, form)
    except snapfmt.BadSnapshot as x:
        raise Violation("content", "%s: not one complete snapshot: %s" % (name, x))
    H = d["H"]
    H = H[H[:, 31] == 0] if len(H) else H.reshape(0, node.HC)
    T = d["S"]
    tol = {"su": 1e-14, "sf": 1e-10, "slite": 1e-6, "column": 2e-5}[form]
    if s.Nh != len(H) or s.Ns != len(T):
        raise Violation("content", "%s holds %d particles and %d stars; the simulation had %d and %d" % (name, s.Nh, s.Ns, len(H), len(T)))
    if abs(s.t - A["t"] * A["st"]) > max(tol, 1e-14) * abs(s.t):
        raise Violation("content", "%s is labelled t=%.17g; it was made at t=%.17g" % (name, s.t, A["t"] * A["st"]))
    if s.noutsnap is not None:
        if form == "slite":
            if s.nsteps != A["Nsteps"]:
                raise Violation("content", "%s records step %d; the simulation was at step %d" % (name, s.nsteps, A["Nsteps"]))
        elif (s.noutsnap, s.nsteps, s.noutlite) != (A["Noutsnap"], A["Nsteps"], A["Noutlitesnap"]):
            raise Violation("content", "%s records counters %s; the simulation had %s" % (name, (s.noutsnap, s.nsteps, s.noutlite), (A["Noutsnap"], A["Nsteps"], A["Noutlitesnap"])))
        for nm, a, b in () if form == "slite" else (("last snapshot time", s.tsnaplast, A["tsnaplast"]), ("last lite snapshot time", s.tlitelast, A["tlitesnaplast"])):
            if abs(a - b * A["st"]) > max(tol, 1e-9 if form == "sf" else 1e-14) * abs(a) + 1e-300:
                raise Violation("content", "%s records %s %.17g; the simulation had %.17g" % (name, nm, a, b * A["st"]))
    if s.counts is not None and len(H):
        # code types: gas 0?  counted by the values present rather than by name
        got = sorted(int(x) for x in s.counts if x)
        want = sorted(int(x) for x in np.unique(H[:, 1], return_counts=True)[1])
        if got != want:
            raise Violation("content", "%s records %s particles of each type; the simulation had %s" % (name, got, want))
    if len(H):
        if s.iorig is not None:
            o1, o2 = np.argsort(s.iorig, kind="stable"), np.argsort(H[:, 0], kind="stable")
            if not np.array_equal(s.iorig[o1], H[o2, 0].astype(int)):
                raise Violation("content", "%s: particle identities differ from the simulation's" % name)
        else:
            # no identities: types are written one after the other, in memory order within each
            o1, o2 = np.arange(s.Nh), np.arange(s.Nh)
            if len(np.unique(H[:, 1])) > 1:
                return
        H2 = H[o2]
        for nm, got, want, sc in (("position", "r", H2[:, 8:8 + nd], A["sr"]), ("velocity", "v", H2[:, 11:11 + nd], A["sv"]), ("mass", "m", H2[:, 17], A["sm"]),
                                  ("smoothing length", "h", H2[:, 18], A["sr"]), ("density", "rho", H2[:, 19], A["srho"]), ("internal energy", "u", H2[:, 20], A["su"])):
            if not hasattr(s, got):
                continue
            if form == "slite" and got == "v":
                continue
            if not rel(getattr(s, got)[o1], want * sc, tol):
                i = int(np.argmax(np.abs(getattr(s, got)[o1] - want * sc).reshape(len(H2), -1).max(1)))
                raise Violation("content", "%s: %s of particle %d is %s; the simulation had %s" % (name, nm, H2[i, 0], getattr(s, got)[o1][i], want[i] * sc))
    if len(T) and s.star:
        for nm, got, want, sc in (("position", "r", T[:, 0:nd], A["sr"]), ("velocity", "v", T[:, 3:3 + nd], A["sv"]), ("mass", "m", T[:, 9], A["sm"])):
            if form == "slite" and got == "v":
                continue
            if got in s.star and not rel(s.star[got], want * sc, tol):
                raise Violation("content", "%s: star %s is %s; the simulation had %s" % (name, nm, s.star[got].tolist(), (want * sc).tolist()))


def check_launch(r, dumps, model, S, case, what, out, wall=False):
    p, fam = case["scen"]["p"], case["scen"]["fam"]
    form = p["out_file_form"]
    ev = [e for e in r.events]
    byev = {d["ev"]: d for d in dumps if "ev" in d}
    if not ev:
        return None
    st = byev[ev[1].idx]["view"]["st"] if len(ev) > 1 and ev[1].idx in byev else 1.0
    m = model(st)
    m.form = form
    tree = S.files()
    prev = None
    for k, e in enumerate(ev):
        if e.code == 4:
            if prev is not None and (e.step != prev.step + 1 or not e.t > prev.t):
                raise Violation("steps", "%s: step %d at t=%.9g follows step %d at t=%.9g" % (what, e.step, e.t, prev.step, prev.t))
        if e.code in (2, 3, 4, 5):
            before, prev = prev, e
        if e.code not in (3, 5):
            continue
        b = ev[k - 1]
        want = m.step(e)
        got = snap_files(r, b.mut, e.mut)
        if got != want:
            raise Violation("schedule", "%s: at step %d t=%.17g the files written are %s; due were %s" % (what, e.step, e.t, got, want))
        if (e.snap, e.lite) != (m.snap, m.lite):
            raise Violation("schedule", "%s: after step %d the program counts %d snapshots and %d lite ones; %d and %d were due" % (what, e.step, e.snap, e.lite, m.snap, m.lite))
        if want:
            out.state(fam, form, what.split(" at ")[0], len(want), e.t >= m.ts, e.n % max(1, e.nresync) == 0, e.dead > 0)
            out.nontrivial = out.nontrivial or e.step > 0
            if e.t >= m.ts:
                out.probe("another snapshot already overdue")
            if e.n % max(1, e.nresync):
                out.probe("output between synchronised steps")
        for f in want:
            if f.endswith(".new"):
                f = f[:-4]
            if f in tree and e.idx in byev and not (f.endswith(".tmp") and any(x.nlr != e.nlr for x in ev[k + 1:])):
                if form == "column" and e.dead:
                    continue           # known: text columns list dead particles
                if f.endswith(".tmp") and (r.why == "crash" or wall):
                    continue
                # a later launch may not have touched it yet: contents as written by this launch
                check_content(f, tree[f], "slite" if "slite" in f else form, byev[e.idx], e, p, fam)
    outs = [e for e in ev if e.code in (3, 5)]
    if wall and final_record(r, form) and "RUN.%s.tmp" % form in tree and ev[-1].t * st < p["tend"]:
        check_content("RUN.%s.tmp" % form, tree["RUN.%s.tmp" % form], form, byev[outs[-1].idx], None, p, fam)
    return m


def final_record(r, form):
    """did the program record its state when it stopped?"""
    outs = [e for e in r.events if e.code in (3, 5)]
    return r.why == "return" and r.events[-1].code == 6 and any(o[0] >= outs[-1].mut and o[2] == "RUN.%s.tmp.new" % form for o in r.ops)


def run(case, ctx, out):
    s = case["scen"]
    p = s["p"]
    form = p["out_file_form"]
    with Session(ctx, out) as S:
        scen.setup(S.sc, s)
        tree, arg = S.files(), "p.dat"
        fresh = lambda st: Model(p, st)
        if case["drive"]:
            r = S.go(plan=dict(case["heap"], mode="drive", param="p.dat"), ops=case["drive"], dump="c2 c3 c5")
            must_run(r, "the driven run", reference=True)
            check_launch(r, node.read_dump(r.dump), fresh, S, case, "driven by calls", out)
            return
        r = S.go(arg, plan=case["heap"], dump="c2 c3 c5")
        must_run(r, "the run", reference=True)
        check_launch(r, node.read_dump(r.dump), fresh, S, case, "uninterrupted", out)
        done(r, p, "the run")
        model, mark = fresh, None
        for n, h in enumerate(case["hist"]):
            S.sc.restore_tree(tree)
            faults, clks, over = [], [], {}
            if h["kind"] == "crash":
                o = r.ops[int(h["at"] * len(r.ops))]
                faults = [("crash", o[0], o[0] + 1, 0)]
                what = "run up to a crash"
            else:
                k = 1 + int(h["at"] * (len(r.events) - 1))
                clks = [(k, -1, 10 ** 15, 10 ** 15)]
                scen.setup(S.sc, s, tmax_wallclock=5000.0)
                what = "run up to the wall-clock limit"
            q = S.go(arg, plan=case["heap"], faults=faults, clks=clks, dump="c2 c3 c5")
            if q.why != "crash":
                must_run(q, what)
            m = check_launch(q, node.read_dump(q.dump), model, S, case, what, out, wall=h["kind"] == "wall")
            lin = hist.Lineage()
            lin.absorb(q)
            if lin.mark is None and mark is not None:
                lin.mark = mark
            if h["kind"] == "wall" and final_record(q, form):
                lin.mark = None         # only the last state is acceptable
            scen.setup(S.sc, s)
            tree, arg = S.files(), "-r p.dat"
            r = S.go(arg, plan=case["heap"], dump="c2 c3 c5")
            what = "restarted after a " + ("crash" if h["kind"] == "crash" else "stop")
            must_run(r, what)
            first = r.events[0]
            hit = [e for _, e in lin.candidates() if hist.same_state(first, e, False, 1e-8)]
            hit = [e for e in hit if after(p, e)(1.0).snap == first.snap] or hit
            if hit and first.restart:
                c = hit[0]
                model, mark = after(p, c), c
            elif "RUN.restart" in tree or first.restart:
                raise Violation("resume", "%s: it resumed from %s, which was not the state last recorded" % (what, hist.show(first)))
            else:
                model, mark = fresh, None
            check_launch(r, node.read_dump(r.dump), model, S, case, what, out)
            done(r, p, what)
            tr = S.files()
            hist.check_series(tr, form, r.events[-1].snap, what, hist.numbered(tree, form)) if form != "column" else None


def after(p, c):
    """the schedule continues from the recorded state"""
    def f(st):
        m = Model(p, st)
        full, live = Model(p, st), c
        if c.code in (2, 4):            # recorded while its output was being made
            m.snap, m.lite = c.snap, c.lite
            if c.lite or c.snap:
                pass
            ts, tl = c.tsnapnext, c.tlitenext
            if m.on and c.t >= tl:
                m.lite, tl = m.lite + 1, tl + m.dl
            if c.t >= ts:
                m.snap, ts = m.snap + 1, ts + m.ds
            m.ts, m.tl = ts, tl
        else:
            m.snap, m.lite, m.ts, m.tl = c.snap, c.lite, c.tsnapnext, c.tlitenext
        return m
    return f


def done(r, p, what):
    e = [x for x in r.events if x.code in (3, 5)]
    last = e[-1]
    st = 1.0
    if last.step >= p.get("Nstepsmax", 10 ** 9):
        if last.step > p["Nstepsmax"] and last.code == 5 and e[-2].step >= p["Nstepsmax"]:
            raise Violation("end", "%s: it went on to step %d, the limit being %d" % (what, last.step, p["Nstepsmax"]))
        return
    if p["dimensionless"] == 1 and last.t < p["tend"]:
        raise Violation("end", "%s: it stopped at t=%.9g, before the end time %.9g" % (what, last.t, p["tend"]))
    if p["dimensionless"] == 1 and len(e) > 1 and last.code == 5 and e[-2].t >= p["tend"]:
        raise Violation("end", "%s: it went on past the end time: t=%.9g, end %.9g" % (what, last.t, p["tend"]))


def shrink(case):
    p = case["scen"]["p"]
    for i in range(len(case["hist"])):
        c = copy.deepcopy(case)
        del c["hist"][i]
        yield c
    if case["drive"] and len(case["drive"]) > 1:
        for i in range(len(case["drive"])):
            c = copy.deepcopy(case)
            del c["drive"][i]
            yield c
    for k, v in (("litesnap", 0), ("nrestartstep", 100000), ("Nlevels", 1), ("out_file_form", "su"), ("ndiagstep", 100000), ("tsnapfirst", 0.0)):
        if k in p and p[k] != v:
            c = copy.deepcopy(case)
            c["scen"]["p"][k] = v
            yield c
    if case["heap"]["heap.fill"]:
        c = copy.deepcopy(case)
        c["heap"]["heap.fill"] = 0
        yield c
    if p["tend"] > 1.5 * p["dt_snap"]:
        c = copy.deepcopy(case)
        c["scen"]["p"]["tend"] = p["tend"] / 2
        yield c
