"""D02: driving a simulation in slices through the interactive interface gives the run that the command-line program makes."""
import copy, re
import numpy as np
import core, scen, hist, node, snapfmt
from core import Violation, Session, must_run
from .d01 import W, same_events

ID = "D02"
VARIANTS = ["serial"]
TIERS = {"quick": {"cases": 1500, "cap_s": 45, "shrink_s": 60}, "thorough": {"cases": 200000, "cap_s": 780, "shrink_s": 90}}
RULE = "distinct (scenario family, kinds of calls, kind of clock, sliced off a synchronised step, particles lost, snapshot objects handed back) combinations"
REAL, STUB, ASSUME = core.REAL_SERIAL, core.STUB_SERIAL, core.ASSUME_SERIAL
FAMS = [f for f in scen.FAMILIES if f != "ewald"] + ["sinks", "accrete", "dustmix", "binary"]
IDX = re.compile(r"^ev \d+ | mut=\S+")
CALL = re.compile(r"^call (\d+) op=(\S) arg=(-?\d+) t=(\S+) step=(\d+) fin=(\d)")
NS = 10 ** 9


def gen(r, tier, i):
    s = scen.draw(r, FAMS, tscale=r.choice([0.3, 0.6, 1.0]), out_file_form=r.choice(["su", "su", "sf"]), nrestartstep=r.choice([100000, 1, 4]), ndiagstep=r.choice([100000, 1, 3]))
    p = s["p"]
    p["dt_snap"] = p["tend"] / r.choice([1.7, 3, 5, 9, 30])
    p["tsnapfirst"] = r.choice([0.0, p["dt_snap"], 0.4 * p["dt_snap"]])
    if r.random() < 0.35:
        p["litesnap"], p["dt_litesnap"], p["tlitesnapfirst"] = 1, p["tend"] / r.choice([4, 7, 25]), 0.0
    mode = r.choice(["n", "n", "clock", "mix"])
    ops = [[r.choice("IIR"), r.choice([1, 1, 2, 3, 5, 20])] for _ in range(r.choice([1, 2, 3]))] if mode != "clock" else []
    if mode != "n":
        ops.insert(r.randrange(len(ops) + 1), ["I", -1])
    plan = {"heap.fill": r.choice([0, 165, 256]), "heap.seed": r.randrange(1000)}
    clk = []
    if mode != "n":
        plan["clock.step_c"] = r.choice([10 ** 5, 10 ** 8, NS, 5 * NS])
        p["dt_python"] = plan["clock.step_c"] / NS * r.choice([0.5, 1.0, 2.5, 10.0])
        clk = [[r.randrange(3, 80), r.choice([100, -100, 5])] for _ in range(r.choice([0, 0, 2]))]
    return {"scen": s, "ops": ops, "plan": plan, "clks": clk}


def strip(r):
    return [IDX.sub("", W.sub("", e.line)) for e in r.events if e.code != 6]


def rows(b):
    return [x for x in b.split(b"\n") if x]


def run(case, ctx, out):
    s = case["scen"]
    p = s["p"]
    with Session(ctx, out) as S:
        scen.setup(S.sc, s)
        tree = S.files()
        a = S.go()
        must_run(a, "the run", reference=True)
        fa = S.files()
        S.sc.restore_tree(tree)
        ops = [tuple(o) for o in case["ops"]]
        b = S.go(plan=dict(case["plan"], mode="drive", param="p.dat", max_calls=100000), ops=ops,
                 clks=[(k, -1, 0, w * NS) for k, w in case["clks"]], dump="c5")
        must_run(b, "the sliced run")
        fb = S.files()
        d = node.read_dump(b.dump)
        la, lb = strip(a), strip(b)
        same_events(la, lb, "driven in slices")
        out.nontrivial = len(a.events) > 5
        # the files
        for k in sorted(set(fa) | set(fb)):
            if k.endswith(".timing") or k == "cont":
                continue
            if k not in fb or k not in fa:
                raise Violation("output", "%s exists only %s" % (k, "in the whole run" if k in fa else "when driven in slices"))
            if k.endswith(".diag"):
                ra, rb = rows(fa[k]), rows(fb[k])
                i = 0
                for x in ra:
                    while i < len(rb) and rb[i] != x:
                        i += 1
                    if i == len(rb):
                        raise Violation("output", "the row %r of the diagnostics is missing when driven in slices" % x[:60])
                continue
            if fa[k] != fb[k]:
                raise Violation("output", "%s differs when driven in slices" % k)
        # the calls
        calls = [CALL.match(l).groups() for l in b.misc if l.startswith("call ")]
        prev, clocked = b.events[2], "dt_python" in p
        ends = {}
        for e in b.events:
            if e.code == 5:
                ends[e.step] = e
        off = False
        for no, op, arg, t, step, fin in calls:
            n, step, arg = int(step) - prev.step, int(step), int(arg)
            e = ends.get(step)
            if e is None or n < 1:
                raise Violation("progress", "call %s (%s %d) made no step" % (no, op, arg))
            if arg > 0 and n > arg:
                raise Violation("calls", "call %s (%s %d) made %d steps" % (no, op, arg, n))
            if arg > 0 and n < arg and not (op == "I" and clocked) and e.t < prev_tend(p, b):
                raise Violation("calls", "call %s (%s %d) made only %d steps" % (no, op, arg, n))
            off = off or e.n % max(1, e.nresync) != 0
            prev = e
        if clocked and not case["clks"] and len(calls) == 1 and len(ends) > 12 and case["ops"] == [["I", -1]] and p["dt_python"] < 11 * case["plan"]["clock.step_c"] / NS:
            raise Violation("calls", "a call of the interactive interface went on for %d steps, although its time was up" % len(ends))
        # the snapshot objects
        objs = {}
        for x in d:
            if "snap" in x:
                objs.setdefault((x["snap"] // 1000, x["file"]), []).append(x)
        got = [k for k in objs]
        want = []
        at = b.events[2].step
        for no, op, arg, t, step, fin in calls:
            if op == "I":
                for e in b.events:
                    if e.code == 5 and at < e.step <= int(step):
                        q = [x for x in b.events if x.idx == e.idx - 1]
                        if q and e.snap > q[0].snap:
                            want.append((int(no), "RUN.%s.%05d" % (p["out_file_form"], e.snap)))
            at = int(step)
        if got != want:
            raise Violation("objects", "the snapshots handed back by the calls were %s; written were %s" % (got[:8], want[:8]))
        views = [x for x in d if "view" in x]
        for (no, name), parts in objs.items():
            snapshot(name, parts, fb[name], p["out_file_form"], views[0]["view"])
        lost = any(e.dead for e in b.events)
        out.probe("snapshot objects compared with their files", len(objs))
        out.probe("calls", len(calls))
        out.probe("calls ended by the processor clock", sum(1 for c in calls if clocked and c[1] == "I" and c[2] == "-1"))
        out.probe("sliced between synchronised steps", off)
        out.state(s["fam"], "".join(sorted(set(c[1] for c in calls))), clocked, bool(case["clks"]), off, lost, bool(objs), len(calls) > 3)


def prev_tend(p, b):
    return p["tend"] if p["dimensionless"] == 1 else 0.0


def close(a, b, tol):
    return np.all(np.abs(a - b) <= tol * np.maximum(np.abs(a), np.abs(b)) + 1e-290)


def snapshot(name, parts, data, form, A):
    f = snapfmt.read(data, form)
    tol = 1e-13 if form == "su" else 1e-9
    ng = sum(x["n"] for x in parts if x["species"] != "star")
    ns = sum(x["n"] for x in parts if x["species"] == "star")
    if ng != f.Nh or ns != f.Ns:
        raise Violation("objects", "the snapshot handed back for %s holds %d particles and %d stars; the file %d and %d" % (name, ng, ns, f.Nh, f.Ns))
    sc = {"x": A["sr"], "vx": A["sv"], "m": A["sm"], "h": A["sr"]}
    cols = {}
    ids = []
    for x in parts:
        if abs(x["t"] * A["st"] - f.t) > tol * abs(f.t) and abs(x["t"] - f.t) > tol * abs(f.t):
            raise Violation("objects", "the snapshot handed back for %s is labelled t=%.17g; the file t=%.17g" % (name, x["t"], f.t))
        if x["species"] == "star":
            for k, w in (("x", f.star["r"][:, 0]), ("vx", f.star["v"][:, 0]), ("m", f.star["m"])):
                if not close(x["cols"][k] * sc[k], w, tol):
                    raise Violation("objects", "the snapshot handed back for %s: %s of the stars differs from the file" % (name, k))
            continue
        ids.append(np.frombuffer(x["cols"]["iorig"].tobytes(), dtype="<i4")[::2])
        for k in sc:
            cols.setdefault(k, []).append(x["cols"][k])
    if ids:
        o = np.argsort(np.concatenate(ids), kind="stable")
        if f.iorig is not None:
            o2 = np.argsort(f.iorig, kind="stable")
            if not np.array_equal(np.concatenate(ids)[o], f.iorig[o2]):
                raise Violation("objects", "the snapshot handed back for %s holds other particles than the file" % name)
        else:
            return
        for k, w in (("x", f.r[:, 0]), ("vx", f.v[:, 0]), ("m", f.m), ("h", f.h)):
            if not close(np.concatenate(cols[k])[o] * sc[k], w[o2], tol):
                raise Violation("objects", "the snapshot handed back for %s: %s differs from the file" % (name, k))


def shrink(case):
    p = case["scen"]["p"]
    if len(case["ops"]) > 1:
        for i in range(len(case["ops"])):
            c = copy.deepcopy(case)
            del c["ops"][i]
            yield c
    if case["clks"]:
        yield dict(copy.deepcopy(case), clks=[])
    for k, v in (("Nlevels", 1), ("nrestartstep", 100000), ("ndiagstep", 100000), ("out_file_form", "su"), ("litesnap", 0)):
        if k in p and p[k] != v:
            c = copy.deepcopy(case)
            c["scen"]["p"][k] = v
            yield c
    if case["plan"]["heap.fill"]:
        c = copy.deepcopy(case)
        c["plan"]["heap.fill"] = 0
        yield c
    if p["tend"] > 1.5 * p["dt_snap"]:
        c = copy.deepcopy(case)
        c["scen"]["p"]["tend"] = p["tend"] / 2
        yield c
