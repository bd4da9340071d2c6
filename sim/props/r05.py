"""R05: input that cannot be read completely is refused before anything evolves; harmless read anomalies change nothing."""
import copy, re
import core, scen, hist, snapfmt
from core import Violation, Session, must_run

ID = "R05"
VARIANTS = ["serial"]
TIERS = {"quick": {"cases": 3000, "cap_s": 50, "shrink_s": 60}, "thorough": {"cases": 200000, "cap_s": 780, "shrink_s": 90}}
RULE = "distinct (scenario family, file hit, its format, kind of damage or read fault, outcome) combinations where a fault fired"
REAL, STUB, ASSUME = core.REAL_SERIAL, core.STUB_SERIAL, core.ASSUME_SERIAL
FAMS = ["box", "soundwave", "sod", "sedov", "freefall", "plummer", "binary", "hybrid", "sinks", "dustwave", "accrete", "dustmix", "gresho", "evrard", "noh", "disc", "mfvdust", "subsys"]
ENOENT, EIO, EACCES, EMFILE = 2, 5, 13, 24
HARD = ["cut", "cut", "cut", "cutend", "gone", "eio", "eof", "openfail", "empty"]


def gen(r, tier, i):
    form = r.choice(["su", "su", "sf", "sf", "column"])
    s = scen.draw(r, FAMS, tscale=r.choice([0.15, 0.3]), out_file_form=form, nrestartstep=r.choice([100000, 1, 3]))
    how = r.choice(["restart", "ic"]) if form != "column" else "ic"
    s["p"]["tsnapfirst"] = 0.0
    if form == "column" and s["fam"].startswith("dust"):
        s["p"]["out_file_form"] = "su"
    mode = "soft" if r.random() < 0.2 else "hard"
    fl = {"k": r.choice(["short", "eintr"]) if mode == "soft" else r.choice(HARD), "file": r.choice(["data", "data", "data", "record", "param"]),
          "at": r.random(), "len": r.choice([1, 1, 2, 10]), "arg": r.randrange(10 ** 6)}
    if how == "ic" and fl["file"] == "record":
        fl["file"] = "data"
    if fl["file"] == "param" and fl["k"] in ("cut", "cutend", "eof", "empty"):
        fl["k"] = r.choice(["eio", "openfail", "gone"])      # a shorter parameter file is a valid one
    return {"scen": s, "how": how, "mode": mode, "fault": fl, "big": r.random() < 0.5, "heap": {"heap.fill": r.choice([0, 0, 165, 256]), "heap.seed": r.randrange(1000)}}


def cut_at(data, form, f):
    if form == "su":
        lim = len(data) - 1
    else:
        m = re.search(rb"\S+\s*$", data)
        lim = m.start() - 1         # losing only digits of the very last number cannot be noticed
    if f["k"] == "cutend":
        return max(0, lim - f["arg"] % 64)
    return int(f["at"] * (lim + 1))


def key(r):
    return [(e.code, e.t, e.step, e.dig, e.snap) for e in r.events]


def run(case, ctx, out):
    s, f = case["scen"], case["fault"]
    form = s["p"]["out_file_form"]
    with Session(ctx, out) as S:
        scen.setup(S.sc, s)
        r = S.go(plan=case["heap"])
        must_run(r, "the first run", reference=True)
        arg = "p.dat"
        if case["how"] == "restart":
            over = {"tend": s["p"]["tend"] * 1.3}
            scen.setup(S.sc, s, **over)
            arg = "-r p.dat"
            data = hist.record_of(S.files())[1]
        else:
            snaps = hist.numbered(S.files(), form)
            src = snaps[max(1, int(f["at"] * len(snaps)))]
            tree = S.files()
            p = {k: v for k, v in s["p"].items() if k not in ("tend", "tsnapfirst", "dt_snap")}
            b = tree[src]
            snap = snapfmt.read(b, form)
            if form == "column" and any(e.dead for e in r.events):
                return
            dt = s["p"]["dt_snap"]
            s2 = {"fam": s["fam"], "ic": None, "p": dict(p, ic="file", in_file="in.dat", in_file_form=form, tend=snap.t + 1.5 * dt, tsnapfirst=snap.t + dt, dt_snap=dt)}
            S.sc.restore_tree({"in.dat": b})
            scen.setup(S.sc, s2)
            data = "in.dat"
        # both a re-read of the old directory and a new run from a file start from this tree
        tree = S.files()
        ref = S.go(arg, plan=case["heap"])
        must_run(ref, "the run reading intact files", reference=True)
        name = {"data": data, "record": "RUN.restart", "param": "p.dat"}[f["file"]]
        S.sc.restore_tree(tree)
        faults, t2 = [], dict(tree)
        k = f["k"]
        ro = [o for o in ref.rops if o[2] == name]
        rd = [o for o in ro if o[1] == "read"]
        op = [o for o in ro if o[1] == "open"]
        if not rd or not op:
            raise Violation("unread", "%s was never read" % name)
        pick = rd[min(len(rd) - 1, int(f["at"] * len(rd)))][0]
        fresh_ok = False
        if k in ("cut", "cutend"):
            if name == "RUN.restart":
                t2[name] = tree[name].rstrip()[:int(f["at"] * (len(tree[name].rstrip())))]
            else:
                t2[name] = tree[name][:cut_at(tree[name], form, f)]
            fired = "truncated"
        elif k == "empty":
            t2[name] = b""
            fired = "emptied"
        elif k == "gone":
            del t2[name]
            fresh_ok = name == "RUN.restart"
            fired = "missing"
        elif k == "eio":
            faults.append(("readeio", pick, pick + f["len"], EIO))
        elif k == "eof":
            faults.append(("readeof", pick, pick + 10 ** 6, 0))
        elif k == "openfail":
            o = op[min(len(op) - 1, int(f["at"] * len(op)))][0]
            faults.append(("readopenfail", o, o + 1, [EACCES, EMFILE, EIO][f["arg"] % 3]))
        else:
            a, b2 = (0, 10 ** 6) if f["len"] == 10 else (pick, pick + f["len"])
            if k == "eintr":
                a, b2 = pick, pick + 1
            faults.append(("readshort" if k == "short" else "readeintr", a, b2, f["arg"]))
        if t2 != tree:
            S.sc.restore_tree(t2)
            out.faults[fired] = out.faults.get(fired, 0) + 1
        q = S.go(arg, plan=case["heap"], faults=faults)
        hit = fired if t2 != tree else ",".join(sorted(q.faults_fired())) or None
        if hit is None:
            return
        end = S.files()
        what = "%s (%s) %s" % ({"data": "snapshot" if case["how"] == "restart" else "initial conditions file", "record": "restart record", "param": "parameter file"}[f["file"]], form, hit)
        same = key(q) == key(ref) and core.died(q) is None
        if case["mode"] == "soft" and k == "eintr":
            # an interrupted read may be taken as an error, but never as data
            pass
        elif case["mode"] == "soft" and not same:
            raise Violation("disturbed", "%s: the run was not that of an undisturbed read" % what)
        outcome = "unaffected" if same else None
        if not same:
            if fresh_ok:
                must_run(q, "the run with " + what)
                if q.events[0].restart or q.events[0].step != 0:
                    raise Violation("fresh", "%s: the run did not start afresh" % what)
                outcome = "fresh start"
            else:
                d = core.died(q)
                if d is None or any(e.code >= 2 for e in q.events):
                    bad = next((e for e in q.events if e.code >= 2), None)
                    raise Violation("accepted", "%s: the program did not stop but went on with %s" % (what, hist.show(bad) if bad else "nothing"))
                if core.die_class(q) not in ("error-exit", "assert"):
                    raise Violation("unclean", "%s: the program ended by %s instead of reporting the error" % (what, d))
                for x in tree:
                    if hist.SNAP.match(x) or x.endswith(".restart") or ".tmp" in x:
                        if x != name and end.get(x) != tree[x] or x == name and end.get(x) != t2.get(x):
                            raise Violation("damaged", "%s: the refused start altered %s" % (what, x))
                outcome = "refused"
        out.nontrivial = True
        out.probe(outcome)
        out.state(s["fam"], f["file"], form, case["how"], hit, outcome)


def shrink(case):
    p = case["scen"]["p"]
    for k, v in (("Nlevels", 1), ("nrestartstep", 100000), ("tabulated_kernel", 0)):
        if k in p and p[k] != v:
            c = copy.deepcopy(case)
            c["scen"]["p"][k] = v
            yield c
    if case["heap"]["heap.fill"]:
        c = copy.deepcopy(case)
        c["heap"]["heap.fill"] = 0
        yield c
    if case["fault"]["len"] > 1:
        c = copy.deepcopy(case)
        c["fault"]["len"] = 1
        yield c
