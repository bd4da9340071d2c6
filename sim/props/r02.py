"""R02: a restarted run begins from exactly the recorded state and then follows the uninterrupted one."""
import copy
import numpy as np
import core, scen, hist, node
from core import Violation, Session, must_run

ID = "R02"
VARIANTS = ["serial"]
TIERS = {"quick": {"cases": 1200, "cap_s": 50, "shrink_s": 60}, "thorough": {"cases": 200000, "cap_s": 780, "shrink_s": 90}}
RULE = "distinct (scenario family, record kind, format, unit system, synchronised or not, particles lost or stars gained) combinations restarted from"
REAL, STUB, ASSUME = core.REAL_SERIAL, core.STUB_SERIAL, core.ASSUME_SERIAL
FAMS = ["box", "soundwave", "sod", "sedov", "khi", "freefall", "plummer", "binary", "hybrid", "sinks", "dustbox", "dustwave", "accrete", "dustmix", "gresho", "evrard", "noh", "disc", "mfvdust", "subsys"]
# bounds on (largest, median) position difference in smoothing lengths and velocity difference in sound speeds; about ten times the
# largest differences seen, which come from re-choosing time steps after a restart
XMAX, XMED = {"sod": 0.3}, 0.01
VMAX, VMED = {"freefall": 0.6}, {"freefall": 0.3}
SMOOTH = {"soundwave", "box", "khi", "freefall", "dustwave", "binary", "sod"}
UNITS = {"dimensionless": 0, "routunit": "pc", "moutunit": "m_sun", "toutunit": "myr", "voutunit": "km_s", "rhooutunit": "g_cm3",
         "tempoutunit": "K", "uoutunit": "J_kg", "temp0": 10.0, "mu_bar": 2.35}


def gen(r, tier, i):
    s = scen.draw(r, FAMS, tscale=r.choice([0.3, 0.6, 1.0]), out_file_form=r.choice(["su", "su", "su", "sf"]),
                  nrestartstep=r.choice([100000, 100000, 1, 2, 4]))
    if s["fam"] in ("plummer", "binary", "freefall") and r.random() < 0.3:
        s["p"].update(UNITS)
        ru, tu, f = r.choice([("pc", "myr", 14.9), ("au", "yr", 0.159), ("pc", "yr", 14.9e6)])
        s["p"]["routunit"], s["p"]["toutunit"] = ru, tu
        for k in ("tend", "dt_snap", "tsnapfirst"):
            s["p"][k] *= f
        if s["fam"] == "freefall":
            s["p"]["sim"], s["p"]["hydro_forces"] = "gradhsph", 0
    if s["fam"] == "dustbox":
        s["p"]["ndim"], s["p"]["neib_search"] = 2, "kdtree"
        s["p"].pop("boxmin[2]", None)
        s["p"].pop("boxmax[2]", None)
    if r.random() < 0.3:
        s["p"]["litesnap"], s["p"]["dt_litesnap"], s["p"]["tlitesnapfirst"] = 1, s["p"]["tend"] / r.choice([4, 7]), r.choice([0.0, s["p"]["tend"] / 9])
    return {"scen": s, "pick": r.random(), "chain": r.choice([1, 1, 2]), "heap": {"heap.fill": r.choice([0, 0, 165, 256]), "heap.seed": r.randrange(1000)}}


def live(d):
    H = d["H"]
    return H[H[:, 31] == 0] if len(H) else H


def cmp_arr(name, a, b, tol, what):
    if a.shape != b.shape:
        raise Violation("restored", "%s: %s has shape %s, recorded %s" % (what, name, a.shape, b.shape))
    if a.size == 0:
        return
    if tol == 0:
        bad = ~((a == b) | (np.isnan(a) & np.isnan(b)))
    else:
        sc = np.maximum(np.abs(a), np.abs(b))
        bad = ~(np.abs(a - b) <= tol * sc + 1e-300)
    if bad.any():
        i = np.argwhere(bad)[0]
        raise Violation("restored", "%s: %s of particle %s is %.17g, recorded %.17g (%d of %d differ)" % (what, name, tuple(i), a[tuple(i)], b[tuple(i)], bad.sum(), bad.size))


def compare(saved, loaded, form, what, nd):
    A, B = saved["view"], loaded["view"]
    dimless = A["dimensionless"] == 1
    tol = 0.0 if form == "su" and dimless else 1e-13 if form == "su" else 2e-10
    S, L = live(saved), live(loaded)
    if len(L) != len(S):
        raise Violation("restored", "%s: %d particles, recorded %d" % (what, len(L), len(S)))
    if len(S):
        if len(set(S[:, 0])) == len(S):
            S, L = S[np.argsort(S[:, 0], kind="stable")], L[np.argsort(L[:, 0], kind="stable")]
        cmp_arr("identity", L[:, 0], S[:, 0], 0, what)
        cmp_arr("type", L[:, 1], S[:, 1], 0, what)
        for nm, c in (("position", slice(8, 8 + nd)), ("velocity", slice(11, 11 + nd)), ("mass", 17), ("smoothing length", 18), ("density", 19), ("internal energy", 20)):
            cmp_arr(nm, L[:, c], S[:, c], tol, what)
    T, M = saved["S"], loaded["S"]
    if len(T) != len(M):
        raise Violation("restored", "%s: %d stars, recorded %d" % (what, len(M), len(T)))
    if len(T):
        for nm, c in (("star position", slice(0, nd)), ("star velocity", slice(3, 3 + nd)), ("star mass", 9), ("star smoothing length", 10)):
            cmp_arr(nm, M[:, c], T[:, c], tol, what)
        k = (T[:, 24] == 1) & (T[:, 18] > 0)
        cmp_arr("sink radius", M[k, 18], T[k, 11], tol, what)
        cmp_arr("star radius", M[:, 11], T[:, 11], tol, what)
    for k in ("Nsteps", "Noutsnap", "Noutlitesnap"):
        if A[k] != B[k]:
            raise Violation("counters", "%s: %s is %d, recorded %d" % (what, k, B[k], A[k]))
    for k in ("t", "tsnaplast", "tlitesnaplast", "mmean", "tsnapnext") + (("tlitesnapnext",) if A["Noutlitesnap"] else ()):
        if k == "mmean" and not len(S):
            continue
        t = max(tol, 1e-13) if k != "t" or tol else 0.0
        if abs(A[k] - B[k]) > t * max(abs(A[k]), abs(B[k])) + (1e-9 * abs(A["t"]) if form == "sf" and k != "t" else 0):
            raise Violation("counters", "%s: %s is %.17g, recorded %.17g" % (what, k, B[k], A[k]))


def marks(r):
    out, prev = [], None
    for e in r.events:
        if prev is not None and e.code in (3, 5) and (e.snap != prev.snap or e.nlr != prev.nlr):
            out.append((e, "temporary" if e.nlr != prev.nlr else "snapshot"))
        prev = e
    return out


def run(case, ctx, out):
    s = case["scen"]
    form = s["p"]["out_file_form"]
    with Session(ctx, out) as S:
        scen.setup(S.sc, s)
        tree, arg, nd, pick = S.files(), "p.dat", s["p"].get("ndim", 3), case["pick"]
        first_full = None
        for depth in range(case["chain"]):
            S.sc.restore_tree(tree)
            full = S.go(arg, plan=case["heap"], dump="c6")
            must_run(full, "the run", reference=depth == 0)
            fin = node.read_dump(full.dump)[-1]
            if first_full is None:
                first_full = (full, fin)
            mk = marks(full)
            if not mk:
                return
            e, kind = mk[int(pick * len(mk))]
            S.sc.restore_tree(tree)
            r = S.go(arg, plan=case["heap"], faults=[("crash", e.mut, e.mut + 1, 0)], dump=str(e.idx))
            if r.why not in ("crash", "return"):
                must_run(r)
            saved = [d for d in node.read_dump(r.dump) if d["ev"] == e.idx][0]
            tree = S.files()
            q = S.go("-r p.dat", plan=case["heap"], dump="c1 c6")
            what = "after restarting at step %d t=%.9g" % (e.step, e.t)
            ds = node.read_dump(q.dump)
            if not ds:
                must_run(q, "the restart")
            if ds[0]["view"]["restart"] == 0:
                raise Violation("restored", what + ": the run started afresh")
            compare(saved, ds[0], form, what, nd)
            must_run(q, "the restarted run")
            out.state(s["fam"], kind, form, s["p"]["dimensionless"], e.n % max(1, e.nresync) == 0, e.dead > 0, e.Ns > full.events[0].Ns, depth)
            out.nontrivial = e.step > 0
            out.probe("restarted from a " + kind + " record")
            if e.n % max(1, e.nresync):
                out.probe("record made between synchronised steps")
            if e.Nh - e.dead < full.events[0].Nh:
                out.probe("particles had been accreted before the record")
            end = ds[-1]
            follow(fin, end, s, what, nd, out, e, full)
            arg, pick = "-r p.dat", (pick * 7.3) % 1.0


def follow(a, b, s, what, nd, out, e, full):
    """the continuation ends near the uninterrupted run"""
    if s["fam"] not in SMOOTH:
        return
    A, B = live(a), live(b)
    if len(A) != len(B):
        raise Violation("diverged", "%s: the run ends with %d particles instead of %d" % (what, len(B), len(A)))
    ta, tb = a["view"]["t"], b["view"]["t"]
    if len(A):
        A, B = A[np.argsort(A[:, 0], kind="stable")], B[np.argsort(B[:, 0], kind="stable")]
        dt = tb - ta
        d = (B[:, 8:8 + nd] - A[:, 8:8 + nd]) - dt * A[:, 11:11 + nd] - 0.5 * dt ** 2 * A[:, 14:14 + nd]
        L = np.array(a["view"]["boxmax"][:nd]) - np.array(a["view"]["boxmin"][:nd])
        per = [s["p"].get("boundary_lhs[%d]" % k) == "periodic" for k in range(nd)]
        for k in range(nd):
            if per[k]:
                d[:, k] -= L[k] * np.round(d[:, k] / L[k])
        x = np.sqrt((d ** 2).sum(1)) / A[:, 18]
        dv = np.sqrt(((B[:, 11:11 + nd] - A[:, 11:11 + nd] - dt * A[:, 14:14 + nd]) ** 2).sum(1))
        vs = np.sqrt((A[:, 11:11 + nd] ** 2).sum(1).mean()) + np.mean(A[:, 37])
        f = s["fam"]
        q = (x.max(), np.median(x), dv.max() / vs, np.median(dv) / vs)
        lim = (XMAX.get(f, 0.08), XMED, VMAX.get(f, 0.1), VMED.get(f, 0.01))
        if not all(a < b for a, b in zip(q, lim)):
            raise Violation("diverged", "%s: at the end the particles differ from the uninterrupted run by up to %.3g (median %.3g) smoothing lengths and %.3g (%.3g) sound speeds" % ((what,) + q))
        measure(s["fam"], float(x.max()), float(dv.max() / vs), float(np.median(x)), float(np.median(dv) / vs))
    if len(a["S"]):
        dt = tb - ta
        d = (b["S"][:, :nd] - a["S"][:, :nd]) - dt * a["S"][:, 3:3 + nd] - 0.5 * dt ** 2 * a["S"][:, 6:6 + nd]
        L0 = s["p"].get("abin", 1.0) / a["view"]["sr"]
        if not np.abs(d).max() < 0.01 * L0:
            raise Violation("diverged", "%s: at the end a star is %.3g of the orbit size away from the uninterrupted run" % (what, np.abs(d).max() / L0))
        measure(s["fam"] + "*", float(np.abs(d).max() / L0), 0, 0, 0)


def measure(*a):
    import os
    if os.environ.get("MEAS"):
        open(os.environ["MEAS"], "a").write(repr(a) + "\n")


def shrink(case):
    p = case["scen"]["p"]
    if case["chain"] > 1:
        c = copy.deepcopy(case)
        c["chain"] = 1
        yield c
    for k, v in (("litesnap", 0), ("nrestartstep", 100000), ("Nlevels", 1), ("out_file_form", "su"), ("dimensionless", 1)):
        if k in p and p[k] != v and not (k == "dimensionless" and case["scen"]["fam"] == "sinks"):
            c = copy.deepcopy(case)
            c["scen"]["p"][k] = v
            yield c
    if case["heap"]["heap.fill"]:
        c = copy.deepcopy(case)
        c["heap"]["heap.fill"] = 0
        yield c
    for f in (0.0, 0.5):
        if case["pick"] > f + 0.01:
            c = copy.deepcopy(case)
            c["pick"] = f
            yield c
    if p["tend"] > 1.5 * p["dt_snap"]:
        c = copy.deepcopy(case)
        c["scen"]["p"]["tend"] = p["tend"] / 2
        yield c
