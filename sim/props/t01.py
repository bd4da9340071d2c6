"""T01: individual time steps tile the simulated time, are nested powers of two and respect their criteria; every trajectory is the integrator applied to the recorded forces."""
import copy
import numpy as np
import core, scen, node
from core import Violation, Session, must_run

ID = "T01"
VARIANTS = ["serial"]
TIERS = {"quick": {"cases": 2000, "cap_s": 48, "shrink_s": 60}, "thorough": {"cases": 200000, "cap_s": 780, "shrink_s": 90}}
RULE = "distinct (scenario family, integrator, number of levels, allowed level difference, deepest level occupied, span of levels, steps cut short, blocks) combinations"
REAL, STUB, ASSUME = core.REAL_SERIAL, core.STUB_SERIAL, core.ASSUME_SERIAL + ["steps are observed after every integration step through a read-only view of the particle data"]
FAMS = [f for f in scen.FAMILIES if f not in ("ewald", "subsys", "binary")] + ["sedov"] * 6 + ["evrard", "noh", "plummer", "hybrid", "accrete", "sinks", "freefall", "khi", "box", "gresho"]


def gen(r, tier, i):
    s = scen.draw(r, FAMS, tscale=r.choice([0.3, 0.6, 1.0, 2.0]), nrestartstep=100000)
    p = s["p"]
    if p.get("sph_integration") != "lfdkd" and s["fam"] != "disc" and r.random() < 0.8:
        p["Nlevels"] = r.choice([2, 3, 4, 6, 8, 10])
        p["level_diff_max"] = r.choice([1, 1, 2, 3, 5])
        if "mfv" not in p["sim"] and p["sim"] != "nbody" and r.random() < 0.15:
            p["sph_single_timestep"] = 1
    if p.get("dust_forces") == "full_twofluid":
        p["Nlevels"] = 1
    if p["ndim"] == 3 and s["fam"] in ("box", "dustbox") or s["fam"] == "dustmix":
        p["tend"] *= 0.3
    if r.random() < 0.3 and p["sim"] != "nbody":
        p["courant_mult"], p["accel_mult"] = r.choice([(0.05, 0.3), (0.3, 0.1), (0.1, 0.1)])
    if s["fam"] == "accrete" and r.random() < 0.6:                  # a hot spot: levels spread and change quickly
        s["ic"]["cs2"] = 0.3
    return {"scen": s}


def scheme(p):
    if p["sim"] == "nbody":
        return None
    return "mfv" if "mfv" in p["sim"] else p.get("sph_integration", "lfkdk")


class Track:
    """one family of bodies: the state at the start of each one's current step"""
    def __init__(self, what, tol):
        self.what, self.tol, self.k, self.cut, self.nsteps = what, tol, None, 0, 0

    def fail(self, key, e, ids, i, msg):
        raise Violation(key, "step %d (t=%.9g): %s %d %s" % (e["view"]["Nsteps"], e["view"]["t"], self.what, int(ids[i]), msg))


def periodic(v, p, d):
    d = d.copy()
    for k in range(v["ndim"]):
        if str(p.get("boundary_lhs[%d]" % k)) == "periodic":
            L = v["boxmax"][k] - v["boxmin"][k]
            d[:, k] -= L * np.round(d[:, k] / L)
    return d


def check_block(e, name, ids, level, nstep, nlast, tlast, out):
    v = e["view"]
    n, t = v["n"], v["t"]
    bad = np.nonzero(nlast > n)[0]
    if len(bad):
        raise Violation("block", "step %d: %s %d starts its step in the future" % (v["Nsteps"], name, ids[bad[0]]))
    if v["Nlevels"] > 1:
        bad = np.nonzero((level < 0) | (level > v["level_max"]))[0]
        if len(bad):
            raise Violation("block", "step %d: %s %d is on level %d of 0..%d" % (v["Nsteps"], name, ids[bad[0]], level[bad[0]], v["level_max"]))
        # a body that starts its step now does so on a multiple of the step it has chosen, which is a power of two
        new = nlast == n
        bad = np.nonzero(new & ((nstep != 2 ** np.maximum(v["level_step"] - level, 0)) | (n % np.maximum(nstep, 1) != 0)))[0]
        if len(bad):
            i = bad[0]
            raise Violation("nesting", "step %d: %s %d on level %d starts a step of %d units at unit %d of %d" % (v["Nsteps"], name, ids[i], level[i], nstep[i], n, v["nresync"]))
        bad = np.nonzero(nlast + nstep > v["nresync"])[0]
        if len(bad):
            i = bad[0]
            raise Violation("nesting", "step %d: %s %d steps past the end of the block" % (v["Nsteps"], name, ids[i]))
        if abs(v["timestep"] * v["nresync"] - v["dt_max"]) > 1e-12 * v["dt_max"]:
            raise Violation("block", "step %d: %d units of %.17g do not make the block of %.17g" % (v["Nsteps"], v["nresync"], v["timestep"], v["dt_max"]))
        if n == v["nresync"]:
            bad = np.nonzero(tlast != t)[0]
            if len(bad):
                raise Violation("tiling", "step %d: %s %d has not finished its step at the end of the block" % (v["Nsteps"], name, ids[bad[0]]))
    bad = np.nonzero((tlast > t) | ((nlast == n) != (tlast == t)))[0]
    if len(bad):
        i = bad[0]
        raise Violation("tiling", "step %d: %s %d says its step began at %.17g, unit %d; now is %.17g, unit %d" % (v["Nsteps"], name, ids[i], tlast[i], nlast[i], t, n))


def run(case, ctx, out):
    s = case["scen"]
    p = s["p"]
    with Session(ctx, out) as S:
        scen.setup(S.sc, s)
        a = S.go(dump="c3 c4", keep=False)
        must_run(a, "the run", reference=True)
        D = node.read_dump(a.dump)
    sch = scheme(p)
    G, St = Track("particle", 1e-9), Track("star", 1e-9)
    hyd, star, prev = None, None, None
    deepest, span, blocks = 0, 0, 0
    mult = {"c": float(p.get("courant_mult", 0.15)), "a": float(p.get("accel_mult", 0.3))}
    for e in D:
        v = e["view"]
        t, H = v["t"], e["H"]
        nd = v["ndim"]
        R, V, AC = slice(8, 8 + nd), slice(11, 11 + nd), slice(14, 14 + nd)
        if prev is not None:
            if v["Nsteps"] != prev["Nsteps"] + 1 or abs(t - (prev["t"] + prev["timestep"])) > 1e-14 * abs(t):
                raise Violation("time", "step %d advanced the time from %.17g to %.17g with a step of %.17g" % (v["Nsteps"], prev["t"], t, prev["timestep"]))
            blocks += v["n"] == v["nresync"]
        prev = v
        H = H[H[:, 31] == 0]
        if len(H):
            H = H[np.argsort(H[:, 0], kind="stable")]
            ids = H[:, 0].astype(int)
            if v["Nlevels"] > 1 or v["event"] == 4:
                check_block(e, "particle", ids, H[:, 7].astype(int), H[:, 5].astype(int), H[:, 6].astype(int), H[:, 23], out)
            if v["Nlevels"] > 1:
                deepest, span = max(deepest, int(H[:, 7].max())), max(span, int(H[:, 7].max() - H[:, 7].min()))
        new = {"ids": ids, "H": H.copy()} if len(H) else None
        if hyd is not None and new is not None:
            at = {x: i for i, x in enumerate(hyd["ids"])}
            idx = np.array([at.get(x, -1) for x in ids])
            if (idx < 0).any():
                raise Violation("tiling", "step %d: particle %d was not there before" % (v["Nsteps"], ids[np.nonzero(idx < 0)[0][0]]))
            B = hyd["H"][idx]                                   # start of the step that was running
            t0, plan = hyd["t0"][idx], hyd["plan"][idx]
            ended = H[:, 23] == t
            bad = np.nonzero(~ended & (H[:, 23] != B[:, 23]))[0]
            if len(bad):
                G.fail("tiling", e, ids, bad[0], "says its step began at %.17g but it began at %.17g" % (H[bad[0], 23], B[bad[0], 23]))
            dt = (t - t0)
            bad = np.nonzero(dt > plan * (1 + 1e-9) + 1e-14 * abs(t))[0]
            if len(bad):
                G.fail("length", e, ids, bad[0], "is %.12g into a step of %.12g" % (dt[bad[0]], plan[bad[0]]))
            early = ended & (dt < plan * (1 - 1e-9) - 1e-14 * abs(t))
            G.cut += int(early.sum())
            G.nsteps += int(ended.sum())
            if early.any() and v["Nlevels"] == 1:
                G.fail("length", e, ids, np.nonzero(early)[0][0], "ended its step early")
            if sch != "mfv" and v["Nsteps"] > 0:
                d = dt[:, None]
                vs = np.abs(B[:, V]).max() + np.abs(B[:, AC] * d).max() + 1e-300
                xs = np.ptp(H[:, R], axis=0).max() + 1e-300
                if sch == "lfkdk":
                    x = B[:, R] + B[:, V] * d + 0.5 * B[:, AC] * d * d
                    want = np.where(ended[:, None], B[:, V] + 0.5 * (B[:, AC] + H[:, AC]) * d, B[:, V] + B[:, AC] * d)
                else:
                    want = B[:, V] + np.where(ended[:, None], H[:, AC], B[:, AC]) * d
                    x = B[:, R] + np.where(ended[:, None], 0.5 * (B[:, V] + want), B[:, V]) * d
                x = periodic(v, p, H[:, R] - x)
                if not mirror(p):
                    err = np.abs(x).max(axis=1)
                    i = int(np.argmax(err))
                    if not err[i] <= 1e-11 * xs + 1e-9 * np.abs(B[i, AC] * d[i] ** 2).max():
                        G.fail("trajectory", e, ids, i, "is %.3g away from where its velocity and acceleration take it in %.6g (%s)" % (err[i], dt[i], "end of step" if ended[i] else "inside a step"))
                    err = np.abs(H[:, V] - want).max(axis=1)
                    am = np.maximum(np.abs(B[:, AC]), np.abs(H[:, AC])).max(axis=1) * dt
                    rel = err - 1e-11 * vs - 1e-7 * am
                    i = int(np.argmax(rel))
                    if not rel[i] <= 0:
                        G.fail("trajectory", e, ids, i, "has a velocity off by %.3g, %.3g of the change its accelerations make in %.6g of its planned %.6g (%s%s)" % (err[i], err[i] / (am[i] + 1e-300), dt[i], plan[i], "end of step" if ended[i] else "inside a step", ", cut short" if early[i] else ""))
        if new is not None:
            if hyd is None:
                hyd = {"ids": ids, "H": H.copy(), "t0": H[:, 23].copy() if v["event"] == 4 else np.full(len(H), t), "plan": H[:, 5] * v["timestep"]}
            else:
                ended = H[:, 23] == t
                B[ended] = H[ended]
                t0[ended] = t
                plan[ended] = H[ended, 5] * v["timestep"]
                hyd = {"ids": ids, "H": B, "t0": t0, "plan": plan}
                if sch != "mfv" and sch is not None and "dust_forces" not in p and ended.any():
                    Q, pl = H[ended], plan[ended]
                    am = np.sqrt((Q[:, AC] ** 2).sum(axis=1))
                    lim = mult["a"] * np.sqrt(Q[:, 18] / (am + 1e-300))
                    if p.get("hydro_forces", 1) == 1:
                        lim = np.minimum(lim, mult["c"] * Q[:, 18] / (Q[:, 37] + 1e-300))
                    bad = np.nonzero(pl > lim * (1 + 1e-9))[0]
                    if len(bad):
                        i = bad[0]
                        G.fail("criterion", e, ids[ended], i, "starts a step of %.9g where its own criteria allow %.9g" % (pl[i], lim[i]))
        # stars
        Sx = e["S"]
        if len(Sx) and v["event"] == 4:
            n0 = len(Sx)
            if v["Nlevels"] > 1 and p.get("sub_systems", 0) == 0:
                check_block(e, "star", np.arange(n0), Sx[:, 14].astype(int), Sx[:, 12].astype(int), Sx[:, 13].astype(int), Sx[:, 15], out)
            SR, SV, SA = slice(0, nd), slice(3, 3 + nd), slice(6, 6 + nd)
            ended = Sx[:, 15] == t
            if star is not None:
                m = min(n0, len(star["S"]))
                B, d = star["S"][:m], (t - star["t0"][:m])[:, None]
                same = (Sx[:m, 9] == B[:, 9]) & star["ok"][:m]
                if p.get("nbody", "lfkdk") == "lfkdk" and not p.get("sub_systems"):
                    vs = np.abs(Sx[:, SV]).max() + 1e-300
                    x = np.abs(Sx[:m, SR] - (B[:, SR] + B[:, SV] * d + 0.5 * B[:, SA] * d * d)).max(axis=1)
                    x[~same] = 0
                    i = int(np.argmax(x))
                    if x[i] > 1e-10 * (np.abs(Sx[:, SR]).max() + vs * d.max()):
                        St.fail("trajectory", e, np.arange(n0), i, "is %.3g away from where its velocity and acceleration take it" % x[i])
                    want = B[:, SV] + 0.5 * (B[:, SA] + Sx[:m, SA]) * d
                    w = np.abs(Sx[:m, SV] - want).max(axis=1)
                    w[~(same & ended[:m])] = 0
                    i = int(np.argmax(w))
                    if w[i] > 1e-10 * vs + 1e-7 * np.abs(B[i, SA] * d[i]).max():
                        St.fail("trajectory", e, np.arange(n0), i, "has a velocity off by %.3g of %.3g" % (w[i], np.abs(B[i, SA] * d[i]).max()))
                S0, t0s, ok = Sx.copy(), np.full(n0, t), np.ones(n0, bool)
                keep = ~ended[:m]
                S0[:m][keep], t0s[:m][keep] = B[keep], star["t0"][:m][keep]
                ok[:m][keep] = star["ok"][:m][keep] & same[keep]
                ok[m:] = ended[m:]
                star = {"S": S0, "t0": t0s, "ok": ok}
            else:
                star = {"S": Sx.copy(), "t0": Sx[:, 15].copy(), "ok": ended}
            St.nsteps += int(ended.sum())
    out.nontrivial = len(D) > 3 and (span > 0 or p.get("Nlevels", 1) == 1)
    out.probe("particle steps followed", G.nsteps)
    out.probe("steps cut short", G.cut)
    out.probe("star steps followed", St.nsteps)
    out.probe("runs with several levels occupied", span > 0)
    out.state(s["fam"], sch, p.get("Nlevels"), p.get("level_diff_max"), deepest, span, G.cut > 0, min(blocks, 5))


def mirror(p):
    return any(str(p.get("boundary_%s[%d]" % (x, k))) == "mirror" for x in ("lhs", "rhs") for k in range(3))


def shrink(case):
    p = case["scen"]["p"]
    if p["tend"] > 1e-4:
        c = copy.deepcopy(case)
        c["scen"]["p"]["tend"] /= 2
        yield c
    for k, v in (("Nlevels", 1), ("Nlevels", 2), ("Nlevels", 3), ("dt_snap", 1e9), ("neib_search", "kdtree"), ("sph_single_timestep", 0), ("h_fac", 1.2), ("acond", "none"), ("time_dependent_avisc", "none")):
        if k in p and p[k] != v and (k != "Nlevels" or p[k] > v):
            c = copy.deepcopy(case)
            c["scen"]["p"][k] = v
            yield c
