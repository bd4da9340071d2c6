"""Case runner: generates seeded cases, executes them on a pool of workers, gates, minimises and reports."""
import os, sys, json, time, random, hashlib, traceback, subprocess, importlib, signal
from concurrent.futures import ProcessPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build, node, scen

EVID = os.path.join(VERIF, "evidence")
NPROC = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 8)
CPU_LIMIT = 45          # seconds of processor time one simulated process may use (typical: 0.1 .. 3)


class Violation(Exception):
    def __init__(self, key, msg):
        Exception.__init__(self, msg)
        self.key, self.msg = key, msg


class Skip(Exception):
    """the drawn set-up itself is not one the program can evolve (recognised narrowly); the case says nothing"""


class Outcome:
    def __init__(self):
        self.skipped = None
        self.viol = None        # (key, msg)
        self.h = hashlib.sha256()
        self.launches = 0
        self.faults = {}
        self.probes = {}
        self.simtime = 0.0
        self.steps = 0
        self.states = set()     # hashed distinct things reached
        self.nontrivial = False
        self.clock_s = 0.0

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *a):
        self.states.add(hashlib.sha256(repr(a).encode()).hexdigest()[:12])

    def pack(self):
        return {"viol": self.viol, "hash": self.h.hexdigest()[:24], "launches": self.launches, "faults": self.faults, "probes": self.probes,
                "simtime": self.simtime, "steps": self.steps, "states": sorted(self.states), "nontrivial": self.nontrivial, "clock": self.clock_s, "skipped": self.skipped}


class Ctx:
    def __init__(self, gnode, images):
        self.gnode, self.images = gnode, images


class Session:
    """one scratch directory in which a sequence of simulated processes runs"""
    def __init__(self, ctx, out, variant="serial"):
        self.ctx, self.out, self.variant = ctx, out, variant
        self.sc = node.Scratch()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.sc.close()

    def go(self, argv="p.dat", plan=None, faults=(), clks=(), ops=(), stalls=(), dump=None, hashed=True, cpu=CPU_LIMIT, keep=False):
        pl = {"argv": argv}
        pl.update(plan or {})
        r = node.run(self.ctx.gnode, self.ctx.images[self.variant], self.sc, pl, faults, clks, ops, stalls, dump=dump, cpu=cpu, timeout=600, keep=keep)
        o = self.out
        o.launches += 1
        for k, v in r.faults_fired().items():
            o.faults[k] = o.faults.get(k, 0) + v
        if hashed:
            o.h.update(("%d %s %s\n" % (r.rc, r.why, r.hash)).encode())
        if r.events:
            o.steps += max(0, r.events[-1].step - r.events[0].step)
            o.simtime += max(0.0, r.events[-1].t - r.events[0].t)
            o.clock_s += (r.events[-1].wall - r.events[0].wall) / 1e6
        if r.rc == 203:
            raise node.HarnessError("wall-clock timeout of a simulated process")
        return r

    def files(self):
        return self.sc.snapshot_tree()


def died(r):
    """how a process ended when that was neither a normal end nor an injected crash; None when fine"""
    if r.rc == 0 and r.why == "return":
        return None
    if r.why == "crash":
        return None
    if r.rc == 134 and r.asserts:
        return "assert " + r.asserts[0]
    if r.rc == 128 + signal.SIGXCPU or r.rc == 128 + signal.SIGKILL or r.rc in (-9, 201, 202):
        return "no end within the work budget"
    return "%s (code %d)" % (r.why, r.rc)


def die_class(r):
    d = died(r)
    if d is None:
        return None
    if d.startswith("assert"):
        return "assert"
    if d.startswith("no end"):
        return "hang"
    if d.startswith("signal"):
        return "signal"
    return "error-exit"


# the meshless scheme has no positivity-preserving limiter: its own assertions stop runs whose gas is driven below zero energy
POSITIVITY = ("part.u > ", "part.pressure > ", "part.rho > ", "part.u >", "part.Qcons")


def unphysical(r):
    if "Smoothing length too large, self-interaction will occur" in r.stdout[-400:]:
        return True                                                # the program's own limit for particles in a periodic box
    return r.rc == 134 and r.asserts and "MeshlessFV" in r.asserts[0] and any(x in r.asserts[0] for x in POSITIVITY)


def must_run(r, what="run", reference=False):
    d = died(r)
    if d is not None:
        if reference and unphysical(r):
            raise Skip(d)
        tail = " ".join(r.stdout[-160:].split())
        raise Violation("died-" + die_class(r), "%s ended by %s [%s]" % (what, d, tail))


# ---- executing one case -----------------------------------------------------------------------------------------------
_ctx = None


def execute(prop, case, ctx):
    out = Outcome()
    try:
        prop.run(case, ctx, out)
    except Violation as v:
        out.viol = (v.key, v.msg)
        out.h.update(v.key.encode())
    except Skip as v:
        out.skipped = str(v)
        out.h.update(b"skip")
    return out.pack()


def _worker(args):
    modname, case = args
    prop = importlib.import_module("props." + modname)
    t0 = time.time()
    try:
        r = execute(prop, case, _ctx)
        r["err"] = None
    except node.HarnessError as e:
        r = {"err": "harness: %s" % e}
    except Exception:
        r = {"err": traceback.format_exc()}
    r["wall"] = time.time() - t0
    return r


def _init(gnode, images):
    global _ctx
    _ctx = Ctx(gnode, images)
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def case_rng(seed, pid, i):
    h = hashlib.sha256(("%s/%s/%s" % (seed, pid, i)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid]


def is_known(pid, case, viol):
    """a listed finding covers a violation only when both its class and its identifying text match"""
    for k in known(pid):
        if k["key"] == viol[0] and k["match"] in viol[1]:
            return k
    return None


def minimise(prop, modname, case, viol, ctx, budget_s, log):
    """greedy shrink keeping the violation class"""
    t0, best, n = time.time(), case, 0
    improved = True
    while improved and time.time() - t0 < budget_s:
        improved = False
        for c in prop.shrink(best):
            if time.time() - t0 > budget_s:
                break
            n += 1
            try:
                r = execute(prop, c, ctx)
            except Exception:
                continue
            if r["viol"] and r["viol"][0] == viol[0] and not is_known(prop.ID, c, r["viol"]):
                best, viol, improved = c, r["viol"], True
                break
    log("minimised with %d attempts" % n)
    return best, viol


def replay(path):
    """exit status of a replay: 1 reproduced, 0 not reproduced"""
    f = json.load(open(path))
    prop = importlib.import_module("props." + f["module"])
    ctx = Ctx(build.gnode(), {v: build.image(v) for v in prop.VARIANTS})
    r = execute(prop, f["case"], ctx)
    print(json.dumps({"viol": r["viol"], "hash": r["hash"]}))
    if r["viol"] and r["viol"][0] == f["key"]:
        print("reproduced: %s" % r["viol"][1])
        return 1, r
    return 0, r


def check(modname, tier, seed):
    t0 = time.time()
    prop = importlib.import_module("props." + modname)
    pid = prop.ID

    def log(*a):
        print("[%s %6.1fs]" % (pid, time.time() - t0), *a, flush=True)
    ev_path = os.path.join(EVID, pid + ".json")
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    try:
        gn = build.gnode()
        images = {v: build.image(v) for v in prop.VARIANTS}
    except build.BuildError as e:
        print(str(e)[-3000:])
        return 2
    log("images ready")
    tb = time.time()
    cfg = prop.TIERS[tier]
    ncase, cap = cfg["cases"], cfg["cap_s"]
    stats = {"cases": 0, "launches": 0, "faults": {}, "probes": {}, "simtime": 0.0, "steps": 0, "nontrivial": 0, "repeat": 0, "repeat_bad": 0,
             "clock": 0.0, "skipped": 0}
    states = set()
    viols, errs, knownhits = [], [], {}
    # every listed known finding is re-run first, from its own case
    kcases = [(k, k["case"]) for k in known(pid) if k.get("case")]
    jobs = []
    for k, c in kcases:
        jobs.append(("known", k, c))
    for i in range(ncase):
        c = prop.gen(case_rng(seed, pid, i), tier, i)
        jobs.append(("case", i, c))
        if i % 20 == 7:
            jobs.append(("repeat", i, c))
    hashes = {}
    ex = ProcessPoolExecutor(NPROC, initializer=_init, initargs=(gn, images))
    pend, it, skipped = {}, iter(jobs), 0
    stop = False
    done_iter = False
    samples = []
    try:
        while True:
            while not done_iter and not stop and len(pend) < NPROC * 2:
                try:
                    j = next(it)
                except StopIteration:
                    done_iter = True
                    break
                if time.time() - tb > cap and j[0] != "known":
                    skipped += 1
                    continue
                pend[ex.submit(_worker, (modname, j[2]))] = j
            if not pend:
                break
            for f in as_completed(list(pend)):
                j = pend.pop(f)
                r = f.result()
                if r["err"]:
                    errs.append((j, r["err"]))
                    stop = True
                    break
                if j[0] == "known":
                    if r["viol"] and r["viol"][0] == j[1]["key"] and j[1]["match"] in r["viol"][1]:
                        knownhits[j[1]["id"]] = r["viol"][1]
                    elif r["viol"]:
                        viols.append((j[2], r))
                else:
                    key = j[1]
                    if key in hashes:
                        stats["repeat"] += 1
                        if hashes[key] != r["hash"]:
                            stats["repeat_bad"] += 1
                            errs.append((j, "the same case gave two different executions"))
                    hashes[key] = r["hash"]
                    if j[0] == "case":
                        stats["cases"] += 1
                        for k in ("launches", "simtime", "steps"):
                            stats[k] += r[k]
                        stats["clock"] += r["clock"]
                        stats["skipped"] += 1 if r["skipped"] else 0
                        stats["nontrivial"] += 1 if r["nontrivial"] else 0
                        for k in ("faults", "probes"):
                            for a, b in r[k].items():
                                stats[k][a] = stats[k].get(a, 0) + b
                        states.update(r["states"])
                        if len(samples) < 4:
                            samples.append({"case": j[1], "hash": r["hash"], "launches": r["launches"], "steps": r["steps"]})
                    if r["viol"]:
                        kn = is_known(pid, j[2], r["viol"])
                        if kn:
                            knownhits.setdefault(kn["id"], r["viol"][1])
                        else:
                            viols.append((j[2], r))
                            log("case", j[1], "violates:", r["viol"][0], "-", r["viol"][1][:300])
                            if len(viols) >= 3:
                                stop = True
                break
            if stop and not pend:
                break
    finally:
        ex.shutdown(wait=True, cancel_futures=True)
    wall = time.time() - tb
    rc, reported = 0, []
    for k in known(pid):
        if k["id"] in knownhits:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if errs:
        for j, e in errs[:3]:
            log("ERROR in case", j[1] if j[0] != "known" else j[1]["id"], e[-3000:])
        rc = 2
    if viols:
        ctx = Ctx(gn, images)
        viols.sort(key=lambda v: len(json.dumps(v[0])))
        seen = set()
        for case, r in viols:
            if r["viol"][0] in seen:
                continue
            seen.add(r["viol"][0])
            # gate 1: the same plan again, here
            r2 = execute(prop, case, ctx)
            if not r2["viol"] or r2["hash"] != r["hash"]:
                log("ERROR: violation did not repeat exactly", r["viol"], r2["viol"])
                rc = 2
                continue
            small, v = minimise(prop, modname, case, r["viol"], ctx, cfg.get("shrink_s", 60) if not reported else 20, log)
            path = os.path.join(EVID, "replays", "%s-%s.json" % (pid, hashlib.sha256(json.dumps(small, sort_keys=True).encode()).hexdigest()[:10]))
            json.dump({"property": pid, "module": modname, "seed": seed, "key": v[0], "message": v[1], "case": small, "original_case": case},
                      open(path, "w"), indent=1, sort_keys=True)
            # gate 2: a fresh process
            q = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), "replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if q.returncode != 1:
                log("ERROR: replay in a fresh process did not reproduce:", q.stdout.decode("utf-8", "replace")[-800:])
                rc = 2
                continue
            reported.append({"key": v[0], "message": v[1], "replay": path})
        if reported:
            rc = 1
    rate = 3600.0 / max(wall, 1e-9)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": stats["cases"], "distinct_nontrivial": len(states),
              "rule": prop.RULE,
              "samples": samples,
              "nontrivial_cases": stats["nontrivial"], "skipped_by_time_cap": skipped, "skipped_unphysical_setups": stats["skipped"],
              "simulated_runs": stats["launches"], "simulated_runs_per_hour": round(stats["launches"] * rate),
              "seeds_per_hour": round(stats["cases"] * rate),
              "simulated_time": {"wall_clock_seconds_inside_the_simulation": round(stats["clock"], 3), "code_time_units": round(stats["simtime"], 6), "integration_steps": stats["steps"]},
              "faults_injected_and_fired": stats["faults"], "probes": stats["probes"],
              "determinism": {"cases_run_twice_on_different_workers": stats["repeat"], "differences": stats["repeat_bad"]},
              "components_real": prop.REAL, "components_stubbed": prop.STUB,
              "known_findings_seen": sorted(knownhits)},
          "wall_s": round(time.time() - t0, 1), "violations": len(reported), "assumptions": prop.ASSUME}
    json.dump(ev, open(ev_path, "w"), indent=1)
    log("cases %d launches %d distinct %d faults %s probes %s repeat %d/%d" % (stats["cases"], stats["launches"], len(states), stats["faults"], stats["probes"], stats["repeat"] - stats["repeat_bad"], stats["repeat"]))
    for v in reported:
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        print("  %s: %s" % (v["key"], v["message"]))
    return rc


REAL_SERIAL = ["the whole program from main() on: parameter parsing, initial conditions, integration, trees, sinks, snapshot I/O, restart logic, timing", "libstdc++ file streams"]
STUB_SERIAL = ["system clocks (simulated)", "heap allocator (seeded arena)", "open/read/write/rename/unlink/close system calls (fault-injecting shim over a scratch tmpfs directory)",
               "libc rand()", "pow() with small integer exponents (correctly rounded fast path)"]
ASSUME_SERIAL = ["a crash is the death of the process: bytes handed to write() survive, buffered bytes do not", "seeded sampling, not exhaustive",
                 "compiled with g++ -O1 and assertions on, not the shipped -O3"]
