"""What the properties about jobs of several processes share: plans, scenario choice, reading the events per process."""
import re
import core, scen
from core import Violation, must_run

REAL = core.REAL_SERIAL + ["domain decomposition, load balancing, pruned trees, ghost and particle exchange, collective snapshot writing as compiled with MPI_PARALLEL"]
STUB = core.STUB_SERIAL + ["the MPI library: ranks are fibers with images of their own, messages travel through a seeded network, files through the simulated disk"]
ASSUME = core.ASSUME_SERIAL + ["a rank that dies takes the whole job down with it (the default of the launchers)",
                               "messages are neither lost, duplicated nor reordered between one pair of ranks (the MPI standard guarantees this); all else about their timing is drawn"]
FAMS = ["box", "soundwave", "sod", "sedov", "khi", "freefall", "hybrid", "sinks", "gresho", "evrard", "noh", "disc", "dustbox", "dustwave", "accrete", "dustmix", "mfvdust"]
SUM = re.compile(r"^mpi ranks=(\d+) msgs=(\d+) bytes=(\d+) rendezvous=(\d+) collectives=(\d+) unexpected=(\d+) waitsome=(\d+) partial=(\d+) stalls=(\d+)")
W = re.compile(r" (wall|mut)=\S+")


def draw(r, fams=FAMS, tscale=0.2, **over):
    """a scenario a parallel job can run: no ASCII snapshots, trees rebuilt every step"""
    s = scen.draw(r, fams, tscale=tscale, **over)
    p = s["p"]
    p["ntreebuildstep"] = p["ntreestockstep"] = 1
    if p.get("out_file_form") == "sf":
        p["out_file_form"] = "su"
    if p["ndim"] == 3:
        p["tend"] *= 0.5
    p["pruning_level_max"] = r.choice([2, 3, 4]) if p["ndim"] > 1 else r.choice([3, 6])
    p["pruning_level_min"] = r.choice([1, 2])
    return s


def timing(r, ranks):
    """one way the machine may behave: who runs when, how long messages take, what the library buffers"""
    p = {"sched.seed": r.randrange(10 ** 6), "sched.mode": r.choice(["random", "random", "prio", "lifo", "fifo"]), "sched.keep": r.choice([0.1, 0.5, 0.9]),
         "sched.changes": r.choice([3, 20, 100]), "sched.span": r.choice([300, 3000, 20000]), "mpi.seed": r.randrange(10 ** 6),
         "mpi.eager": r.choice([0, 0, 100, 4096, 65536, 1 << 30]), "mpi.strict": r.choice([0, 0, 1]), "mpi.slow": r.choice([0, 0, 5, 50])}
    stalls = [[r.randrange(ranks), r.choice([r.randrange(1, 40), r.randrange(1, 400), r.randrange(1, 4000)]), r.choice([50, 1000, 20000])] for _ in range(r.choice([0, 0, 1, 3]))]
    return {"plan": p, "stalls": stalls}


def plan(ranks, t=None, **over):
    d = {"ranks": ranks, "mpi": 1}
    d.update(t["plan"] if t else {})
    d.update(over)
    return d


def mpi_must_run(r, what, reference=False):
    """a normal end, or an injected crash; anything else is a violation that names what happened"""
    if r.rc == 204:
        raise Violation("deadlock", "%s stopped for ever: %s" % (what, "; ".join(l[6:] for l in r.misc if l.startswith("stuck"))[:400]))
    if r.rc == 206:
        m = [l for l in r.misc if l.startswith("mpi-error")]
        raise Violation("mpi-" + m[0].split()[1].rstrip(":"), "%s: %s" % (what, m[0][10:]))
    must_run(r, what, reference)


def stats(r, out):
    """adds the counters of the message layer; returns them"""
    for l in r.misc:
        m = SUM.match(l)
        if m:
            v = [int(x) for x in m.groups()]
            out.probe("messages", v[1])
            out.probe("messages sent synchronously", v[3])
            out.probe("collective calls", v[4])
            out.probe("messages that came before they were asked for", v[5])
            out.probe("waits that returned part of the requests", v[7])
            out.probe("stalls of a rank", v[8])
            return v
    return None


def schedule(r):
    for l in r.misc:
        m = re.search(r"^sched .*hash=(\w+)", l)
        if m:
            return m.group(1)
    return None


def by_rank(r):
    d = {}
    for e in r.events:
        d.setdefault(e.rank, []).append(e)
    return d


def lines(r):
    """events per rank without what depends on the interleaving between ranks"""
    return {k: [W.sub("", e.line.split(" ", 2)[2]) for e in v] for k, v in by_rank(r).items()}


def moments(dumps, ranks):
    """the k-th event of every rank belongs together: [[dump of rank 0, dump of rank 1, ...], ...]"""
    by = [[d for d in dumps if "ev" in d and d["view"]["rank"] == k and d["view"]["event"] != 1] for k in range(ranks)]
    n = {len(x) for x in by}
    if len(n) > 1:
        raise Violation("apart", "the ranks did not pass the same points: %s events" % [len(x) for x in by])
    out = []
    for m in zip(*by):
        w = {(d["view"]["event"], d["view"]["Nsteps"], d["view"]["t"]) for d in m}
        if len(w) > 1:
            raise Violation("apart", "the ranks are at different points: %s" % sorted(w))
        out.append(list(m))
    return out


def merged(m):
    """the simulation as a whole at one moment: all particles, and the stars of rank 0"""
    import numpy as np
    return {"view": m[0]["view"], "H": np.concatenate([d["H"] for d in m]), "S": m[0]["S"]}
