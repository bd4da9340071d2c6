"""Single source of properties.jsonl and MANIFEST.json:  python3 doc/registry.py  rewrites both."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "deterministic simulation with fault injection (seeded search over simulated executions)"
HOOK_COMMITS = ["b3b7c2ae00dec139a86ffdc89bb481c0e953663f", "feac68b1bf575f6c8a53a4666e531cc25f12a5a9", "56d78224765b3b4b1f4393e208372195ba1a604a"]
RUNTIME = "src/Common/Simulation.cpp"
IO = "src/Common/SimulationIO.hpp"


def A(files, mech, state=None, obs=None, hook=None):
    d = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        d["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if obs:
        d["observe_at"] = obs
    d["hook_needed"] = hook
    return d


HK = "GANDALF_SIM_HOOKS calls around setup, output and the end of each step (src/Headers/SimHooks.h)"
P = []


def prop(pid, mod, title, statement, over, text, cant, anchors, note):
    P.append({"id": pid, "mod": mod, "title": title, "statement": statement, "over": over, "text": text, "cant": cant, "anchors": anchors, "note": note})


prop("R01", "r01", "A crash at any moment leaves a restartable directory with nothing lost",
     "Whenever the program is killed, at any system call and with any amount of buffered output lost, the run directory can be restarted: the restarted program "
     "resumes from the last completely recorded state (or from the one being recorded at that moment), or starts afresh only if nothing had been recorded yet, and "
     "runs to the end. The restart record always names a complete snapshot, and no numbered snapshot recorded before the crash is ever altered or removed. "
     "This also holds for repeated crashes, including crashes during restarted runs.",
     ["crash_points", "histories", "configurations", "schedules"],
     "every system call of every process of a chain of crashed and restarted processes, torn writes, all output formats usable for restarts, all kinds of simulation",
     "Tests run to completion; none kills the program or restarts from a directory left by a killed one.",
     A([RUNTIME, IO], [("write to a temporary name, then rename", "RestartSnapshot and Output, " + RUNTIME), ("restart record written after the snapshot", "Output"),
        ("restart record read back", "SetupSimulation / RestartSetup, " + RUNTIME)],
       [("restart record", "names format and file of the last complete snapshot", "<run>.restart in the run directory"), ("temporary restart snapshot", "<run>.<form>.tmp", "run directory")],
       ["files of the run directory after the kill", "state reported right after the restart reads its snapshot"], HK),
     "Seeded sampling of crash points over real executions of the whole program; a crash is the death of the process (page cache survives, buffers do not).")

prop("R02", "r02", "A restart resumes the recorded state and follows the uninterrupted run",
     "A restarted run begins with exactly the recorded state: the same particles and stars with the same identities, types, positions, velocities, masses, smoothing lengths, "
     "densities and internal energies, the same time, step number, output counters and output times. Afterwards it reaches the same end time with the same total mass, and its "
     "particles stay close to those of the run that was never interrupted.",
     ["histories", "configurations", "crash_points", "inputs"],
     "every recorded state (numbered or temporary) of every simulation type, unit system and restartable format, at synchronised and unsynchronised block steps, chains of restarts",
     "No test restarts a run and compares it with an uninterrupted one.",
     A([IO, RUNTIME, "src/Headers/HeaderInfo.h", "src/Nbody/Sinks.cpp"], [("binary and text snapshot writers/readers", IO), ("restart branch of the set-up", "GradhSphSimulation / NbodySimulation / MeshlessFVSimulation::PostInitialConditionsSetup"),
        ("header time and counters", "ReadSerenUnformHeaderFile, " + IO)], None, ["state dump right after reading, and at the end"], HK),
     "Exact for binary files without unit conversion, 1e-13 (binary) or 1e-10 (text) otherwise; later evolution is compared within bounds calibrated per set-up, since a restart re-chooses time steps.")

prop("R03", "r03", "Snapshots come on schedule, gap-free, holding the state of their moment",
     "A numbered snapshot is written after each step at or beyond the next output time (one per step, the next output time moving by the output interval), numbered 1, 2, 3 ... without gap "
     "or repetition, and likewise for lite snapshots on their own schedule and restart snapshots on theirs. Each file holds the complete state of the moment it was made: every live particle and star, "
     "time, step number and counters. Stops, crashes and restarts in between do not change this, and a run ends at the first step at or beyond its end time or step limit.",
     ["histories", "configurations", "crash_points", "schedules"],
     "output intervals from much shorter to much longer than a step, all formats, block time steps, accreting runs, runs stopped, crashed, restarted or driven in slices",
     "Tests look at a few final snapshots of fixed runs; schedules, restarts and contents against the in-memory state are never examined.",
     A([RUNTIME, IO], [("output schedule", "Output, " + RUNTIME), ("snapshot writers", IO), ("schedule restored on restart", "RestartSetup")],
       [("snapshot counter", "number of the last snapshot", "SimulationBase::Noutsnap"), ("next output time", "time from which the next snapshot is due", "SimulationBase::tsnapnext")],
       ["files opened and bytes written between two events", "state dump at the event"], HK),
     "Reference model of the schedule run in lockstep with every launch; contents compared with the in-memory state at the format's precision. Text column files of runs with dead particles are excluded (known limitation, DESIGN.md).")

prop("R04", "r04", "Failing writes never destroy what was recorded nor steer the run",
     "When opening, writing, closing or renaming output files fails (disk full, I/O error, too many files), the evolution is unaffected or the program stops with an error, and the run directory stays "
     "restartable from the last state recorded without failure (or a later one) with a restart record that names a complete snapshot. Snapshots written while no failure occurs are complete and correct. "
     "Short and interrupted writes have no effect on any output.",
     ["fault_sequences", "crash_points", "configurations"],
     "seeded sequences of open, write, close and rename failures, disk-full from any byte on, with or without a crash, on every output file",
     "Tests never make an output operation fail.",
     A([RUNTIME, IO], [("stream state checked before a snapshot is recorded", "Output and RestartSnapshot, " + RUNTIME), ("atomic replacement", "RestartSnapshot")], None, ["run directory after the faulted run", "state the next restart resumes from"], HK),
     "Faults are injected at the system-call seam below the real libstdc++ streams; reads are covered by R05.")

FIXED = json.load(open(os.path.join(V, "known_findings.json")))
NA = []


def na(pid, title, statement, text, cant, anchors, reason):
    P.append({"id": pid, "mod": None, "title": title, "statement": statement, "over": ["inputs", "configurations"], "text": text, "cant": cant, "anchors": anchors})
    NA.append({"property": pid, "reason": reason})


exec(open(os.path.join(V, "doc", "registry_more.py")).read()) if os.path.exists(os.path.join(V, "doc", "registry_more.py")) else None


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["cant"], "anchors": p["anchors"]}) + "\n")
    man = {"version": 1, "setup_cmd": "python3 sim/build.py " + " ".join(sorted(set(["serial"] + VARS))),
           "hooks": {"guard": "GANDALF_SIM_HOOKS", "enable": "sim/build.py compiles every unit of /repo's working tree with -DGANDALF_SIM_HOOKS into /verif/build (the repository's own build never defines it)",
                     "source_commits": HOOK_COMMITS},
           "checks": [], "not_applicable": NA,
           "notes": "One simulator for all checks; see DESIGN.md. replay files: python3 check.py replay FILE."}
    for p in P:
        if p["mod"]:
            man["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["mod"], "thorough_cmd": "python3 check.py %s thorough" % p["mod"],
                                  "evidence_file": "evidence/%s.json" % p["id"], "technique": SIM, "level": "exploration", "level_note": p["note"]})
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


VARS = globals().get("VARS", [])
if __name__ == "__main__":
    main()
