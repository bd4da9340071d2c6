
prop("R05", "r05", "Input that cannot be read completely is refused, never half used",
     "When the snapshot a run starts or restarts from, the restart record or the parameter file is truncated, missing or fails to be read, the program stops with an error before it evolves or writes "
     "anything, and never continues from partly read, made-up or different data. Short or interrupted reads of intact files have no effect on the run at all.",
     ["fault_sequences", "inputs", "configurations"],
     "every kind of initial-condition and restart file and format, cut at any byte, unreadable from any read on, missing, empty, or read in short or interrupted pieces",
     "Tests only ever read complete files from a healthy disk.",
     A([IO, RUNTIME, "src/Common/Parameters.cpp"], [("stream state checked after reading", "ReadSnapshotFile and the readers in " + IO), ("parameter file reader", "Parameters::ReadParamsFile"), ("restart record reader", "SetupSimulation, " + RUNTIME)],
       None, ["exit status and message", "events and files after the faulted start"], HK),
     "Faults are injected at the system-call seam below the real libstdc++ streams or by damaging the file between two launches; a cut that leaves a complete file (trailing blanks) may be accepted if the run is then identical.")

prop("R06", "r06", "The wall-clock limit stops a run in time with its state recorded",
     "A run given a wall-clock limit stops by itself at the first step after 95 per cent of the limit has passed, with its current state recorded for restarting and without error; a run that has not used "
     "the limit is never stopped by it. A chain of restarts of a limited run makes progress with every launch that completes a step and reaches the end time, and the marker file that asks for another launch exists exactly while the run is unfinished.",
     ["schedules", "histories", "fault_sequences"],
     "step durations from nothing to several limits, clock jumps forwards and backwards at any moment, crashes inside the chain, all simulation types",
     "Tests run within seconds with the default limit; the limit, the marker and chained launches are never exercised.",
     A([RUNTIME, "src/Headers/CodeTiming.h"], [("limit test", "Run and Output, " + RUNTIME), ("final restart snapshot and marker file", "Run, " + RUNTIME), ("running time", "CodeTiming::RunningTime")],
       [("kill flag", "the run is to stop at the end of the step", "SimulationBase::kill_simulation")], ["simulated wall clock at every event", "run directory after every launch"], HK),
     "The wall and CPU clocks are simulated; whether a run is finished is judged by the schedule model of R03.")

prop("D01", "d01", "The result is a function of the inputs alone",
     "Two runs of the same program with the same parameter and input files evolve through exactly the same states and write exactly the same files (apart from the timing statistics), whatever the contents and "
     "layout of the memory they are given, whatever the clocks show or jump to, and whatever files an earlier run of the same name has left in the directory.",
     ["histories", "configurations", "schedules", "inputs"],
     "every simulation type, neighbour search, format and integrator; memory filled with zeros, ones or random bytes and laid out at random; clocks starting anywhere, running at any rate and jumping; complete or partial leftovers of other runs",
     "A test run sees one memory layout, one clock and a clean directory; a read of uninitialised or stale memory usually returns zeros there.",
     A([RUNTIME, "src/Headers/Hydrodynamics.h", "src/Tree/OctTree.cpp", "src/Ghosts", "src/Nbody"], [("set-up of simulation objects", "constructors and PostInitialConditionsSetup of every simulation"), ("tree and ghost memory growth", "AllocateTreeMemory, AllocateMemory"),
        ("output files opened for writing or appending", IO + ", OutputDiagnostics")], None, ["hash of the complete particle and star state at every event", "all files of the run directory"], HK),
     "Compared bit by bit: same image, same thread. The allocator, the stack and the clocks are behind the seam; results of different builds are not compared.")

prop("D02", "d02", "Driving a run in slices is the same as letting it run",
     "A simulation advanced through the interactive interface, in any sequence of calls of any length, passes through the same states and leaves the same files as one run to its end, and every call makes the number of steps it was asked for unless the end or its time limit comes first. "
     "Each call hands back exactly the snapshots that it wrote, with the contents of their files, in order.",
     ["histories", "programs", "schedules", "configurations"],
     "any sequence of bounded and unbounded calls of both interfaces, calls ended by the processor clock, clocks that jump, all simulation types and snapshot formats",
     "Tests run each simulation in one piece; a state that survives a call wrongly shows only for particular cuts of the run.",
     A([RUNTIME, "src/Common/SphSnapshot.cpp", "src/Headers/SphSnapshot.h"], [("bounded and interactive run loops", "Run, InteractiveRun, " + RUNTIME), ("output shared by both", "Output, " + RUNTIME), ("snapshot copies", "CopyDataFromSimulation, src/Common/SphSnapshot.cpp")],
       None, ["state hash at every event", "files", "objects returned by each call"], HK),
     "Additional rows of the diagnostics file at the end of a call are allowed, as the code documents them. Snapshot copies are single precision in places; they are compared within the precision of the file.")

prop("P01", "p01", "The result does not depend on the number of threads or their timing",
     "A run evolves through the same states and writes the same files whatever number of threads it is given and however those threads are interleaved, and it always ends. "
     "Where contributions from different threads are summed, the states may differ in rounding only, and not at all between two schedules that sum in the same order.",
     ["schedules", "configurations", "inputs"],
     "1 to 8 threads, random, priority-based and unfair schedules with preemption at every synchronisation and at memory accesses that nothing orders, all simulation types",
     "Tests run on an idle machine, where one interleaving out of astronomically many is seen and a lost update is rare.",
     A(["src/Tree", "src/Nbody/Sinks.cpp", RUNTIME, "src/GradhSph", "src/MeshlessFV"], [("parallel loops over cells, particles and sinks", "#pragma omp in src/Tree/GradhSphTree.cpp, SphTree.cpp, MeshlessFVTree.cpp, src/Nbody/Sinks.cpp, " + RUNTIME),
        ("minimum time step and maximum level over threads", "ComputeGlobalTimestep, ComputeBlockTimesteps"), ("parallel tree build", "KDTree::DivideTreeCell, OctTree")], None, ["state hash at every event", "all files of the run directory"], HK),
     "The OpenMP run-time is replaced; threads are fibers. Weak memory is not modelled. Preemption inside code happens at accesses found racy by a happens-before analysis of the first schedule.")

VARS = ["omp"]

prop("T01", "t01", "Every particle is advanced through all of time, once, by steps within its limits",
     "With global and with block time steps, every gas particle and star is advanced from the start to the present by steps that follow one another without gap or overlap, nest within the block and all end together when the block ends; "
     "a step is never longer than planned, and never planned longer than the particle's own stability limits allow. The motion over each step, also over one that was cut short, is the one the integration scheme defines for the time that really passed.",
     ["histories", "configurations", "inputs"],
     "every integration scheme, 1 to 10 time-step levels, any resynchronisation interval and level difference, runs in which particles move up and down levels, are woken by neighbours, accreted, or restarted",
     "Tests look at a final state, which a rare step of the wrong length changes within their tolerances.",
     A([RUNTIME, "src/Hydrodynamics/SphLeapfrogKDK.cpp", "src/Hydrodynamics/SphLeapfrogDKD.cpp", "src/Nbody"], [("levels and step lengths", "ComputeGlobalTimestep, ComputeBlockTimesteps, " + RUNTIME),
        ("steps cut short by neighbours", "CheckTimesteps"), ("kick and drift", "AdvanceParticles, CorrectionTerms, EndTimestep")],
       [("integer time", "base steps since the block started", "SimulationBase::n"), ("step counters", "start and length of a particle's step in base steps", "Particle::nlast, Particle::nstep")], ["complete particle and star state after every step"], HK),
     "The recorded history of a run is replayed through a model of the integer clock and through the definition of the scheme. Motion is checked for the smoothed-particle leapfrogs and for stars; limits for gas without dust.")

VARS = ["omp", "mpi"]
MPI = "src/Mpi/MpiControl.cpp"

prop("M01", "m01", "A parallel job never gets stuck and uses message passing correctly",
     "A job of several processes runs to its end, with all processes ending at the same step and time, whatever the relative speed of the processes, the delay of messages and the amount the message layer buffers. "
     "It never relies on buffering, never receives more than it has room for, never changes a buffer that is still being sent, and its processes always take part in the same collective operations in the same order; the same holds for jobs restarted on another number of processes.",
     ["schedules", "configurations", "histories"],
     "2, 4 and 8 processes, every kind of simulation that runs in parallel, random, priority, first-in and last-in schedules, stalled processes, slow networks, no buffering to unlimited buffering, skewed clocks",
     "No test of the repository starts more than one process.",
     A([MPI, "src/Mpi", "src/Tree/HydroTree.cpp", IO], [("exchange of particles and ghosts", MPI), ("pruned trees, exported particles", "src/Tree/HydroTree.cpp, src/Mpi/MpiKDTreeDecomposition.cpp"), ("load balancing", "LoadBalancing, src/Mpi/MpiKDTreeDecomposition.cpp"), ("collective writing", IO)],
       None, ["every call into the message layer", "end of every process"], HK),
     "The MPI library is replaced by a simulated one that checks the rules of the standard; powers of two processes, trees rebuilt every step, binary and column files.")

prop("M03", "m03", "Processes share particles without loss and agree on what they share",
     "At every moment of a parallel job each particle is owned by exactly one process, and after each decomposition by the one whose domain contains it; domains do not overlap. Particles are never lost, doubled or invented by moving between processes, restarting on another number of them, or accretion, "
     "and all processes hold identical clocks, time-step levels, output schedules, stars and sinks.",
     ["schedules", "configurations", "histories", "inputs"],
     "2, 4 and 8 processes, particles crossing domains, load balancing, star formation and accretion across domain borders and box borders, restarts on other numbers of processes",
     "No test of the repository starts more than one process.",
     A([MPI, "src/Mpi", "src/Nbody/Sinks.cpp", "src/Common/Simulation.cpp"], [("transfer of particles to their domain", "LoadBalancing, UpdateMpiGhostParents, " + MPI), ("owner of a sink", "FindSinkOwners, UpdateSinksAfterAccretion, " + MPI), ("new sink chosen over all processes", "SearchForNewSinkParticles, src/Nbody/Sinks.cpp"), ("global time step", "ComputeGlobalTimestep, ComputeBlockTimesteps, " + RUNTIME)],
       [("domain of a process", "box owned by it", "MpiNode::domain"), ("owned particles", "first part of the particle array", "Hydrodynamics::Nhydro")], ["state of every process at every event"], HK),
     "State dumps of all processes at the same event are joined and compared; same message layer and limits as M01.")

prop("C02", "c02", "Sinks conserve what they take and take only what is inside them",
     "Whenever stars form or sinks swallow gas, total mass, linear momentum, centre of mass and angular momentum including the spin of the sinks stay the same to rounding. Gas is only taken from within the radius of a sink, no particle gains mass, comes back or moves by it, and stars that swallow nothing are unchanged; "
     "gas inside a sink that accretes at once is gone afterwards. This holds next to periodic and reflecting borders and across processes.",
     ["histories", "configurations", "schedules", "inputs"],
     "forming and given sinks, one or many, overlapping, large and small, in open, periodic and mirrored boxes, at once or smoothly accreting, block time steps, restarts, 1 to 4 processes",
     "Tests with sinks look at a final density profile; errors of single accretion events or at borders are invisible there.",
     A(["src/Nbody/Sinks.cpp", MPI, "src/Hydrodynamics/SphSimulation.cpp", "src/MeshlessFV/MfvMusclSimulation.cpp", "src/Tree"], [("formation of a sink", "SearchForNewSinkParticles, CreateNewSinkParticle, src/Nbody/Sinks.cpp"), ("accretion", "AccreteMassToSinks, src/Nbody/Sinks.cpp"), ("mass taken from particles of other processes", "UpdateSinksAfterAccretion, " + MPI)],
       [("sink", "radius, spin, gas inside", "SinkParticle"), ("mass of a particle", "reduced or zeroed by accretion", "Particle::m")], ["complete state right before and right after sinks are handled in each step"], HK),
     "Centre of mass and angular momentum are not compared in periodic boxes, where images are swallowed at other places; tolerance 1e-11 of the scale of each sum.")

prop("M04", "m04", "A parallel job computes and records what a single process would",
     "A job of several processes starts from the same state as a single process given the same input: every particle has the same density, size, acceleration, potential and heating rate, up to rounding for the gas and up to the accuracy of the tree for gravity, "
     "and it keeps agreeing up to the growth of such differences. Every snapshot of the job holds each particle of all processes exactly once with its state at that moment.",
     ["schedules", "configurations", "inputs"],
     "2, 4 and 8 processes, every kind of simulation that runs in parallel, both trees and direct summation, open, periodic and mirrored boxes, block time steps, any timing of the processes and messages",
     "No test of the repository starts more than one process.",
     A([MPI, "src/Mpi", "src/Tree/HydroTree.cpp", IO, "src/Hydrodynamics/SphSimulation.cpp", "src/MeshlessFV/MfvMusclSimulation.cpp"], [("ghosts from other processes", "SendReceiveGhosts, " + MPI), ("particles and cells sent for the forces", "ExportParticlesBeforeForceLoop, GetExportedParticlesAccelerations, " + MPI), ("pruned trees", "BuildPrunedTree, UpdateGravityExportList, src/Tree/HydroTree.cpp"), ("collective snapshots", IO)],
       None, ["complete state of all processes at every event", "snapshots"], HK),
     "Differential against the serial image; tolerances are 10 or more times the largest difference seen in thousands of runs. Runs in which sinks swallowed gas are compared at their start only. Same message layer and limits as M01.")

prop("N01", "n01", "Densities and gas forces are sums over exactly the true neighbours",
     "Whenever a particle is due, its density, size and resolution correction solve the defining equations over all particles within its kernel, and its acceleration, heating and divergence from the gas are the symmetric sums over all particles whose kernels reach it. No neighbour is missed, counted twice or taken from another moment, "
     "whichever search, tree, boundary, kernel or number of threads and processes is used and however old the tree is.",
     ["inputs", "configurations", "histories", "schedules"],
     "both trees with any leaf size and age and direct search, periodic, mirrored, open and mixed boxes in 1-3 dimensions, strongly varying resolution, gas and dust, sinks, several time-step levels, restarts, threads, 1 to 4 processes",
     "Tests compare profiles in a few set-ups within per cent; a neighbour missed at an edge of a cell, box or domain in a rare step disappears in that.",
     A(["src/GradhSph", "src/MeshlessFV/MfvCommon.cpp", "src/Headers/NeighbourManager.h", "src/Tree", "src/Ghosts", MPI], [("neighbour lists", "NeighbourManager, src/Headers/NeighbourManager.h"), ("smoothing length iteration", "ComputeH, src/GradhSph/GradhSph.cpp, src/MeshlessFV/MfvCommon.cpp"), ("pair forces", "ComputeSphHydroForces, src/GradhSph/GradhSph.cpp"), ("ghosts at box and process borders", "src/Ghosts, SearchMpiGhostParticles")],
       [("particle", "position, velocity, size, density, forces, time of last step", "Particle")], ["complete state when forces are known, in every step"], "GANDALF_SIM_HOOKS calls after set-up, once forces are known and at the end of each step (src/Headers/SimHooks.h)"),
     "Reference: direct sums over all pairs and images in numpy, to 1e-6 (density) and 1e-8 (forces). Forces: grad-h smoothed-particle gas; densities: all schemes. Particles held at the smallest size next to sinks are compared in their forces only.")

prop("V01", "v01", "The adaptive viscosity stays in its bounds and follows its equation",
     "With a time-dependent viscosity every gas particle's coefficient stays between its minimum and maximum at every moment, decays and rises at the rate that its switch defines from its own current state, and changes by exactly that rate over its own time step, "
     "independent of the number of steps already made, of gravity, and of threads and processes.",
     ["histories", "configurations", "inputs", "schedules"],
     "both switches, every smoothed-particle integrator, shocks, shear, collapse, sinks and dust, several time-step levels, restarts, threads, 1 to 4 processes",
     "Tests use a constant viscosity or look at the final profile of one shock.",
     A(["src/GradhSph/GradhSph.cpp", "src/GradhSph/GradhSphTree.cpp", "src/Hydrodynamics/SphLeapfrogKDK.cpp", "src/Hydrodynamics/SphLeapfrogDKD.cpp", "src/Hydrodynamics/SphSimulation.cpp"], [("switches", "ComputeSphHydroForces, ComputeSphHydroGravForces, ComputeCullenAndDehnenViscosity, src/GradhSph"), ("advance of the coefficient", "EndTimestep, AdvanceParticles of the leapfrogs")],
       [("viscosity of a particle", "coefficient and its rate of change", "SphParticle::alpha, SphParticle::dalphadt")], ["complete state after every step"], HK),
     "The rate of the decay-and-divergence switch is recomputed from the recorded state; for the second-derivative switch the bounds, the decay and the advance are checked.")

prop("G01", "g01", "Gravity is the sum over all masses",
     "Whenever forces are computed, the gravitational acceleration and potential of every particle and star that is due equal the softened sums over all other particles and stars, including the corrections for a softening that changes with position: to rounding when direct summation or a vanishing opening angle is asked for, "
     "and within the error of the chosen expansion otherwise. This holds whatever tree, opening criterion, age of the tree or number of threads and processes is used.",
     ["inputs", "configurations", "histories", "schedules"],
     "collapse, star clusters with and without gas, accretion, binaries; all searches, multipole expansions and opening criteria, leaf sizes, tree ages, integrators, several time-step levels, restarts, threads, 1 to 4 processes",
     "Tests compare the collapse of a sphere with its solution within per cent; a cell taken twice or left out in one configuration or at one border is smaller than that.",
     A(["src/GradhSph", "src/MeshlessFV", "src/Tree", "src/Nbody", "src/Headers/NeighbourSearch.h", MPI], [("interaction lists", "ComputeGravityInteractionAndGhostList, ComputeStarGravityInteractionList, src/Tree"), ("expansions of cells", "ComputeCellMonopoleForces, ComputeCellQuadrupoleForces, FastMultipoleForces, src/Headers/NeighbourSearch.h"), ("softened pairs", "ComputeSphHydroGravForces, ComputeSphGravForces, ComputeStarGravForces"), ("gravity between processes", "UpdateGravityExportList, GetExportedParticlesAccelerations")],
       [("particle", "position, mass, softening, correction, gravity and potential", "Particle"), ("star", "position, mass, softening, acceleration", "NbodyParticle")], ["complete state when forces are known and before sinks are handled, in every step"], "GANDALF_SIM_HOOKS calls after set-up, once forces are known, around the sinks and at the end of each step (src/Headers/SimHooks.h)"),
     "Reference: direct sums in numpy, 1e-9 of the sum of magnitudes when exact, three times the largest error of thousands of runs otherwise. Open boundaries (periodic gravity is not compared); stars that integrate by half steps are compared after set-up only.")
