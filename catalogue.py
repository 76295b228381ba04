"""What the checks cover: one entry per property. gen.py writes properties.jsonl and MANIFEST.json from it."""

REAL_DRIVER = ["/repo/src/*.cpp (all but the dead pygraph.cpp): modelling, heuristic start, subtour and cycle-cover constraint handlers, cost covers, branching set-up, node/bounds event handlers, statistics files", "/repo/include/pctsp/*.hh", "yaml-cpp", "boost", "libstdc++ file streams"]
STUB_DRIVER = ["SCIP (sim/simscip: exact LP, branch and bound, callback protocol; every choice SCIP leaves open is a seeded decision)", "system clock", "heap addresses (seeded arena)", "write/open/fsync/rename inside the solver directory (seeded faults)"]
REAL_LAB = ["/repo/pctsp Python package (lab, vial, compare, apps, algorithms, preprocessing, suurballe, utils)", "/repo/pctsp/pypctsp.cpp and /repo/src/*.cpp as libpypctsp", "tspwplib, networkx, pandas, pydantic, typer", "CPython io buffering"]
STUB_LAB = ["SCIP (simscip) and the pyscipopt.Model handle", "pybind11 (a small stand-in for its API)", "task scheduling (one released at a time)", "clock, uuid4, random", "file system calls under the lab directory (faults, crash, power loss)", "failures of native calls (out of memory, solver error; before or after the work)"]

TECH = "deterministic simulation of the whole solve (seeded SCIP schedule, limits and faults) with reference-model oracle"
NOTE_D = ("Seeded search, not proof. Real pctsp C++ against a simulated SCIP whose LP, search and callback protocol follow SCIP's documented contract "
          "(SCIP itself is not installed here); graphs have at most 7 vertices so that the brute-force reference is exact. ")
W = "The tests solve a few fixed graphs with one SCIP, one seed and no fault (and without SCIP installed they do not even compile here); "

PROPS = {}


def P(pid, tag, engine, title, statement, over, text, why, files, mechanism, rule, observe=(), state=(), probes=(), level="exploration", note="", assumptions=(), technique=TECH, **kw):
    PROPS[pid] = dict(id=pid, tag=tag, engine=engine, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, rule=rule,
                      observe=list(observe), state=list(state), probes=list(probes), level=level, note=note, assumptions=list(assumptions), technique=technique, **kw)


D = "driver"
ASSUME_SCIP = "the simulated SCIP honours SCIP's documented callback contract; behaviours of real SCIP outside it are not explored"
P("C01", "optimal-tour", D, "An unlimited solve ends with a provably optimal feasible tour",
  "When no limit, interrupt or failure stops it, every solve of a prize-collecting TSP terminates with status optimal or infeasible. Optimal comes with a simple cycle of the graph through the root that collects at least the quota and whose cost equals the true minimum; infeasible is answered exactly when no such cycle exists.",
  ["inputs", "schedules", "configurations"], "every graph, prizes, quota, root, starting tour and solver option, and every order in which the solver may pick LP vertices, nodes, branching variables, cuts and heuristic solutions",
  W + "the optimum must survive every separation/branching order the solver may take.",
  ["src/algorithms.cpp", "src/subtour_elimination.cpp", "src/cost_cover.cpp", "src/cycle_cover.cpp", "src/branching.cpp", "src/solution.cpp", "src/separation.cpp"],
  [("model rows and heuristic start", "src/algorithms.cpp modelPrizeCollectingTSP/solvePrizeCollectingTSP"), ("lazy subtour constraints", "src/subtour_elimination.cpp PCTSPconshdlrSubtour"), ("tour extraction", "src/solution.cpp getSolutionEdges")],
  "A case is a generated instance, option set and decision stream, solved by the real code on the simulated solver; non-trivial when at least two LPs were solved.",
  observe=["solvePrizeCollectingTSP return value", "SCIPgetStatus"], probes=["sec_row", "cost_cover_row", "cycle_cover_row", "status_infeasible"], assumptions=[ASSUME_SCIP])
P("C02", "anytime-result", D, "A solve stopped early returns the best tour found so far",
  "When a time limit, memory limit, user interrupt, clock jump or LP failure ends a solve early, the call returns normally with either nothing or a feasible tour. The tour is never worse than the given starting tour or than the best tour the search had accepted, and a result is labelled optimal or infeasible only when that is true.",
  ["schedules", "fault_sequences", "configurations"], "every point of the search at which a limit, interrupt, clock jump or LP error can strike, and every instance and option set",
  W + "no test stops a solve early, let alone at every possible point.",
  ["src/algorithms.cpp", "src/solution.cpp", "include/pctsp/algorithms.hh"], [("result extraction keyed on the number of solutions, not the status", "src/algorithms.cpp solvePrizeCollectingTSP")],
  "As for the unlimited solve, plus a seeded stop; non-trivial when a limit, interrupt or LP error fired.", observe=["solvePrizeCollectingTSP return value", "SCIPgetStatus"], probes=["status_limit"], assumptions=[ASSUME_SCIP])
P("C03", "cuts-valid", D, "No constraint ever removes a tour that could still be optimal",
  "Every row the model or a separator hands to the solver is satisfied by every feasible tour of the graph. The only exception is a cost cover, which may exclude tours, but only ones that cost more than the starting tour or at least as much as a tour already found.",
  ["inputs", "schedules", "histories"], "every instance, LP point, separation round and incumbent history in which a row can be added",
  W + "a wrong cut only matters when the search order exposes it, so tests comparing one final cost pass.",
  ["src/subtour_elimination.cpp", "src/cost_cover.cpp", "src/cycle_cover.cpp", "src/algorithms.cpp", "src/knapsack.cpp"],
  [("subtour rows", "src/subtour_elimination.cpp addSubtourEliminationConstraint"), ("cost cover from the primal bound", "src/cost_cover.cpp scip_exec"), ("cycle cover rows", "src/cycle_cover.cpp addCycleCover")],
  "Every row added in the run is evaluated on every feasible tour, enumerated by brute force; non-trivial when at least one row was checked.", observe=["rows added to the solver"], probes=["sec_row", "cost_cover_row", "cycle_cover_row", "row_cuts_dominated_tour"], assumptions=[ASSUME_SCIP])
P("C04", "tour-check", D, "Feasibility checks accept exactly the simple cycles",
  "Whenever the solver asks whether an integral point is feasible, the point is accepted only if its edges form one simple cycle, and one simple cycle is never rejected by the subtour constraint; a tour meeting the quota through the root is never rejected by the cycle-cover constraint. No other point ever becomes the incumbent.",
  ["inputs", "schedules"], "every integral candidate (LP optimum, pseudo solution, heuristic proposal) at every point of every search",
  W + "the candidates a heuristic or LP may propose at any node are not sampled.",
  ["src/subtour_elimination.cpp", "src/separation.cpp", "src/cycle_cover.cpp"], [("cycle test of the support graph", "src/separation.cpp isSimpleCycle"), ("check/enforce callbacks", "src/subtour_elimination.cpp scip_check, scip_enfolp, scip_enfops")],
  "Every check/enforce callback answer is compared with a direct classification of the point; non-trivial when at least one integral point was judged.", observe=["constraint handler results", "accepted incumbents"], probes=["check_cycle", "check_notcycle", "enfops", "detached_sol"], assumptions=[ASSUME_SCIP])
P("C05", "tailing-off", D, "A node gives up cutting exactly when its gap stops improving",
  "With a tailing-off window of K, a node's fractional LP is branched on by the subtour constraint exactly when the optimality gap improved by less than the threshold over that node's own last K LP solutions, and otherwise is left to cutting. Windows of different nodes never mix, whatever order the nodes are visited in, and at an integral point a tailing-off node still gets a legal answer.",
  ["schedules", "histories", "configurations"], "every interleaving of node visits, every window length and threshold, every history of bounds",
  W + "per-node history under interleaved node visits is never exercised.",
  ["src/subtour_elimination.cpp", "src/branching.cpp", "include/pctsp/subtour_elimination.hh"], [("per-node rolling gap list", "src/subtour_elimination.cpp pushIntoRollingLpGapList/isNodeTailingOff")],
  "A per-node reference window predicts each enforcement answer; non-trivial when at least two enforcement calls were predicted.", observe=["enforcement results per node"], probes=["tailing_branch"], assumptions=[ASSUME_SCIP])
P("C06", "separation-progress", D, "A detached component of the LP support is always cut off",
  "With disjoint-tour separation on, whenever the point to separate has a connected component that misses the root and clearly violates its subtour inequality, separation adds at least one row (or cuts the node off) and reports that it did.",
  ["inputs", "schedules"], "every LP or heuristic point at every separation call of every search",
  W + "whether every violating point is cut is never observed.", ["src/subtour_elimination.cpp", "src/separation.cpp"], [("component separation", "src/subtour_elimination.cpp PCTSPseparateDisjointTour")],
  "Each separation call is compared with a direct computation of the violated component inequality (efficacy above 1e-3); non-trivial when such a call occurred.", observe=["separation results", "rows added"], probes=["detached_lp", "detached_sol"], assumptions=[ASSUME_SCIP])
P("C07", "stats-conserved", D, "Recorded cut and node counts equal what the solver received",
  "The summary statistics of a solve count exactly the branch-and-bound nodes processed and the cost-cover and cycle-cover constraints added, before and during the solve; the subtour counts lie between the rows the solver accepted and the rows built, per node and in total. A separation that is off counts zero.",
  ["schedules", "histories", "fault_sequences"], "every order of node visits, cut rounds, restarts of a node and early stops",
  W + "totals depend on every node visit and cut round of the search.", ["src/event_handlers.cpp", "src/algorithms.cpp", "src/cost_cover.cpp", "src/cycle_cover.cpp", "src/stats.cpp"],
  [("per-node counters", "src/event_handlers.cpp NodeEventhdlr"), ("summary", "src/algorithms.cpp getSummaryStatsFromSCIP")],
  "Counts in the statistics file are compared with the simulator's ledger of rows and nodes; non-trivial when two LPs were solved and the file was checked.", observe=["pctsp summary statistics file", "NodeEventhdlr::getNodeStatsVector"], probes=["stats_checked", "node_records"], assumptions=[ASSUME_SCIP])
P("C08", "stats-bounds", D, "Recorded bounds enclose the true optimum and match the tour",
  "The lower and upper bound in a solve's summary statistics are bounds on the original objective: the upper bound is the cost of the returned tour (or infinite), the lower bound never exceeds the true optimum or the upper bound, and they coincide when the status is optimal. This holds however the solve ended.",
  ["inputs", "schedules", "fault_sequences"], "every instance (including scaled objectives), every search order and every early stop",
  W + "objective scaling, offsets and early stops are not covered.", ["src/algorithms.cpp", "src/event_handlers.cpp"], [("bounds of the original problem", "src/algorithms.cpp getSummaryStatsFromSCIP")],
  "Bounds in the file are compared with the returned tour, the brute-force optimum and the solver; non-trivial when two LPs were solved and the file was checked.", observe=["summary statistics file"], probes=["stats_checked"], assumptions=[ASSUME_SCIP])
P("C09", "stats-file", D, "A statistics file is always a complete record or the previous one",
  "After a solve, the summary statistics file holds every field of that solve and reading it back gives the same values. If the process dies or the disk fails while it is written, the file is the complete new record, the complete previous one, or absent, never a partial one.",
  ["crash_points", "fault_sequences"], "every crash point and disk error (no space, I/O error, short write, failed open/rename/sync) during the write",
  W + "no test interrupts or fails a write.", ["src/stats.cpp", "src/algorithms.cpp"], [("write to a temporary file, then rename", "src/stats.cpp writeSummaryStatsToYaml")],
  "A solve whose disk operations fail or crash at a seeded operation; non-trivial when a disk fault fired or the file was checked.", observe=["summary statistics file"], probes=["io_faults", "crash", "stats_diskfault"], level="fault_enumeration", assumptions=["a process crash keeps completed system calls and loses the rest"])
P("C10", "solver-releases", D, "A finished solve leaves no open file, no held row and a complete log",
  "When a solve returns, every file it opened itself in the solver directory is closed, and the log it attached to the solver is closed once the solver is freed; this also holds when a disk write fails. Every constraint and row it created has been released. Unless the disk failed, the solver's statistics are then completely written to the log file.",
  ["histories", "fault_sequences"], "every sequence of solves in one process and every disk error in the solver directory", W + "descriptors only run out after long sequences of solves.",
  ["src/algorithms.cpp", "src/sciputils.cpp", "src/cost_cover.cpp", "include/pctsp/constraint.hh"], [("log file closed after printing statistics", "src/algorithms.cpp solvePrizeCollectingTSP")], "Open descriptors before and after each solve, the attached log after the solver is freed, and the reference counts of rows and constraints are compared; non-trivial when an LP was solved or a disk fault fired.", observe=["open file descriptors", "solver log", "references to rows and constraints"], assumptions=[ASSUME_SCIP])
P("C11", "bounds-trace", D, "The bound trace is a gap-free, monotone history of the search",
  "The recorded trace has one record per solved LP, with the global bounds of the original objective and the node at that moment. Consecutive time intervals neither overlap nor leave gaps, lower bounds never fall, upper bounds never rise, and every record encloses the true optimum.",
  ["schedules", "histories"], "every search order, clock behaviour and early stop", W + "the trace handler is not tested at all.", ["src/event_handlers.cpp", "include/pctsp/event_handlers.hh"], [("LP-solved event records", "src/event_handlers.cpp BoundsEventHandler::scip_exec")],
  "Each record is compared with the simulator's own record of the same event; non-trivial when the trace has two records.", observe=["BoundsEventHandler::getBoundsVector"], probes=["bounds_trace"], assumptions=["the clock does not run backwards during a solve"])
P("C12", "solver-faults", D, "A failing solver call is never turned into a wrong answer",
  "When any call into the solver, or any memory allocation, fails while modelling or solving, the solve either raises an error or returns a result that is still true: a returned tour is feasible, a status of optimal or infeasible is correct, and the process does not crash. A summary file already on disk stays complete.",
  ["fault_sequences"], "every solver call that can fail, alone or twice, and every allocation, at every occurrence", W + "no test makes a solver call fail.", ["src/algorithms.cpp", "src/subtour_elimination.cpp", "src/cost_cover.cpp", "src/cycle_cover.cpp", "src/branching.cpp", "include/pctsp/sciputils.hh", "include/pctsp/exception.hh"],
  [("return codes propagated", "include/pctsp/sciputils.hh throwIfScipFails, SCIP_CALL in callbacks")], "A seeded call returns an error code, or a seeded allocation of the solve throws std::bad_alloc; non-trivial when the failure fired.", observe=["exceptions", "return value", "SCIPgetStatus"], probes=["api_fail", "exception", "alloc_exception"], level="fault_enumeration", assumptions=["a failed SCIP call has no effect"])
P("C13", "history-independence", D, "Earlier solves in a process do not change a later solve",
  "Solving several instances one after another in a process, with earlier solver handles freed or still open, gives for each the same guarantees and statistics as a fresh process: correct tour, status, bounds and counts.",
  ["histories"], "every sequence of solves, kept or freed handles, and memory layouts", W + "each test solves once per fixture.", ["src/algorithms.cpp", "src/subtour_elimination.cpp", "src/event_handlers.cpp", "src/sciputils.cpp"], [("per-handle problem data and handlers", "include/pctsp/data_structures.hh ProbDataPCTSP")],
  "Two or three solves per process with all solver oracles on each; non-trivial when at least two solves ran.", observe=["return values and statistics of every solve"], assumptions=[ASSUME_SCIP])
P("C14", "trace-export", D, "Exported node and bound tables hold the recorded history",
  "The tables exported from a solve have one row per record with every value under its own column header. Timestamps are well-formed UTC instants that parse back to the recorded millisecond in every time zone, and each node row names the node's true parent.",
  ["schedules", "configurations", "histories"], "every search history, wall-clock instant and local time zone", W + "the one test writes one row and never reads it back; the clock and the time zone are whatever the machine has.", ["src/stats.cpp", "src/event_handlers.cpp", "include/pctsp/stats.hh"], [("row and header writers", "src/stats.cpp"), ("timestamp format", "src/event_handlers.cpp timePointToString")],
  "Tables of each solve are parsed by their headers and compared with the records; non-trivial when the trace has two records.", observe=["exported CSV files"], probes=["bounds_exported", "node_records", "stamp_below_100ms"], assumptions=["values are compared to six significant digits"])

P("C28", "search-as-asked", D, "The search obeys the separation, branching and limit options given",
  "A solve is run as its options say: a node is branched by strong branching, or by reliability pseudo-cost branching, as the chosen strategy and its depth limit ask for that depth; subtour separation is called at exactly the depths its frequency names; a separation method that is switched off never contributes an inequality; no LP is started after the time limit, and no limit that was not asked for ends the search.",
  ["configurations", "schedules"], "every combination of branching strategy, depth limit, separation switches, separation frequency and time limit, at every node of every search tree and every advance of the clock",
  W + "no test looks at which rule branched, at which depth a separator was asked, or when the last LP started.",
  ["src/branching.cpp", "src/algorithms.cpp", "src/subtour_elimination.cpp", "src/cycle_cover.cpp", "src/cost_cover.cpp"],
  [("branching priorities and depths", "src/branching.cpp setBranchingStrategy"), ("solver parameters", "src/algorithms.cpp solvePrizeCollectingTSP"), ("separation frequency", "include/pctsp/subtour_elimination.hh PCTSPconshdlrSubtour")],
  "The solver's choice of branching rule, its separation calls, LP starts and final status are compared with the options at every node; non-trivial when a node was branched or a separation round ran.",
  observe=["branching rule that decides each node", "separation calls per depth", "rows added per handler", "LP start times", "SCIPgetStatus"], probes=["below_strong_depth", "round_without_sec", "status_limit"], assumptions=[ASSUME_SCIP, "the rule that branches is the one SCIP's priority and maximal-depth parameters select"])
P("C29", "cost-cover-complete", D, "A vertex too dear to visit is excluded as soon as that is known",
  "With cost covers on, a vertex whose cheapest way there and back from the root costs more than the starting tour is excluded before the search begins, and each time a better tour is found every vertex that has become too dear is excluded at once. The way there and back is twice the shortest path, or the shortest cycle through root and vertex, as selected; a vertex that cannot be reached counts as too dear.",
  ["inputs", "histories", "schedules"], "every graph, starting tour and sequence of incumbents, from the start heuristic, the LP or other heuristics, in every order",
  W + "no test looks at which vertices are excluded after each incumbent.",
  ["src/cost_cover.cpp", "include/pctsp/cost_cover.hh", "src/algorithms.cpp"],
  [("cost cover at each incumbent", "src/cost_cover.cpp CostCoverEventHandler::scip_exec"), ("covers of the starting tour", "include/pctsp/cost_cover.hh")],
  "After every incumbent, the vertices that are too dear by a directly computed distance must each be excluded by a row of the model or solver; non-trivial when some vertex was too dear.",
  observe=["rows added to the solver", "incumbent history"], probes=["vertex_too_dear", "cost_cover_row"], assumptions=[ASSUME_SCIP])
P("C30", "cycle-cover-complete", D, "Cycle covers are added exactly where the root's part falls short",
  "With cycle covers on, whenever the part of an LP solution connected to the root cannot collect the quota and clearly violates its cycle-cover inequality, separation adds that row and reports it; when that part can collect the quota, none is added. An integral point is rejected by the cycle-cover check exactly when its root part misses the quota.",
  ["inputs", "schedules"], "every LP point at every separation round, and every integral candidate, of every search",
  W + "no test separates a cycle cover during a solve.",
  ["src/cycle_cover.cpp", "include/pctsp/cycle_cover.hh", "include/pctsp/graph.hh"],
  [("root component against the quota", "include/pctsp/cycle_cover.hh separateCycleCover, isCycleCoverViolated"), ("rows and result", "src/sciputils.cpp addRow")],
  "Each cycle-cover separation and check is compared with a direct computation of the root component (efficacy above 1e-3); non-trivial when a cover was needed.",
  observe=["cycle-cover separation results and rows", "cycle-cover check results"], probes=["cycle_cover_needed", "cycle_cover_one_short", "cycle_cover_enough", "cover_check_short"], assumptions=[ASSUME_SCIP])

for _p in list(PROPS.values()):
    if _p["engine"] == D and not _p["note"]:
        _p["note"] = NOTE_D

L = "lab"
TECH_L = "deterministic simulation of the experiment lab (seeded process schedule, crashes, power loss, disk faults) checked against the files and a reference model"
NOTE_L = ("Seeded search, not proof. The real pctsp command line, lab and native library run as simulated processes over a real scratch directory behind patched calls; "
          "instances have at most 7 vertices so that the brute-force reference is exact. SCIP is simulated (not installed here); pybind11 is a stand-in. ")
WL = "No stable test runs an experiment; the lab tests need SCIP and would run one vial once, without concurrency, crash or fault; "
LAB = ["pctsp/lab/lab.py", "pctsp/vial/vial.py", "pctsp/apps/main_app.py"]
ASSUME_FS = "a process kill keeps completed system calls (the last write may be torn); after power loss unsynced file contents may be old, empty, cut or zeroed, while renames are kept"
P("C31", "maxflow-complete", D, "Maximum-flow separation cuts off every weakly connected LP solution",
  "With maximum-flow separation on, whenever a vertex in the root's part of an LP solution is visited in full but some cut of clearly less than 2 separates it from the root, separation adds at least one row (or cuts the node off) and reports that it did, whatever other components the solution has.",
  ["inputs", "schedules"], "every fractional LP point, connected or not, at every separation call of every search",
  W + "the minimum cuts of a fractional point are never compared with the rows added.",
  ["src/subtour_elimination.cpp", "src/separation.cpp", "include/pctsp/subtour_elimination.hh"],
  [("maximum-flow separation", "src/subtour_elimination.cpp PCTSPseparateMaxflowMincut"), ("capacities", "src/separation.cpp getCapacityVectorFromSol")],
  "At every separation call the minimum cut between the root and each fully visited vertex is computed independently; a cut below 1.98 demands a row; non-trivial when such a cut occurred.",
  observe=["LP points", "separation results", "rows added"], probes=["weak_cut", "weak_cut_apart"], assumptions=[ASSUME_SCIP])
P("C15", "result-durability", L, "A finished vial's result is never lost or damaged again",
  "Once the result file of a vial holds a complete result, it holds a complete result for that vial from then on: through process kills at any point, disk errors, a full disk, power loss, re-runs of the same vial and concurrent duplicate jobs. A re-run may replace it, but only whole by whole.",
  ["crash_points", "fault_sequences", "schedules"], "every kill, torn write, disk error and power loss at every system call of batch jobs, re-runs and duplicates, under every interleaving of them",
  WL + "no test kills a writer or re-runs a vial.", LAB + ["pctsp/utils/utils.py"], [("result written to a temporary file, synced, renamed", "pctsp/lab/lab.py run_experiment_from_vial_list; pctsp/utils/utils.py open_atomically")],
  "After every change of the simulated disk the result file is parsed; non-trivial when a result was written.", observe=["result files after every disk operation"], probes=["result_written"], level="fault_enumeration", assumptions=[ASSUME_FS], note=NOTE_L, technique=TECH_L)
P("C16", "experiment-atomic", L, "A recorded experiment is always complete, old or new, for every reader",
  "The experiment file and the missing-results experiment file always hold a complete experiment: set-up that is killed, fails or loses power leaves either the previous experiment or the new one, commands that run at the same time read one or the other and never fail, a successful set-up has stored exactly its vials, and every vial reads back equal to what was written.",
  ["crash_points", "fault_sequences", "schedules"], "every crash point, disk fault and interleaving of repeated set-up with the commands that read the experiment",
  WL + "no test reads while writing.", LAB + ["pctsp/vial/experiment.py", "pctsp/utils/utils.py"], [("experiment written to a temporary file, renamed", "pctsp/lab/lab.py write_experiment_to_file")],
  "After every change of the simulated disk the two files are parsed; non-trivial when an experiment was written.", observe=["experiment.json, missing_experiment.json", "exit of reading commands"], probes=["exp_written", "setup_done"], level="fault_enumeration", assumptions=[ASSUME_FS], note=NOTE_L, technique=TECH_L)
P("C17", "readers-survive", L, "Status commands report exactly the results that are complete",
  "Whatever crashes, torn or missing files an earlier run left behind, and while batches are running, the commands missing, nmissing and infeasible and the reading of results succeed. A vial counts as missing exactly when it has no complete result; the missing experiment holds exactly those vials in order; a vial counts as infeasible exactly when its complete result is below its quota; the results read are the complete ones in order.",
  ["crash_points", "histories", "schedules"], "every state of the result directory that crashes, kills and concurrent jobs can leave",
  WL + "no test has a torn, empty or missing result.", LAB, [("complete results only", "pctsp/lab/lab.py missing_vials, infeasible_vials, read_results_from_file"), ("missing and infeasible commands", "pctsp/apps/main_app.py")],
  "Each command's output is compared with the files; non-trivial when a result was written.", observe=["output of missing, nmissing, infeasible"], probes=["readers_some_done", "readers_some_missing", "readers_some_infeasible", "planted_torn"], level="fault_enumeration", assumptions=[ASSUME_FS], note=NOTE_L, technique=TECH_L)
P("C18", "missing-resume", L, "Running the missing vials after a crash completes the experiment",
  "After any sequence of kills, disk errors and power losses, listing the missing vials and running one job array over them without faults gives every vial that can be run a result, the same as in a run without faults; vials whose result was complete are not run again and keep their files unchanged. Whenever it is asked for, the missing experiment holds exactly the vials without a complete result, none when all are complete, and the missing count is exact.",
  ["crash_points", "fault_sequences", "histories"], "every crash history of an experiment, followed by a fault-free array over the missing vials", WL + "recovery after a crash is never exercised.",
  LAB, [("missing-results experiment and array", "pctsp/apps/main_app.py missing, slurm, batch")], "Files after recovery are compared with a fault-free reference run; non-trivial when a result was written.",
  observe=["result files", "output of missing and nmissing"], probes=["resumed", "kept_results", "all_complete_listed"], level="fault_enumeration", assumptions=[ASSUME_FS, "once faults stop, one array over the missing vials is enough (bounded progress)"], note=NOTE_L, technique=TECH_L)
P("C19", "batch-coverage", L, "A job array runs every vial exactly once, whatever the batch size",
  "The array tasks of an experiment, run in any order and concurrently, run every vial exactly once and no task more than its batch size; the number of batches reported and the array size are the number of vials divided by the batch size, rounded up. The same holds for an array over missing results and the vials that are missing.",
  ["configurations", "schedules"], "every number of vials, batch size, set of missing results and order and overlap of the array tasks", WL + "no test runs an array.",
  LAB, [("batch slice", "pctsp/lab/lab.py run_batch; pctsp/apps/main_app.py batch, nbatches")], "Writes of results are counted per vial and task; non-trivial always.",
  observe=["results written per task", "output of nbatches", "array directive"], probes=["several_batches", "last_batch_partial", "missing_array"], note=NOTE_L, technique=TECH_L)
P("C20", "slurm-script", L, "The Slurm job script runs every batch within its wall time",
  "The generated job script is valid for Slurm and bash; its array has one task per batch and each task runs its own batch of this experiment; the wall time it asks for never exceeds two days and, up to that, is enough for a whole batch in which every solve uses its full time limit, so that no batch is killed before it has finished. The tasks use the lab, the data directories (whatever characters their names hold) and the logging level, and the job the partition and memory, that were asked for. A script that is already there is kept, and reported, unless overwriting was asked for; then it is replaced.",
  ["configurations", "schedules"], "every batch size, number of vials and time limit; the array is executed by bash and each task is run in the simulator with solves that use up their limit", WL + "no test runs the script.",
  ["pctsp/apps/main_app.py", "pctsp/lab/lab.py"], [("wall time and array", "pctsp/apps/main_app.py slurm")], "The script is parsed, executed by bash, and its tasks simulated under its wall time; non-trivial always.",
  observe=["job script", "tasks killed at the wall time"], probes=["wall_fits", "wall_capped", "kept_script"], note=NOTE_L, technique=TECH_L)
P("C21", "vial-isolation", L, "A vial that fails costs no other vial its result",
  "In a batch, a vial that cannot be run (an algorithm or option that is not available, an unreadable, truncated or missing problem file) leaves no result and does not stop the others: every vial that gives a result when run alone gives one in the batch, and no batch ends with an error. An I/O error on the files of one vial, or native code that runs out of memory or fails on it, costs at most that vial's result.",
  ["fault_sequences", "schedules", "inputs"], "every placement of failing vials, damaged problem files, I/O errors and native failures in every batch and job order", WL + "no test puts a failing vial in a batch.",
  ["pctsp/lab/lab.py", "pctsp/apps/main_app.py"], [("per-vial exception barrier", "pctsp/lab/lab.py run_experiment_from_vial_list")], "The set of results is compared with every vial run alone; non-trivial when a result was written.",
  observe=["result files", "exit of batch jobs"], probes=["failing_vial", "bad_file", "io_fault_in_batch"], level="fault_enumeration", note=NOTE_L, technique=TECH_L)
P("C22", "result-truthful", L, "A stored result describes a real tour with its true cost, prize and status",
  "Every stored result of an experiment is true for its vial's own data set, cost function, sparsification, root and quota: objective and prize are the cost and prize of the stored edges in the original graph, a non-empty tour is a simple cycle through the root stored in tour order, an exact result meets the quota and is optimal when the solver says so and empty only when no tour exists or a limit stopped it, no heuristic beats the optimum, and the recorded time interval covers the solve. A vial with a usable instance gets a result.",
  ["inputs", "configurations", "schedules"], "every small data set, cost function, preprocessing and algorithm option, on every order in which jobs run", WL + "no test checks a stored result against its graph.",
  ["pctsp/lab/lab.py", "pctsp/algorithms/*.py", "pctsp/preprocessing/preprocessing.py", "pctsp/suurballe/*.py", "pctsp/pypctsp.cpp", "src/algorithms.cpp", "src/heuristic.cpp"], [("result of a vial", "pctsp/lab/lab.py run_experiment_from_vial_list"), ("exact and heuristic entry points", "pctsp/algorithms")],
  "Each result is recomputed from the instance and compared with a brute-force optimum; non-trivial when a result was written.", observe=["result files"], probes=["optimal_checked", "infeasible_checked", "heuristic_feasible"], note=NOTE_L, technique=TECH_L)
P("C23", "schedule-independence", L, "A vial's result does not depend on where, when or beside what it runs",
  "Whatever batch, process, job order, interleaving, duplicate job, memory layout or earlier vial surrounds it, a vial that succeeds alone stores the same result (a heuristic the same tour, an exact solve the same optimal cost), and one that fails alone stores none.",
  ["schedules", "histories"], "every order, overlap, duplication and kill of jobs, every sequence of vials in a process and every heap layout", WL + "each test runs one vial in a fresh state.",
  ["pctsp/lab/lab.py", "pctsp/algorithms/*.py", "pctsp/pypctsp.cpp", "src/*.cpp"], [("no state shared between vials", "pctsp/lab/lab.py run_experiment_from_vial_list")], "Every result ever written is compared with the vial run alone; non-trivial when a result was written.",
  observe=["every version of every result file"], probes=["result_written"], note=NOTE_L, technique=TECH_L)
P("C24", "csv-export", L, "The exported tables hold exactly the complete results, value for value",
  "The heuristics table has one row per vial with a complete result and the branch-and-cut table one per vial with a complete result and readable solver statistics, whatever crashes left behind and also when there are none. Each row's objective, prize, quota, overshoot, feasibility, duration, algorithm, graph and solver statistics are the recorded ones, and the export of all experiments skips none of them.",
  ["crash_points", "histories"], "every state of results and statistics that runs, crashes and torn files leave", WL + "no test exports a table.", ["pctsp/apps/csv_app.py", "pctsp/lab/lab.py", "pctsp/vial/*.py"],
  [("tables from results", "pctsp/apps/csv_app.py")], "Each table is parsed and compared with the files; non-trivial when a result was written.", observe=["CSV files"], probes=["csv_rows_heuristics", "csv_rows_branch-cut", "csv_empty"], note=NOTE_L, technique=TECH_L)
P("C25", "archive-roundtrip", L, "Archiving and restoring an experiment returns the same files",
  "zip never changes the experiment it archives, and an archive that zip reported complete is restored by unzip to the same files with the same contents: for each of the experiments named, also after an earlier zip was killed or failed half-way, and over an older state of the experiment. The restored experiment answers the status commands like the original.",
  ["crash_points", "fault_sequences"], "every set of result files and every kill or disk fault of an earlier archive attempt", WL + "no test archives an experiment.", ["pctsp/apps/utils_app.py"], [("zip and unzip commands", "pctsp/apps/utils_app.py")],
  "The restored tree is compared byte for byte; non-trivial when an archive was restored.", observe=["archive", "restored files"], probes=["restored", "restored_two", "restored_over_old"], level="fault_enumeration", assumptions=[ASSUME_FS], note=NOTE_L, technique=TECH_L)
P("C26", "single-run", L, "A command that solves one instance records what was asked and what was found",
  "The commands tsplib, londonaq and lab run the instance, algorithm, quota and options asked for, record exactly that experiment, and store results that are true for it; the results file they write holds exactly the results of their vials. With a kill or fault at any point, what is left is complete or absent.",
  ["inputs", "configurations", "fault_sequences"], "every small instance, algorithm and option of the commands, and every kill point", WL + "the command line is not covered by a stable test.", ["pctsp/apps/main_app.py", "pctsp/lab/run_algorithm.py", "pctsp/compare/dryrun_experiment.py", "pctsp/lab/lab.py"], [("single-instance commands", "pctsp/apps/main_app.py")],
  "The recorded experiment is compared with the arguments, results with the reference; non-trivial when a result was stored.", observe=["experiment.json", "results.json", "result files"], probes=["single_result"], note=NOTE_L, technique=TECH_L)
P("C27", "run-as-recorded", L, "Every vial runs exactly with the data and options it records",
  "Whatever ran before in the process and whatever runs beside it, the solver and the native heuristics are given for each vial its own graph (costs, prizes, root, less only what its preprocessing may remove), the true disjoint-path costs when cost covers ask for them, the tour of its starting heuristic when that is feasible, its quota, algorithm, starting heuristic, cut separation, branching, tailing-off, path, collapse and time-limit options and its own directory; an exact vial is solved exactly once, a heuristic vial never.",
  ["configurations", "histories", "schedules"], "every combination of options, every sequence of vials in a process, every interleaving of processes", WL + "no test observes what the solver is called with.",
  ["pctsp/lab/lab.py", "pctsp/lab/run_algorithm.py", "pctsp/algorithms/algorithms.py", "pctsp/algorithms/path_extension_collapse.py", "pctsp/vial/model_params.py"], [("options handed to the native library", "pctsp/lab/run_algorithm.py run_algorithm")],
  "Arguments of every native call, named by the native signature, are compared with the vial; non-trivial when a call was compared.", observe=["arguments of native calls"], probes=["solve_call_checked", "path_call_checked", "path_costs_checked", "starting_tour_checked"], note=NOTE_L, technique=TECH_L)
P("C32", "experiment-design", L, "Setting up an experiment records every combination exactly once",
  "Set-up of a named experiment on a data set it supports records one vial for every combination of its data configurations (graph, generation, sparsification, cost function, quota or alpha) with every setting it compares, none missing, none twice, each with an identifier of its own; the root is that of the instance file, and an alpha quota is that percentage, rounded down, of the total prize of that very instance file. The vials of a cost-cover or tailing-off experiment differ in nothing but what it compares, every vial is marked exact, heuristic or relaxation as its algorithm is, and all are preprocessed alike. An unsupported data set or an instance file that is missing ends the set-up with an error and leaves the recorded experiment as it was; so does a crash or disk fault, unless the new experiment is recorded whole.",
  ["configurations", "fault_sequences", "schedules"], "every named experiment, every content of the lists of graphs, quotas, alphas, sparsifications and cost functions, every instance, several set-ups in a row and at once, every kill, disk fault and lost instance file", WL + "no test sets up an experiment.",
  ["pctsp/compare/*.py", "pctsp/apps/main_app.py", "pctsp/lab/lab.py", "pctsp/vial/*.py"], [("cross products of parameters", "pctsp/compare/product_of_params.py"), ("named experiments", "pctsp/compare/exact_experiment.py, heuristic_experiment.py, relaxation_experiment.py, dryrun_experiment.py"), ("set-up command", "pctsp/apps/main_app.py setup")],
  "The recorded vials are compared as a multiset with the combinations of the lists; non-trivial when a recorded experiment was compared.", observe=["experiment.json after every set-up", "exit of set-up"], probes=["design_checked", "refused"], level="fault_enumeration", assumptions=[ASSUME_FS], note=NOTE_L, technique=TECH_L)
P("C33", "dataset-stats", L, "A data set is described completely and truly, or not at all",
  "When the command that describes a data set succeeds, its table has exactly one row per instance (graph, and for TSPLIB generation, cost function and sparsification), and each row is true for that instance: vertices, edges, total cost and prize, metricness, the dearest of the cheapest pairs of disjoint paths from the root, the largest prize such a pair collects and its share, and the same counts, cost, prize share and metricness after preprocessing. A missing instance file or a disk fault makes the command fail instead; asked again without faults it succeeds.",
  ["inputs", "fault_sequences"], "every small data set, list of graphs, cost functions and sparsifications, every kill, disk fault and lost instance file while it is read and written", WL + "no test describes a data set.",
  ["pctsp/apps/dataset_app.py", "pctsp/preprocessing/preprocessing.py", "pctsp/suurballe/*.py"], [("statistics of one graph", "pctsp/apps/dataset_app.py get_graph_stats"), ("table over the data set", "pctsp/apps/dataset_app.py stats_of_dataset")],
  "Each row is recomputed from the instance by enumeration; non-trivial when a table was compared.", observe=["CSV table", "exit of the command"], probes=["dataset_checked"], level="fault_enumeration", assumptions=[ASSUME_FS], note=NOTE_L, technique=TECH_L)

NOT_APPLICABLE = []


def N(pid, title, statement, over, text, why, files, mechanism, reason):
    NOT_APPLICABLE.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, observe=[], state=[], reason=reason))


PURE = "A pure function of its input: no schedule, clock, I/O, fault or shared state takes part, so simulating schedules and faults decides nothing about it (only input generation would, which is another technique)."
N("N01", "Suurballe's algorithm returns a cheapest pair of vertex-disjoint paths", "For every graph with positive costs and every vertex, the pair of paths found between source and vertex is internally vertex-disjoint and of minimum total cost, and none is reported exactly when none exists.",
  ["inputs"], "every weighted graph", "Tests use fixed small graphs.", ["pctsp/suurballe/suurballe.py"], [("vertex-splitting and residual shortest paths", "pctsp/suurballe/suurballe.py")], PURE)
N("N02", "Preprocessing never removes an optimal tour", "Removing leaves, one-connected components and vertices beyond the cost limit keeps every feasible tour of cost at most the limit.",
  ["inputs"], "every graph, root and limit", "Tests use fixed small graphs.", ["pctsp/preprocessing/preprocessing.py", "src/preprocessing.cpp"], [("removal by biconnected component and disjoint-path cost", "pctsp/preprocessing/preprocessing.py")], PURE)
N("N03", "Standalone tour heuristics return valid tours no worse than their input", "Extension, collapse and path-extension heuristics map a tour through the root to a tour through the root, extension never loses prize and collapse keeps the quota while not raising cost.",
  ["inputs"], "every graph, tour and quota", "Tests use fixed small graphs.", ["src/heuristic.cpp", "pctsp/algorithms/extension_collapse.py", "pctsp/algorithms/path_extension_collapse.py"], [("unitary gain/loss moves", "src/heuristic.cpp")], PURE)
N("N04", "Vertex renaming is a bijection that is undone exactly", "Renaming vertices to a contiguous range for the solver and back returns every edge, prize and cost to its own vertex.",
  ["inputs"], "every vertex labelling", "Tests use fixed labels.", ["include/pctsp/renaming.hh"], [("boost bimap", "include/pctsp/renaming.hh")], PURE)
N("N05", "Experiment definitions enumerate exactly the product of their parameters", "Each experiment consists of one vial per combination of data set, cost function, quota and algorithm parameters, each once.",
  ["configurations"], "every experiment name and library", "Not tested.", ["pctsp/compare/product_of_params.py", "pctsp/compare/exact_experiment.py"], [("itertools product", "pctsp/compare/product_of_params.py")], PURE)
