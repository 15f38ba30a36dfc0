#!/usr/bin/env python3
"""Single source of the framework's metadata: writes properties.jsonl, sim/props.json and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = {}      # properties
C = {}      # checks
NA = {}     # not applicable


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P[id] = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
             "why_tests_cant": why,
             "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                         "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                         "observe_at": list(observe), "hook_needed": hook}}


def check(id, rule, quick, thorough, note, technique=None, variant="plain", level="exploration", measure=None, stub=None, real=None, assumptions=()):
    C[id] = {"rule": rule, "quick": quick, "thorough": thorough, "note": note, "variant": variant, "level": level,
             "technique": technique or "deterministic simulation: seeded search over runs and faults", "assumptions": list(assumptions)}
    if measure: C[id]["measure"] = measure
    if stub: C[id]["stub"] = stub
    if real: C[id]["real"] = real


def na(id, reason):
    NA[id] = reason


CTRL = "lib/hnco/functions/controllers/controller.hh"
CTRLC = "lib/hnco/functions/controllers/controller.cc"
ALG = "lib/hnco/algorithms/"

# ------------------------------------------------------------------------------------------------ controllers
prop("H02", "The evaluation budget is exact",
     "When a run is given a budget of B evaluations, at most B evaluations are ever carried out, the first B are never refused, and the next request is refused before the objective function is computed or the evaluation counted. "
     "This holds for full, incremental and parallel evaluation, with a cache inside or outside the budget, and whatever evaluations failed on the way.",
     ["histories", "configurations", "fault_sequences"], "every sequence of evaluation requests, every algorithm, every combination of controllers, every failing evaluation",
     "The tests construct controllers once on one sequence; they do not mix the ways to evaluate, cached points and failing evaluations, nor do they run algorithms until the budget is exhausted at an arbitrary point.",
     [CTRL, CTRLC, "lib/hnco/app/decorated-function-factory.cc"],
     [("OnBudgetFunction", CTRL + ": counts down and throws LastEvaluation"), ("order of the controllers", "lib/hnco/app/decorated-function-factory.cc: make_function_controller")],
     [("_num_calls", "evaluations charged so far", CTRL)], ["exceptions thrown by evaluations", "computations of the objective function"])
check("H02", "Non-trivial: the run used up its budget.", [240000, 150], [4000000, 2400],
      "Seeded search; the invariant is checked after every operation of every run against a reference model of the budget. Says nothing about sequences longer than the bounds in DESIGN.md.")

prop("H03", "Reported progress is the true progress",
     "At any moment the progress report shows exactly how many evaluations were carried out, the best value among them, the first point that reached it, and the evaluation at which it did. "
     "The log of improvements lists exactly the strict improvements, in order. Failing and refused evaluations leave no trace in either.",
     ["histories", "configurations", "fault_sequences"], "every sequence of full, incremental, safe and parallel evaluations, with failures and refusals in between, and every run of every algorithm",
     "The tests check the final value of a few runs; the point recorded for an incremental evaluation, the order of ties and what a failure leaves behind are never observed.",
     [CTRL, CTRLC, "lib/hnco/app/decorated-function-factory.cc"],
     [("ProgressTracker::update_last_improvement", CTRLC), ("ProgressTracker::evaluate, evaluate_incrementally, update", CTRLC)],
     [("_last_improvement", "best solution and when it was found", CTRL), ("_num_calls", "evaluations so far", CTRL)], ["get_num_calls", "get_last_improvement", "standard output"])
check("H03", "Non-trivial: at least one evaluation was tracked.", [240000, 150], [4000000, 2400],
      "Seeded search; tracker compared with a reference model after every operation.")

prop("H04", "A run stops on its target exactly when the target is reached",
     "If a target is set, the first evaluation whose value reaches it ends the run at once, and no evaluation below it does. The solution then handed over is the point that reached the target, with its value.",
     ["histories", "configurations", "fault_sequences"], "every sequence of full, incremental and parallel evaluations, every landscape and target, every algorithm",
     "The tests stop on targets through full evaluation only, and check that a run stopped rather than what it handed over.",
     [CTRL, CTRLC, "lib/hnco/app/decorated-function-factory.cc", "app/hnco.cc"],
     [("StopOnTarget", CTRLC + ": throws TargetReached and keeps the trigger")], [("_trigger", "the solution that reached the target", CTRL)], ["exceptions thrown by evaluations", "get_trigger"])
check("H04", "Non-trivial: a run or operation was stopped by its target.", [240000, 150], [4000000, 2400],
      "Seeded search; decided for every single operation against the true value of its point.")

prop("H05", "A cached value is the true value and costs no second evaluation",
     "With the cache on, every request returns the true value of its point; a point evaluated once is never computed again, and a point that was never evaluated is never answered from the cache, even after failing or refused evaluations. "
     "The lookup ratio reported is the fraction of requests answered from the cache.",
     ["histories", "configurations", "fault_sequences"], "every sequence of requests over colliding and fresh points, with failing and refused evaluations in between, and every run of every algorithm",
     "The tests ask a few points twice; they do not fail an evaluation half way, exhaust a budget inside the cache, or mix in parallel updates.",
     [CTRL, CTRLC, "lib/hnco/app/decorated-function-factory.cc"],
     [("Cache::evaluate, Cache::update", CTRLC)], [("_cache", "values of the points met so far", CTRL)], ["values returned", "computations of the objective function", "get_lookup_ratio"])
check("H05", "Non-trivial: at least one request was answered from the cache.", [240000, 150], [4000000, 2400],
      "Seeded search against a reference model of the cache.")

prop("H17", "Recorded evaluation time is the time spent in evaluations",
     "When time recording is on, the evaluation time reported is the sum of the durations of the full evaluations carried out through the tracker, for every clock behaviour, and never decreases.",
     ["histories", "fault_sequences"], "every sequence of evaluations, with evaluations of any duration, coarse clocks and failing evaluations",
     "Tests run on the real clock and cannot compare the sum with anything.",
     [CTRL, CTRLC], [("ProgressTracker::evaluate", CTRLC + ": stop watch around the evaluation"), ("StopWatch", "lib/hnco/stop-watch.hh")],
     [("_stop_watch", "accumulated time", CTRL)], ["get_evaluation_time"])
check("H17", "Non-trivial: at least one timed evaluation. The CPU clock is simulated: it advances by the simulated cost of each evaluation and by a tick per reading.", [160000, 100], [2400000, 1500],
      "Seeded search on a simulated clock.")

# ------------------------------------------------------------------------------------------------ algorithms
ALGF = [ALG + "algorithm.hh", ALG + "algorithm.cc", "lib/hnco/app/algorithm-factory.cc"]
prop("H06", "The solution an algorithm hands over was evaluated and has its true value",
     "Whenever a run ends, because the algorithm finished or because the budget ran out at whatever evaluation, the solution it hands over is a point which that run evaluated, and the value reported with it is the value of that point.",
     ["inputs", "configurations", "crash_points"], "every algorithm with every parameter setting, every landscape, every evaluation at which the run can be interrupted",
     "Tests run each algorithm to a known optimum or to a fixed budget on OneMax-like functions; the state between two generations, ties, negative or fractional values, and tiny budgets are not reached.",
     ALGF + [ALG], [("Algorithm::update_solution, set_solution, random_solution", ALG + "algorithm.cc"), ("finalize", "each algorithm: picks the solution after an interruption")],
     [("_solution", "solution handed over", ALG + "algorithm.hh")], ["get_solution after finalize", "computations of the objective function"])
check("H06", "Non-trivial: the run evaluated something and handed over a solution. 31 algorithms, 14 landscapes, the budget cuts the run at a seeded evaluation.", [240000, 150], [4000000, 2400],
      "Seeded search over interruption points; oracle: ledger of every computation of the objective function.")

prop("H07", "The best point evaluated is never lost",
     "The solution handed over at the end of a run is at least as good as every point evaluated by that run, except, if the run was interrupted, points of the generation which the interruption left unfinished.",
     ["inputs", "configurations", "crash_points"], "every algorithm which keeps a best solution, every landscape, every interruption point",
     "Tests compare final values to an optimum that is found anyway; losing the best point between generations goes unnoticed as long as the run finds it again.",
     ALGF + [ALG], [("update_solution", ALG + "algorithm.cc"), ("per-algorithm bookkeeping of the best solution", ALG)],
     [("_solution", "best so far", ALG + "algorithm.hh")], ["get_solution after finalize", "computations of the objective function"])
check("H07", "Non-trivial: as for H06. The (mu,lambda)-type crossover-only algorithm 450 is excluded: it forgets by definition.", [240000, 150], [4000000, 2400],
      "Seeded search; oracle: maximum over the ledger, minus at most one unfinished generation when interrupted.")

prop("H08", "Restarting never loses what an earlier run found",
     "An algorithm restarted until it is interrupted reports a solution that was evaluated, with its true value, at least as good as what every completed run handed over and as what the interrupted run would have handed over.",
     ["histories", "configurations", "crash_points"], "every restarted algorithm, every number of restarts, every interruption point",
     "The only test of restart checks that an easy function is solved.",
     [ALG + "decorators/restart.hh", ALG + "decorators/restart.cc", ALG + "algorithm.cc"], [("Restart::iterate, Restart::finalize", ALG + "decorators/restart.cc")], [("_solution", "best over all runs", ALG + "algorithm.hh")], ["get_solution after finalize"])
check("H08", "Non-trivial: at least two runs were started before the interruption.", [160000, 120], [2400000, 1800],
      "Seeded search; oracle: solutions recorded by a probe between the restart loop and the real algorithm.")

prop("H09", "The same seed gives the same run",
     "A run is determined by its options and its seed: evaluations, their order, the solution and the statistics do not depend on the clock, on other sources of entropy, on the content of uninitialised memory, on addresses, on random numbers drawn before the seed was set, or on other runs made earlier in the same process.",
     ["configurations", "schedules", "inputs"], "every algorithm, function and option; every environment",
     "Running a test twice on the same machine samples one environment: stable addresses, zeroed pages, the same clock second.",
     ["lib/hnco/random.hh", "lib/hnco/random.cc", ALG], [("Generator::set_seed, reset", "lib/hnco/random.cc")], [("engine", "the only source of randomness", "lib/hnco/random.cc")],
     ["history of evaluations", "get_solution"])
check("H09", "Each run is executed twice, in two environments: other clock, other entropy source, other heap and stack content, other allocation addresses, other thread schedule. Non-trivial: more than one evaluation.", [100000, 150], [1500000, 2400],
      "Seeded search over pairs of environments.")

prop("H10", "An algorithm can run again after any end of an earlier run",
     "An algorithm object that was run before, and whose runs ended by returning, by the budget, by the target or by a failing evaluation, runs on another function like a new one: it hands over only what the new run evaluated, with true values, and on functions without ties behaves exactly like a new object.",
     ["histories", "crash_points", "configurations"], "every algorithm, every number of earlier runs, every point at which they were cut short",
     "Tests make one object per run; restart tests do not look at what is carried over.",
     ALGF + [ALG + "decorators/restart.cc"], [("init", "each algorithm: resets its state at the start of a run")], [("populations, counters, models", "state to be reset", ALG)], ["history of evaluations", "get_solution"])
check("H10", "Non-trivial: the last run made more than one evaluation.", [100000, 150], [1500000, 2400],
      "Seeded search; oracle: a fresh object run in a forked process with the same seed.",
      assumptions=["Exact equality with a new object is demanded on the landscape without ties only, and not of the genetic algorithm 400, which draws tournaments from the order its population was left in, nor of the two-rate EA 330 once it evaluates a point twice."])

prop("H19", "Every run ends, and ends when told to",
     "Every algorithm comes to an end once its budget is used up, its target is met or its number of iterations is reached, neither earlier nor later: an algorithm whose iterations take a fixed number of evaluations makes exactly those; a search with limited patience gives up when that is at an end, a hill climber in a local maximum; it makes no further evaluation after it was told to stop, and does not report a stop as a normal end.",
     ["inputs", "configurations", "crash_points"], "every algorithm, parameter setting, landscape (flat ones included) and stopping condition",
     "Tests cannot show the absence of an endless loop on inputs they do not try, such as flat or tied landscapes, tiny dimensions and populations of one.",
     ALGF + [ALG, "app/hnco.cc"], [("IterativeAlgorithm::loop", ALG + "iterative-algorithm.cc"), ("exceptions LastEvaluation and TargetReached", "lib/hnco/exception.hh")], [], ["evaluations after a stop", "CPU time used"])
check("H19", "Non-trivial: every completed run. Liveness bound: 60000 evaluations or 20 s of CPU time without coming to an end.", [240000, 150], [4000000, 2400],
      "Seeded search; bounded liveness.")

prop("H20", "Running out of memory is reported and leaves no damage",
     "If an allocation fails at any point of a run, the run ends with an out-of-memory error and with nothing else: no crash, no endless loop, no wrong result. A later run of the same algorithm, with memory available again, behaves as it should.",
     ["crash_points", "configurations", "fault_sequences"], "every algorithm and every allocation it makes",
     "Allocations do not fail in tests.",
     [ALG, "lib/hnco/functions"], [("exception safety of containers and algorithms", ALG)], [], ["exception leaving maximize", "solution of the next run"])
check("H20", "Non-trivial: the planned allocation failure fired. The allocation which fails is drawn from the first 6000 of the run.", [160000, 120], [2400000, 1800],
      "Seeded search over failing allocations, one per run; sequential runs only.", level="fault_enumeration")

exec(open(os.path.join(V, "sim/meta2.py")).read()) if os.path.exists(os.path.join(V, "sim/meta2.py")) else None

COMMON = {
    "common_rule": "One evaluation is one simulated run in a fresh process forked from the simulator, generated from a seeded stream: configuration, input, operations, schedule and faults are all part of its plan.",
    "common_measure": "number of distinct signatures among non-trivial runs; a signature hashes the configuration class, the outcome and the event sequence reached (for parallel runs also the interleaving)",
    "common_real": ["libhnco from /repo's working tree: options, factories, functions, controllers, algorithms, vendored P3/HBOA/LTGA and GOMEA"],
    "common_stub": ["OpenMP runtime (simulated threads under a seeded scheduler)", "clocks, entropy, process ids", "heap (seam for failing allocations)", "files under /sim/ (simulated disk)", "objective function (simulated, with a ledger)"],
    "common_assumptions": ["g++ 13, -O1 -D_GLIBCXX_ASSERTIONS; the Python functions are not built", "a violation is reported only if the same plan fails twice in the search and its minimised replay file fails again in a fresh process"],
}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for k in sorted(P):
            assert k in C or k in NA, k
            assert len(P[k]["title"]) <= 80, k
            f.write(json.dumps(P[k]) + "\n")
    d = dict(COMMON)
    d["properties"] = {k: {x: y for x, y in C[k].items() if x not in ("note", "technique")} for k in sorted(C)}
    json.dump(d, open(os.path.join(V, "sim/props.json"), "w"), indent=1)
    m = {"version": 1, "setup_cmd": "python3 check.py --setup",
         "hooks": {"guard": "HNCO_SIM", "enable": "the checks compile /repo's sources with -DHNCO_SIM=1; no source of /repo tests it: every seam is at link level", "source_commits": []},
         "checks": [{"property": k, "quick_cmd": "python3 check.py %s quick" % k, "thorough_cmd": "python3 check.py %s thorough" % k,
                     "technique": C[k]["technique"], "level": C[k]["level"], "level_note": C[k]["note"], "evidence_file": "evidence/%s.json" % k} for k in sorted(C)],
         "not_applicable": [{"property": k, "reason": NA[k]} for k in sorted(NA)]}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    try:
        import jsonschema
        s = json.load(open("/root/.vp/MANIFEST.schema.json"))
        jsonschema.validate(m, s)
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for k in P: jsonschema.validate(P[k], s)
        print("schemas ok", len(P), "properties")
    except ImportError:
        pass


if __name__ == "__main__":
    main()
