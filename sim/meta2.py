# ------------------------------------------------------------------------------------------------ parallel evaluation
prop("H01", "Parallel evaluation gives the same run as sequential evaluation",
     "With any number of threads and under any thread schedule, a run makes the same evaluations with the same values in the same order, ends the same way and hands over the same solution as with one thread. "
     "Threads never access the same memory without synchronisation, no function object is used by two threads at once, no schedule blocks, and an evaluation that fails in a thread is reported like one that fails without threads.",
     ["schedules", "configurations", "fault_sequences"], "every algorithm that evaluates populations, every function and modifier, every number of threads asked for and delivered, every interleaving",
     "A test with threads samples a handful of the schedules of one machine; a race or a result that depends on the order of threads shows up once in a thousand runs, if at all.",
     ["lib/hnco/algorithms/population.cc", "lib/hnco/multiobjective/algorithms/population.cc", "lib/hnco/functions", "app/hnco.cc"],
     [("Population::evaluate_in_parallel", "lib/hnco/algorithms/population.cc and lib/hnco/multiobjective/algorithms/population.cc"), ("one function object per thread", "lib/hnco/app/application.cc")],
     [("values", "written by the threads", "lib/hnco/algorithms/population.hh")], ["history of evaluations", "get_solution", "every memory access of the library (instrumented build)"])
check("H01", "Each run executes an algorithm, or evaluates populations of a real function, on simulated threads under a seeded schedule and compares with sequential execution; a happens-before detector watches every access. Non-trivial: at least one preemption.",
      [100000, 150], [1500000, 2400], "Seeded search over schedules, preempting at any instrumented memory access (random, priority-based and run-to-completion schedulers).", variant="inst",
      technique="deterministic simulation: seeded schedules of simulated OpenMP threads, refinement against the sequential run, happens-before race detection",
      measure="number of distinct signatures among non-trivial runs; the signature hashes every context switch (yield index and thread)",
      assumptions=["OpenMP constructs are simulated with static, dynamic and guided work sharing as libgomp defines them", "races inside uninstrumented library code (libstdc++ binaries, libc) are not seen"])

# ------------------------------------------------------------------------------------------------ objects with a history
prop("H15", "Moves report exactly the bits they flip, and enumerations are complete",
     "A neighbourhood's proposal differs from the current point in exactly the bits it reports, each reported once, in a number allowed by the neighbourhood, and keeping, forgetting or abandoning proposals at any point leaves the current point what the caller made it. Whatever happened before, no bit is flipped more often than another, and on average as many are flipped as the rate or radius says. "
     "A neighbourhood iterator visits every neighbour exactly once and none twice, also after an enumeration was abandoned and the iterator given a new centre; a hypercube iterator likewise visits every point.",
     ["histories", "inputs"], "every neighbourhood, size, radius and rate; every sequence of proposals, acceptances, rejections, changes of rate and abandoned enumerations",
     "The tests propose from one centre in one pattern of use.",
     ["lib/hnco/neighborhoods/neighborhood.hh", "lib/hnco/neighborhoods/neighborhood.cc", "lib/hnco/neighborhoods/neighborhood-iterator.hh", "lib/hnco/neighborhoods/neighborhood-iterator.cc", "lib/hnco/iterator.cc"],
     [("propose, keep, forget, mutate", "lib/hnco/neighborhoods/neighborhood.hh"), ("has_next, next, set_origin", "lib/hnco/neighborhoods/neighborhood-iterator.cc")],
     [("_origin, _candidate, _flipped_bits", "the move under consideration", "lib/hnco/neighborhoods/neighborhood.hh")], ["get_origin", "get_candidate", "get_flipped_bits", "get_current"])
check("H15", "Non-trivial: at least one move or neighbour was checked.", [160000, 100], [2400000, 1500],
      "Seeded search over histories of one object; oracle: recomputed difference between points, binomial counts.", stub=["OpenMP runtime", "clocks, entropy", "heap", "files"], real=["lib/hnco/neighborhoods"])

prop("H16", "An objective function has no memory",
     "The value of a point, its description and the display of the function depend on the function's options and instance only: not on what was evaluated, updated, displayed or described before, by which object made from the same options, through plain, safe or incremental evaluation, nor on an evaluation that ran out of memory on the way, nor on what happens to the instance file later.",
     ["histories", "configurations", "fault_sequences"], "every function of the catalogue without noise, and functions of variables of all types through the universal adapters, with every modifier, every sequence of calls on several objects",
     "Tests evaluate a point once, on a new object.",
     ["lib/hnco/functions", "lib/hnco/app/function-factory.cc", "lib/hnco/app/decorated-function-factory.cc"],
     [("evaluate, evaluate_safely, evaluate_incrementally", "lib/hnco/functions/function.hh and each function"), ("scratch members of functions", "lib/hnco/functions/collection")],
     [("intermediate results kept in members", "buffers reused between evaluations", "lib/hnco/functions/collection")], ["values returned"])
check("H16", "Non-trivial: at least one value was compared. Functions of permutations order equal sort keys at random by design and are compared under equal random numbers.", [160000, 120], [2400000, 1500],
      "Seeded search over call histories; oracle: a new object for each point.", measure="number of distinct (function, instance, call history) among non-trivial runs", stub=["OpenMP runtime", "clocks, entropy", "heap (failing allocations)", "files under /sim/ (instances)"],
      real=["functions, modifiers and factories of libhnco"])

prop("H18", "Multiobjective runs hand over the true non-dominated front",
     "What NSGA-II hands over are points which that run evaluated, with their true values, none dominating another; as long as the non-dominated points found fit in the population none of them is lost; what survives an iteration are the best fronts of parents and offspring, and of the first that does not fit the points with the largest crowding distances; parents are winners of tournaments, where a better front and then a larger crowding distance wins; a run makes exactly one population of evaluations per iteration plus one; "
     "without crossover and mutation no new point appears. All of this holds again for a second run of the same object, also after a run that was cut short by a failing evaluation.",
     ["histories", "inputs", "crash_points"], "every population and tournament size, crossover and mutation rate, every number of iterations and runs, every failing evaluation",
     "The only tests of this part compare front computations on random values; no run is looked at.",
     ["lib/hnco/multiobjective/algorithms/nsga2.cc", "lib/hnco/multiobjective/algorithms/nsga2.hh", "lib/hnco/multiobjective/algorithms/pareto-front-computation.cc", "lib/hnco/multiobjective/algorithms/population.hh"],
     [("Nsga2::init, iterate, finalize", "lib/hnco/multiobjective/algorithms/nsga2.cc"), ("Nsga2ParetoFrontComputation", "lib/hnco/multiobjective/algorithms/pareto-front-computation.cc")],
     [("_solutions", "front handed over", "lib/hnco/multiobjective/algorithms/nsga2.hh")], ["get_solutions", "computations of the objective functions"])
check("H18", "Non-trivial: a completed run with at least one iteration.", [160000, 120], [2400000, 1500],
      "Seeded search; oracle: ledger of evaluations and a direct computation of the non-dominated set.", real=["lib/hnco/multiobjective/algorithms"])

prop("H21", "Selection keeps its rule: tournaments without replacement, given probabilities",
     "Every individual selected has won a tournament of the given size: in one pass over the population no individual takes part in two tournaments, each winner is at least as good as the other participants, and if the population divides into tournaments the best individual is always selected. This holds across passes, generations and passes abandoned half way. Uniform, fitness-proportionate and Boltzmann selection select each individual with the probability that the rule gives it in the current population, and one of probability zero never.",
     ["histories", "inputs"], "every population, tournament size and value distribution, every sequence of selections and re-initialisations",
     "No test selects more than once or looks at the order of passes.",
     ["lib/hnco/multiobjective/algorithms/random-selection.hh", "lib/hnco/algorithms/evolutionary-algorithms/random-selection.cc"],
     [("TournamentSelection::select, init", "lib/hnco/multiobjective/algorithms/random-selection.hh")],
     [("_permutation, _start, _stop", "position in the pass", "lib/hnco/multiobjective/algorithms/random-selection.hh")], ["select"])
check("H21", "Non-trivial: at least one complete pass or random selection. Selections are refused if another distribution is e^36 times more likely.", [160000, 100], [2400000, 1500],
      "Seeded search; oracle: counting argument over the winners of each pass, independent of how tournaments are drawn.", real=["selections of both parts of the library"], stub=["OpenMP runtime", "clocks, entropy", "heap", "files"])

# ------------------------------------------------------------------------------------------------ what an algorithm does with its evaluations
prop("H23", "Models and rates are learnt from the samples, and logged truthfully",
     "After every iteration, the probability vector of PBIL, NPS-PBIL, UMDA, compact GA, MMAS and RAM-UMDA 2 is the one its update rule yields from the points it sampled and their values (PBIL: a step of the learning rate towards the mean of the best; NPS-PBIL: along the difference between the means of the best and of the worst; UMDA, RAM-UMDA 2: the mean of the best; compact GA: along winner minus loser; MMAS: a step towards the best point so far), within its bounds, and the points sampled next follow it. "
     "So is the mutation rate of the self-adjusting (1+1) EA, of the two-rate EA and of the information-theoretic EA, with the latter's centre, and mutants differ from their parents as the rate says. What a run logs - number of evaluations, last improvement, probability vector, entropy, mutation rate, centre, value of a random walk, one line for each iteration - is what its evaluations imply.",
     ["histories", "configurations", "schedules"], "every run of these algorithms: every landscape, population and selection size, learning rate, bounds, number of threads and iterations",
     "No test looks at a model. A model that learns from the wrong individuals still finds solutions, only more slowly.",
     ["lib/hnco/algorithms", "lib/hnco/logging"],
     [("update_pv, pv_update, pv_add_half, pv_uniform", "lib/hnco/algorithms/probability-vector"), ("update rules of rates", "lib/hnco/algorithms/evolutionary-algorithms"), ("log, set_something_to_log", "lib/hnco/algorithms/iterative-algorithm.hh")],
     [("_pv, _mean_selection, _mutation_rate, _center", "what has been learnt so far", "lib/hnco/algorithms")], ["log written to standard output", "history of evaluations"])
check("H23", "Non-trivial: at least one iteration was completed. Where ties leave the selected individuals open, the model logged is taken over. Samples must lie within 12 standard deviations of the model.", [160000, 120], [2400000, 1800],
      "Seeded search; refinement: an executable model of each update rule that sees nothing but the evaluations predicts the log of the real run, iteration by iteration.",
      technique="deterministic simulation: refinement of each run against an executable model of the update rule")

prop("H24", "Local search moves only from the point accepted last",
     "Every point that random local search, the (1+1) EA, its self-adjusting variant, a random walk, a hill climber or simulated annealing evaluates after its first is a neighbour, in the neighbourhood asked for, of the current point, and the current point changes only as the acceptance rule says (not worse, or better if strict; steepest ascent: to a best neighbour, if better; first ascent: to the first better one). "
     "A hill climber evaluates no neighbour twice in one step, ends in a local maximum and not before, unless its iterations are used up; random local search gives up after exactly its patience of failures in a row. Simulated annealing accepts a worse point with probability exp(beta * difference), beta starting so that the mean deterioration of its trials has the initial probability and growing by its ratio after each series of such acceptances. Complete search evaluates each point once; random search draws fair bits. In the (1+(lambda,lambda)) GA all mutants of a generation are equally far from the current point, and its offspring mix the current point with a best mutant as its bias says; on average the (1+1) EA and random moves flip as many bits as their rate or radius says.",
     ["histories", "configurations"], "every run of these algorithms: every landscape, neighbourhood, radius, strictness, patience, number of iterations, with full and incremental evaluation",
     "No test follows the moves of a run; a climber that moves wrongly still climbs.",
     ["lib/hnco/algorithms/local-search", "lib/hnco/algorithms/evolutionary-algorithms", "lib/hnco/neighborhoods"],
     [("iterate", "lib/hnco/algorithms/local-search and lib/hnco/algorithms/evolutionary-algorithms"), ("propose, keep, forget", "lib/hnco/neighborhoods/neighborhood.hh")],
     [("_solution, _num_failures, _neighborhood", "the current point and the move under way", "lib/hnco/algorithms/local-search")], ["history of evaluations", "get_solution"])
check("H24", "Non-trivial: at least two evaluations. Where equal values leave the next point open, every possibility is followed.", [160000, 120], [2400000, 1800],
      "Seeded search; refinement: the set of possible current points is carried along the history of evaluations and must never become empty.",
      technique="deterministic simulation: refinement of each run against a nondeterministic model of the acceptance rule")

prop("H25", "Generations descend from the parents that selection left",
     "In the (mu+lambda) EA, the (mu,lambda) EA and the genetic algorithm, every offspring differs from the parent it was made from (genetic algorithm: from every mix of parents, if there is crossover) by no more bits than the mutation rate can explain. "
     "The parents are the mu best of parents and offspring in the (mu+lambda) EA, and the mu best offspring in the two others; the parents of the genetic algorithm moreover have won a tournament of the given size.",
     ["histories", "configurations", "schedules"], "every run of these algorithms: every landscape, population size, mutation rate and crossover probability, number of threads",
     "No test looks at populations; selection that keeps the wrong individuals still makes progress.",
     ["lib/hnco/algorithms/evolutionary-algorithms", "lib/hnco/algorithms/population.cc"],
     [("iterate", "lib/hnco/algorithms/evolutionary-algorithms"), ("CommaSelection, PlusSelection", "lib/hnco/algorithms/evolutionary-algorithms/selection.hh"), ("Population::sort, partial_sort", "lib/hnco/algorithms/population.cc")],
     [("_parents, _offsprings", "the populations", "lib/hnco/algorithms/evolutionary-algorithms")], ["history of evaluations"])
check("H25", "Non-trivial: at least one offspring of known parents. Mutation rate 0.004, so that more bits than a small bound are never flipped (probability below 1e-13); where equal values leave the parents open, all candidates count as parents.", [160000, 120], [2400000, 1800],
      "Seeded search; refinement: the set of possible parents is carried along the history of evaluations and every offspring must descend from it.",
      technique="deterministic simulation: refinement of each run against a nondeterministic model of the selection rule")

# ------------------------------------------------------------------------------------------------ dialogue, noise, interactions
prop("H26", "Interactive search evaluates what the user types and always ends",
     "In an interactive search, each bit vector the user types is evaluated once, in the order typed, and its true value is answered; one that is too short is refused with a warning and not evaluated, one that is too long is cut to its first bits with a warning. "
     "The search ends when the user quits or the input ends, at any point, when the budget or the iterations are used up or the target is reached, and hands over the best point typed.",
     ["histories", "crash_points"], "every sequence of lines typed, every point at which the input ends or the user quits, every budget, target, number of iterations and failing evaluation",
     "No test types anything.",
     ["lib/hnco/algorithms/human.cc", "lib/hnco/algorithms/human.hh"],
     [("Human::parse_bit_vector, init, iterate", "lib/hnco/algorithms/human.cc")],
     [("_candidate", "the point typed last", "lib/hnco/algorithms/human.hh")], ["standard output", "history of evaluations", "get_solution"])
check("H26", "Non-trivial: at least one point was evaluated.", [100000, 100], [2000000, 1200],
      "Seeded search over dialogues of a simulated user; oracle: the dialogue as the lines typed imply it.", stub=["user (standard input and output)", "objective function", "OpenMP runtime", "clocks, entropy", "heap"], real=["interactive search, controllers and factories of libhnco"],
      technique="deterministic simulation: simulated user whose input may end at any point, dialogue compared with an executable model")

prop("H27", "Noise is drawn anew for each evaluation, from the distribution asked for",
     "With prior noise, each evaluation returns the value of one neighbour of the point, in the neighbourhood asked for, computed once; bits are flipped equally often and as many as the rate or radius says. Additive noise has mean 0 and the standard deviation asked for, and is added to the value after minimisation turned its sign. "
     "The point given is never changed, noise is drawn anew for each evaluation whatever was evaluated before, by other objects or with a failure, and the same seed gives the same noise.",
     ["histories", "configurations"], "every neighbourhood, rate, radius and standard deviation, every sequence of evaluations on several objects, with and without controllers, with failing evaluations",
     "No test looks at noise, and noise that is wrong goes unnoticed in any single evaluation.",
     ["lib/hnco/functions/modifiers/prior-noise.cc", "lib/hnco/functions/modifiers/prior-noise.hh", "lib/hnco/functions/modifiers/modifier.hh", "lib/hnco/functions/modifiers/modifier.cc", "lib/hnco/app/decorated-function-factory.cc"],
     [("PriorNoise::evaluate", "lib/hnco/functions/modifiers/prior-noise.cc"), ("AdditiveGaussianNoise::evaluate", "lib/hnco/functions/modifiers/modifier.cc"), ("make_prior_noise_neighborhood, make_function_modifier", "lib/hnco/app/decorated-function-factory.cc")],
     [("_noisy_bv", "the neighbour evaluated last", "lib/hnco/functions/modifiers/prior-noise.hh")], ["values returned", "points at which the function was computed"])
check("H27", "Non-trivial: at least one evaluation. Statistical checks allow deviations of 12 standard deviations, or likelihood ratios of e^36.", [100000, 100], [2000000, 1200],
      "Seeded search over histories of noisy evaluations; oracle: the ledger of points at which the function was computed, and the distribution asked for.", stub=["objective function", "clocks, entropy", "heap", "files"], real=["modifiers, neighbourhoods, generator and factories of libhnco"])

prop("H28", "Models of interactions are learnt from the samples, and samples follow them",
     "After every iteration the target moment of HEA has moved by the learning rate towards the moment of the selected points, within its bounds; the parameters of BM-PBIL have moved along the difference between the moments of the best points and of all (or of the worst); the chain of MIMIC has the smallest entropy at its root and the smallest conditional entropy at each further link, with the frequencies of the selected points. "
     "The points sampled next follow that model: those of HEA reduce the discrepancy between target and samples since the last reset, bit by bit; those of BM-PBIL have the distribution of its Gibbs sampler, in the sampling and reset mode asked for; those of MIMIC have the probabilities of its chain. Target moment, norms, herding error, number of evaluations and last improvement are logged truthfully, once for each iteration.",
     ["histories", "configurations", "schedules"], "every run of these algorithms: every landscape, population and selection size, learning rate, sampling and reset mode, number of threads and iterations, with full and triangular moments",
     "No test looks at a model. A model that learns from the wrong individuals still finds solutions, only more slowly.",
     ["lib/hnco/algorithms/walsh-moment", "lib/hnco/algorithms/mimic.cc", "lib/hnco/algorithms/mimic.hh"],
     [("Hea::iterate, log", "lib/hnco/algorithms/walsh-moment/hea.hh"), ("sample, error", "lib/hnco/algorithms/walsh-moment/herding.cc"), ("BmPbil::iterate, sample", "lib/hnco/algorithms/walsh-moment/bm-pbil.hh"), ("update, update_sync", "lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc"), ("Mimic::update_model, sample", "lib/hnco/algorithms/mimic.cc")],
     [("_target, _count, _time", "target moment and samples so far", "lib/hnco/algorithms/walsh-moment"), ("_model_parameters, _state", "Boltzmann machine", "lib/hnco/algorithms/walsh-moment/bm-pbil.hh"), ("_permutation, _parameters", "chain", "lib/hnco/algorithms/mimic.hh")], ["log written to standard output", "history of evaluations"])
check("H28", "Non-trivial: at least one iteration was completed. Once a tie leaves the selected points open, the model is no longer predicted; where entropies tie, every chain is admitted. The exact distribution of the Gibbs sampler is computed up to 5 bits. Samples are refused if another distribution is e^36 times more likely.", [100000, 150], [2000000, 1800],
      "Seeded search; refinement: an executable model of each learning rule that sees nothing but the evaluations predicts the log and the distribution of the next samples.",
      technique="deterministic simulation: refinement of each run against an executable model, likelihood-ratio martingales for samples")

# ------------------------------------------------------------------------------------------------ files
IO_REAL = ["load and save of functions, maps and representations, iostreams and boost archives above the system calls"]
APP_STUB = ["OpenMP runtime (simulated threads under a seeded scheduler)", "clocks, entropy", "heap", "files under /sim/ (simulated disk with faults)"]
prop("H11", "What was saved is what is loaded, and a failed save is reported",
     "A function instance or map whose save succeeded and which is loaded again, by the same or a later process, has the same values everywhere as the one saved. "
     "If the file could not be written completely, for whatever reason and at whatever point, save fails with an error instead of reporting success; an object is never changed by saving it, and loading one file is not influenced by others.",
     ["crash_points", "fault_sequences", "histories"], "every class with load and save, every random instance, every sequence of create, save, load and restart, every failing, short or interrupted open, write or close, every disk size, every crash point",
     "Tests save to a disk that never fails and load in the same process right afterwards.",
     ["lib/hnco/serialization.hh", "lib/hnco/functions/collection", "lib/hnco/maps", "lib/hnco/permutation.cc"],
     [("save_to_archive, load_from_archive", "lib/hnco/serialization.hh"), ("text formats", "lib/hnco/functions/collection/max-sat.hh, sudoku.hh"), ("serialize of members", "each class")],
     [("file content", "what survives a crash", "simulated disk")], ["load, save: values after loading, exceptions"])
check("H11", "Non-trivial: something was loaded and compared, or a save failed. Reference model: per path the set of contents it may have after the writes, failures and crashes so far.", [60000, 120], [1000000, 1800],
      "Seeded search over histories of create, save, load and process restart on a simulated disk with faults; oracle: the object kept in memory, evaluated at all points or a sample.", stub=APP_STUB, real=IO_REAL,
      technique="deterministic simulation: simulated disk with faults and crashes, history checked against the objects saved")

prop("H12", "A file that cannot be read or is damaged never loads as something else",
     "Loading an instance, map, expression or solution either gives exactly what the file says or fails with an error: read errors, truncated files and malformed content end in an error, never in a hang, a crash, an object with undetermined content or one that differs from the file. "
     "Short and interrupted reads make no difference.",
     ["fault_sequences", "inputs"], "every class and format that can be loaded, every failing or short read, every truncation, every damage to the documented text formats and to maps",
     "Tests load files just written, complete and intact.",
     ["lib/hnco/serialization.hh", "lib/hnco/functions/collection/max-sat.cc", "lib/hnco/functions/collection/qubo.cc", "lib/hnco/functions/collection/tsp.cc", "lib/hnco/maps/map.hh", "lib/hnco/maps/transvection.hh", "lib/hnco/app/parser.cc", "lib/hnco/app/decorated-function-factory.cc"],
     [("load_, load", "lib/hnco/functions/collection"), ("load of maps", "lib/hnco/maps/map.hh"), ("read_file_content", "lib/hnco/app/parser.cc")],
     [("_num_clauses, _q, _distances, ...", "parsed instance", "lib/hnco/functions/collection")], ["load: values after loading, exceptions, termination"])
check("H12", "Non-trivial: a fault fired or the file was damaged. Where a boost archive of a function carries no redundancy, damage inside it is not judged.", [80000, 120], [1500000, 1800],
      "Seeded search over files, damage and read faults; oracle: the undamaged object, independent readers of the MaxSat, Qubo and Tsp formats, and agreement of two loads into differently filled memory.", stub=APP_STUB, real=IO_REAL,
      technique="deterministic simulation: simulated disk with read faults and damaged files, refinement against independent readers")

# ------------------------------------------------------------------------------------------------ applications
prop("H13", "The applications write complete files or end with an error",
     "If hnco, ffgen or mapgen ends with the status it has when nothing fails, every file it was told to write is there and complete. If a file cannot be opened, written or closed, the application ends with status 1 and a message; it never crashes or hangs, and short or interrupted writes make no difference.",
     ["fault_sequences", "configurations"], "every file the applications write, every command line, every failing, short or interrupted system call, every disk size",
     "No test makes a write fail, and the status of the applications is what scripts rely on.",
     ["lib/hnco/app/application.cc", "app/ffgen.cc", "app/mapgen.cc", "lib/hnco/serialization.hh", "app/hnco.cc"],
     [("print_results, manage_solution", "lib/hnco/app/application.cc"), ("generate_function", "app/ffgen.cc"), ("generate_map", "app/mapgen.cc")],
     [("files", "results, solution, description, instance, map", "simulated disk")], ["exit status", "standard error", "file contents"])
check("H13", "Each run executes the real main of an application in processes of its own: first without faults, then with. Non-trivial: a fault fired.", [24000, 150], [400000, 2400],
      "Seeded search over command lines and faults; oracle: the same command without faults.", stub=APP_STUB, real=["whole applications hnco, ffgen, mapgen: main, options, factories, library"],
      technique="deterministic simulation: whole applications on a simulated disk with faults, compared with the fault-free run")

prop("H14", "hnco reports truthfully: results, success, status, solution",
     "The results, solution and description that hnco prints and saves agree with each other and with the run: the value is that of the best evaluation, success and exit status say whether the goal was reached, the number of evaluations keeps to the budget, the solution has the right size and, loaded again, "
     "has the description and (for algorithms that keep their best point, or when the target was reached) the value reported, also through a map. What it says about the function is true, and the same command with the same seed says the same in any other process, clock and environment.",
     ["configurations", "schedules", "histories"], "every function of the catalogue with modifiers, maps and controllers, every algorithm, budget and goal, every number of threads",
     "Tests look at single classes; no test runs the application and checks what it says.",
     ["lib/hnco/app/application.cc", "lib/hnco/app/decorated-function-factory.cc", "lib/hnco/app/function-factory.cc", "lib/hnco/app/algorithm-factory.cc", "app/hnco.cc"],
     [("CommandLineApplication::maximize, print_results, manage_solution, load_solution, print_information", "lib/hnco/app/application.cc")],
     [("last improvement, trigger, solution", "sources of what is reported", "lib/hnco/app/application.cc")], ["standard output", "files written", "exit status"])
check("H14", "Each run executes the real main of hnco several times (run, run again in another environment, load the solution, ask about the function). Non-trivial: the run ended with status 0, 2 or 3.", [24000, 150], [400000, 2400],
      "Seeded search over command lines; oracle: consistency between the processes and a second evaluation of the saved solution.", stub=["OpenMP runtime", "clocks, entropy", "heap content and addresses", "files under /sim/ (simulated disk)"], real=["whole application hnco: main, options, factories, library"],
      technique="deterministic simulation: whole application in simulated environments, consistency of everything it reports")

prop("H22", "Parsed functions have the value of their expression, and hnco-mo a true front",
     "The objectives that hnco-mo prints for a point are the values of the expressions at the variables it prints, which lie in their domains; the front has no point that another clearly dominates, is the same in descriptions and front, and does not depend on the number of threads, the process or the environment. "
     "hnco, given the same expressions, reports the value of the point it describes, with variables in their domains. An expression or representation file that cannot be read ends in status 1 and a message, never in another front.",
     ["configurations", "fault_sequences", "schedules"], "every kind of parsed function, every expression built from sums of products, every domain, every population size and number of iterations, every read fault",
     "No test evaluates a parsed function or runs hnco-mo.",
     ["lib/hnco/multiobjective/app/application.cc", "lib/hnco/multiobjective/functions/collection/parsed-multivariate-function.hh", "lib/hnco/functions/collection/parsed-multivariate-function.hh", "lib/hnco/multiobjective/functions/multivariate-function-adapter.hh", "lib/hnco/app/make-multivariate-function-adapter.hh", "lib/hnco/app/parser.cc", "app/hnco-mo.cc"],
     [("parse, evaluate, describe", "lib/hnco/multiobjective/functions/collection/parsed-multivariate-function.hh"), ("manage_solutions", "lib/hnco/multiobjective/app/application.cc")],
     [("_names, _indices, _variables", "which variable of an expression is which", "lib/hnco/multiobjective/functions/collection/parsed-multivariate-function.hh")], ["standard output", "exit status"])
check("H22", "Each run executes the real main of hnco-mo several times and that of hnco. Non-trivial: the front has more than one point. Transcendental functions are not generated in expressions.", [24000, 150], [400000, 2400],
      "Seeded search over expressions, domains, options and read faults; oracle: the expression evaluated by the simulator at the variables printed. Values are compared with the six digits printed.", stub=APP_STUB, real=["whole applications hnco-mo and hnco: main, options, parser, factories, library"],
      technique="deterministic simulation: whole applications on a simulated disk with read faults, values recomputed independently")

prop("H29", "Random instances and maps are as asked for, whatever the object held before",
     "A random instance or map has the size and structure asked for: NK landscapes have distinct neighbours for each bit, clauses have the number of distinct literals asked for and a planted solution satisfies all of them, a random Sudoku can be solved and has the number of empty cells asked for, Ising models and Walsh expansions have exactly the interactions of their kind, a permutation is one, linear and affine maps are surjective where that is asked for, sequences of transvections have the length and satisfy the constraints asked for. "
     "Every coefficient comes from the generator given, and bits, signs and clauses are drawn evenly. None of this depends on what the object held before, nor on what else drew random numbers in between, and the same holds for what ffgen and mapgen write, which write the same file whenever they are given the same seed.",
     ["histories", "configurations"], "every class that can be generated at random, every size and parameter, every sequence of generations on one object, every seed",
     "Tests generate one instance in a new object and check little of it.",
     ["lib/hnco/functions/collection", "lib/hnco/functions/controllers", "lib/hnco/maps", "lib/hnco/permutation.cc", "app/ffgen.cc", "app/mapgen.cc"],
     [("generate, random", "lib/hnco/functions/collection"), ("random", "lib/hnco/maps/map.hh"), ("ts_random", "lib/hnco/maps/transvection.cc"), ("generate_function", "app/ffgen.cc"), ("generate_map", "app/mapgen.cc")],
     [("coefficients, clauses, neighbors, terms", "the instance", "lib/hnco/functions/collection")], ["values of the instance, display, files written"])
check("H29", "Each run generates a sequence of instances of one kind, mostly in the same object, of changing size, or runs ffgen or mapgen. Non-trivial: an object was generated again, or an application ran. Randomness is refused only if another distribution is e^36 times more likely.", [160000, 100], [2400000, 1500],
      "Seeded search over sequences of generations; oracle: the structure asked for, the values recomputed from what the coefficient generator handed out, and a new object with the same random numbers.", stub=APP_STUB, real=["random generation in functions and maps, ffgen, mapgen"],
      technique="deterministic simulation: histories of generations on one object under seeded randomness, compared with the structure asked for and a fresh object")

prop("H33", "No point is out of reach of a search that goes on",
     "Every global search (complete and random search, random walks, evolutionary algorithms, genetic algorithms, estimation of distribution algorithms with univariate or chain models, GOMEA, P3, NSGA-II) with its default rates and bounds, and every local search, HBOA and LTGA when restarted, sooner or later evaluates every point of a small search space, whatever the function is, also when an evaluation failed and the run had to be started again: no bit is frozen, no combination is left out, and so the maximum is found.",
     ["histories", "schedules", "fault_sequences"], "every algorithm, parameters, function, seed, schedule of parallel evaluation and point of failure",
     "Tests run a few algorithms on one easy function.",
     ["lib/hnco/algorithms", "lib/hnco/neighborhoods", "lib/hnco/multiobjective/algorithms", "lib/fast-efficient-p3", "lib/gomea"],
     [("init, iterate", "lib/hnco/algorithms"), ("sample_bits", "lib/hnco/neighborhoods/neighborhood.cc"), ("objectiveFunction", "lib/hnco/algorithms/gomea/hnco-fitness.hh"), ("iterate", "lib/hnco/multiobjective/algorithms/nsga2.cc")],
     [("_population, _pv, _candidate", "state of the search", "lib/hnco/algorithms")], ["points evaluated"])
check("H33", "Each run lets an algorithm search a space of 4 to 16 points (256 for the two-rate EA) until it has seen all of them, on a flat function, a needle or any other landscape, on simulated threads, with an evaluation that fails in a third of the runs. It fails after 40000 evaluations; the longest of 200000 runs took 1500 (7300 of 256 points). Non-trivial: all runs.", [200000, 100], [3000000, 1500],
      "Seeded search over algorithms, landscapes, schedules and failures; oracle: progress within a bound, the set of points evaluated. Where the chance of a point is bounded from below by the mutation rate or the margins, the bound leaves a false alarm a chance below e^-50.", real=["all algorithms, NSGA-II"],
      technique="deterministic simulation: liveness as progress within a bounded number of evaluations, over seeded algorithms, landscapes, schedules and failing evaluations")

# ------------------------------------------------------------------------------------------------ not applicable
PURE = "A pure function of its arguments: no concurrency, time, I/O, history or fault can influence it, so a simulator has nothing to decide (see DESIGN.md)."
prop("H30", "Linear algebra over bits is correct",
     "Matrix products, inverses, rank, decompositions and the composition of affine maps, permutations and transvections satisfy their defining equations, and random invertible maps are invertible.",
     ["inputs"], "every matrix and map", "Tests sample matrices of a few sizes.", ["lib/hnco/bit-matrix.cc", "lib/hnco/maps"], [("Gauss elimination, PLU decomposition", "lib/hnco/bit-matrix.cc")])
na("H30", PURE)
prop("H31", "Representations decode within their domain",
     "Every bit vector of the right size decodes to a value of the declared domain, and every value of the domain has a code.",
     ["inputs"], "every representation, bounds, precision and bit vector", "Tests sample representations and vectors.", ["lib/hnco/representations"], [("unpack", "lib/hnco/representations")])
na("H31", PURE)
prop("H32", "A declared maximum is the maximum",
     "Where a function says that its maximum is known, no bit vector has a greater value and at least one attains it.",
     ["inputs"], "every function with a known maximum, every size", "Tests sample points.", ["lib/hnco/functions"], [("get_maximum", "lib/hnco/functions")])
na("H32", PURE)
