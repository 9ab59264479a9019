"""Writes /verif/properties.jsonl (kept as a script so that statements are easy to edit and diff)."""
import json, os

A = "sawatabi/algorithm/abstract_algorithm.py"
ALGOS = ["sawatabi/algorithm/window.py", "sawatabi/algorithm/delta.py", "sawatabi/algorithm/incremental.py",
         "sawatabi/algorithm/partial.py", "sawatabi/algorithm/attenuation.py"]
L = "sawatabi/model/logical_model.py"
P = "sawatabi/model/physical_model.py"
CON = ["sawatabi/model/constraint/abstract_constraint.py", "sawatabi/model/constraint/n_hot_constraint.py",
       "sawatabi/model/constraint/equality_constraint.py", "sawatabi/model/constraint/zero_or_one_hot_constraint.py"]
SV = "sawatabi/solver/"

props = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    props.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


prop("C01", "Each window reaches the application once, with exactly its events in order",
     "For every streaming algorithm, every time window that received at least one on-time event, and that is not older than a window already handled, "
     "is handed to the application's map step exactly once, and map, solve and unmap of that window all receive the same element list. "
     "That list is sorted by event time (events of the same time in the order of their indices) and holds each element once, as (event time, (index, value)): exactly the on-time events whose timestamps lie in the window, "
     "for Incremental together with the elements of every window handled before, and for Partial together with those elements of the previously handled window that the filter accepts.",
     ["schedules", "inputs", "configurations", "crash_points"],
     "all arrival orders and delays, watermark advances, late events, window firing orders, bundle sizes, crash/retry points, window sizes/periods, and all five algorithms",
     "The tests push one bounded file in order through one runner with one bundle, and look at printed lines; they reach no out-of-order or late delivery, no re-bundling, no negative or fractional times.",
     [A] + ALGOS,
     [("windowing, timestamp tuple, combine-to-list", "sawatabi/algorithm/*.py create_pipeline"), ("sort and history merge", A + " SolveDoFn.process")],
     [("elements history", "elements of the last handled window, carried for Incremental/Partial", A + " SolveDoFn")],
     ["arguments of the application's map/solve/unmap callbacks"])

prop("C02", "Incoming/outgoing are the exact difference from what the previous model holds",
     "The incoming and outgoing lists given to map, solve and unmap are the exact difference between the element list of this window and the element list of the last window "
     "that was mapped successfully (the one the previous model stands for): outgoing are the elements that left, incoming those that entered, each exactly once and in event-time order. "
     "With no successfully mapped window before, every element is incoming and nothing is outgoing.",
     ["schedules", "inputs", "histories", "fault_sequences"],
     "all sequences of windows, including late data entering overlapping windows, gaps, skipped and failed windows, equal timestamps, and every Partial filter",
     "Tests use regularly spaced integer timestamps where a time comparison and a set difference coincide, and never fail a window in between.",
     [A],
     [("difference against the carried elements", A + " SolveDoFn.process (outgoing/incoming)")],
     [("elements reflected by the model", "diff base", A + " SolveDoFn")],
     ["callback arguments 'incoming' and 'outgoing'"])

prop("C03", "One decorated output per window; a failing step is reported, never fatal",
     "Every window that reaches the solving stage produces exactly one output record: the value returned by unmap, or, if map, solve, unmap or the attenuation rescaling raised an exception, "
     "a record beginning 'Failed to map:', 'Failed to solve:' or 'Failed to unmap:' that contains the exception's message (a failing rescaling is reported as a failure to solve). "
     "Later windows are still processed, and each record is decorated as configured: prefix, then '[window time] ' (the UTC date-time of the window's last microsecond), then the text, then suffix.",
     ["fault_sequences", "histories", "configurations"],
     "all sequences of callback failures (any exception, any step, any window, after partial mutation), solver failures, and all output option combinations",
     "Tests exercise one failing callback per pipeline and only check that some output contains the message.",
     [A, "sawatabi/algorithm/attenuation.py"],
     [("try/except around the callbacks", A + " SolveDoFn.process"), ("decoration", A + " _create_pipeline output part")],
     (), ["records delivered to output_fn"])

prop("C04", "A failed window never corrupts the model or solution carried forward",
     "The previous model handed to map is, in content, the model left by the most recent window whose map succeeded, or an empty model of the configured initial type if there is none, "
     "and it never contains changes made by a map call that raised. "
     "The previous sample set handed to map and solve is the one returned by the most recent successful solve, or None, "
     "and solve is handed the model that this window's map returned (rescaled, for Attenuation).",
     ["fault_sequences", "histories", "crash_points", "schedules"],
     "all interleavings of successful, failed (before, during, after mutation) and skipped windows, bundle boundaries, and eager or lazy state encoding",
     "No test fails a window and then inspects what the next window receives; with one runner the aliasing of in-bundle state is never varied.",
     [A],
     [("state registered only after success", A + " SolveDoFn.process")],
     [("model state / sampleset state", "carried model and solution", A + " SolveDoFn")],
     ["callback arguments 'prev_model' and 'prev_sampleset'"])

prop("C05", "Crashes, retries, re-bundling and runner choice do not change the results",
     "For the same events delivered in the same order with deterministic callbacks, the committed output records are identical whether the pipeline runs without faults or workers crash at any point and retry uncommitted bundles, "
     "elements are grouped into bundles differently, the pipeline's functions are re-serialised and restarted, or the runner stores state eagerly or lazily. "
     "Nothing that influences later results may live outside the pipeline's durable state.",
     ["crash_points", "schedules", "fault_sequences", "configurations"],
     "all crash points inside and between bundles, all bundlings, worker restarts, and both state-encoding disciplines that Beam runners use",
     "The test suite has one runner, one bundle and no crash.",
     [A] + ALGOS,
     [("all carried data in Beam state cells", A + " SolveDoFn, IndexAssigningStatefulDoFn")],
     [("Beam state", "timestamp, elements, model, sampleset, index", A)],
     ["committed output records", "callback arguments"])

prop("C06", "Only windows older than one already processed are skipped, and say so",
     "A window whose time is strictly earlier than that of the latest handled window is not mapped or solved, changes nothing carried forward, and yields exactly one output record saying it is outdated and naming both its own time and the time already processed. "
     "Every other window is handled, including the first one whatever its time (before 1970 too) and windows with equal times.",
     ["schedules", "inputs", "histories"],
     "all delivery orders of windows, duplicates of times, and event times before and after the epoch",
     "Tests see outdated windows only by accident of the runner's order and never check the record's content or negative times.",
     [A],
     [("comparison with the last processed timestamp", A + " SolveDoFn.process")],
     [("timestamp state", "time of the last handled window", A + " SolveDoFn")],
     ["output records", "callback invocations"])

prop("C07", "Elements get unique consecutive indices that survive crashes",
     "Every input element is given an index: the indices of all committed elements are distinct and are 0, 1, 2, ... without gaps in the order the elements were processed, whatever the bundling, crashes, retries and worker restarts. "
     "The same element carries the same index in every window and callback, its value is unchanged, and with timestamp reassignment enabled its event time equals its index.",
     ["schedules", "crash_points", "inputs"],
     "all bundlings, crash/retry points and restarts between index assignment and windowing, equal values and arbitrary value types",
     "Tests run one bundle without crash and check the first few printed indices.",
     [A],
     [("stateful index counter", A + " IndexAssigningStatefulDoFn")],
     [("index state", "next index", A)],
     ["(index, value) seen by the callbacks"])

prop("C08", "Attenuation rescales interactions linearly in the chosen key, and only there",
     "With the Attenuation algorithm, whenever the configured key takes at least two different values over the model's live interactions, the model passed to solve has for each live interaction the scale min_scale + (1 - min_scale) * (t - t_min) / (t_max - t_min), t being that interaction's key value, so oldest gets min_scale and newest 1.0, "
     "and everything else about the model is as map returned it. With the other algorithms solve receives the model exactly as map returned it.",
     ["histories", "schedules", "inputs", "configurations"],
     "all histories of interactions added, updated and removed over windows, key columns, min_scale values, failures in between, and restarts",
     "Tests check a few printed scales of one fixed input.",
     [A, "sawatabi/algorithm/attenuation.py"],
     [("scale update loop", A + " SolveDoFn.process")],
     (), ["the model argument of the solve callback"])

prop("C09", "Pipelines running in one process do not influence each other",
     "When several pipelines are created and run in the same process, with any interleaving of their creation and execution, any of the five algorithms and shared callbacks, options and solvers, each produces the same output records as when it is run alone. "
     "Creating a pipeline does not change the options it was given.",
     ["schedules", "configurations"],
     "all interleavings of creating and stepping 2-3 pipelines of any algorithms",
     "Tests run one pipeline at a time.",
     [A] + ALGOS,
     [("no module- or class-level mutable state", A)],
     (), ["committed output records per pipeline"])

prop("C10", "Readers and writers carry every record through unchanged, in any split",
     "For valid UTF-8 input, number readers deliver exactly the messages or lines consisting only of ASCII digits, as integers and each once, and drop the rest without failing; text, Pub/Sub and JSON readers deliver every record with its content unchanged (UTF-8 decoded, JSON parsed). "
     "Writers emit every output record exactly once, UTF-8 encoded for Pub/Sub, one line per record for text and stdout, to exactly the topic or path given.",
     ["inputs", "schedules", "fault_sequences"],
     "all byte contents (valid UTF-8), file split points, message delivery orders, crash and retry of read and write bundles",
     "Tests read two fixed ASCII files in one split and only construct the Pub/Sub transforms.",
     ["sawatabi/algorithm/io.py"],
     [("regex filter, decode, parse, encode", "sawatabi/algorithm/io.py")],
     (), ["elements reaching map", "records published, printed or written"])

prop("C11", "A model's energy is always that of its operation history",
     "After any history of operations on a logical model (adding, updating and removing interactions, deleting and fixing variables, adding, editing and removing constraints, setting the offset, importing an expression), with serialise/restore at any points, "
     "the physical model's energy of every assignment of the live variables equals, up to one constant that depends only on the constraints, that of the polynomial denoted by the history: offset minus the sum of coefficient*scale*variables, plus strength times each constraint's penalty, with fixed variables substituted and deleted variables' terms dropped. "
     "Its reported sizes, deleted and fixed variables, attributes and constraints agree with the same history.",
     ["histories", "inputs", "crash_points"],
     "all operation sequences over spin and binary models, with conversions to physical, restarts (pickle) and clock movement anywhere in between",
     "Tests follow short hand-written sequences and compare internal arrays; combinations such as fix after fix, delete with constraints, update after removal and restart are not reached.",
     [L, P] + CON,
     [("interaction table, constraint expansion and grouping", L + " to_physical"), ("fix/delete bookkeeping", L + " fix_variable, delete_variable")],
     [("interaction table", "one row per interaction", L), ("constraints", "label to constraint", L)],
     ["PhysicalModel.to_bqm, get_offset, get_size etc., get_attributes"])

prop("C12", "A rejected operation changes nothing",
     "Every model or constraint operation that raises an exception (unknown, duplicate or removed name, wrong type or value, incompatible merge, failing import or conversion) leaves the model, and every other model or constraint passed to it, exactly as before: same energies, names, sizes, attributes and constraints. "
     "All later operations behave as if the rejected call had never been made.",
     ["histories", "fault_sequences", "inputs"],
     "all histories with failing calls inserted at any point, for every operation and every reason of rejection",
     "Tests assert that the exception is raised but do not look at the object afterwards.",
     [L] + CON,
     [("argument checks before mutation", L)],
     (), ["public getters and physical energies after the failed call"])

prop("C13", "Conversion to a physical model is transparent, repeatable and retryable",
     "Converting a logical model any number of times, at any points of a history, gives the same physical energies each time and does not change the logical model's energy, variables, offset, constraints or remaining interactions and attributes, apart from forgetting removed interactions so that their names may be used again. "
     "A conversion that fails (for example a missing placeholder value) has no effect, and a later conversion with correct values gives the right result for exactly those values; earlier physical models are never altered by later changes.",
     ["histories", "fault_sequences", "inputs"],
     "all histories with conversions (successful, with different placeholder values, failing) at arbitrary points, with and without constraints",
     "Tests convert once per model.",
     [L, P],
     [("save and restore around constraint expansion", L + " to_physical")],
     [("saved originals", "pre-expansion state", L + " to_physical")],
     ["PhysicalModel.to_bqm/to_polynomial of repeated conversions"])

prop("C14", "A model survives serialisation and restart at any point of its history",
     "A logical or physical model, constraint or solver that is pickled and restored, or deep-copied, at any point of a history, in the same or another process, continues exactly as the uninterrupted one: the same later operations give the same energies, names, attributes, errors and results. "
     "Operations on the restored copy never affect the original.",
     ["crash_points", "histories"],
     "all restart points in all operation histories, including between a removal and the next conversion and with placeholders and constraints present",
     "Tests never pickle a model; the pipeline relies on it for every window.",
     [L, P] + CON + [A],
     [("plain picklable state", L)],
     (), ["continuation differential: restored vs uninterrupted"])

prop("C15", "Ising/QUBO conversion preserves the energy landscape under any clock",
     "Converting a logical model between Ising and QUBO, and back, any number of times and at any points of a history, preserves the energy of every assignment (spin = 2*binary - 1) up to one constant shared by all assignments, including scaled interactions and interactions added or updated later. "
     "The result does not depend on clock readings: the clock may stand still, step or go backwards between or during conversions, and no conversion fails because of it.",
     ["histories", "inputs", "schedules"],
     "all models and histories of conversions, coarse, frozen and backward clocks, and restarts in between",
     "Tests convert two hand-written models with default scale and a running clock.",
     [L],
     [("coefficient rewriting and additional linear terms", L + " to_ising/to_qubo")],
     (), ["to_physical().to_bqm() before and after"])

prop("C16", "Timestamps and durations follow the clock at the moment of the call",
     "An interaction added or updated without an explicit timestamp is stamped with the wall clock at that call, not at import or at an earlier call; an explicit timestamp is stored as given; the current-time helpers return the present wall clock in their unit. "
     "Durations reported by solvers and by the profiling decorator equal the elapsed monotonic time of the call, are never negative, and are unaffected by wall clock jumps, and the profiling decorator passes the wrapped result through unchanged.",
     ["schedules", "histories"],
     "all clock behaviours (advance, freeze, jump forward or back) between and during calls",
     "Tests read the real clock, which moves by microseconds between import and assertion.",
     [L, "sawatabi/utils/time.py", "sawatabi/utils/profile.py", SV + "local_solver.py", SV + "sawatabi_solver.py"],
     [("current_time() at call", L), ("perf_counter differences", "sawatabi/utils/profile.py, solvers")],
     (), ["'timestamp' column of select_interaction", "sampleset.info timing", "profile output"])

prop("C17", "Merging adds the energies and leaves the other model alone",
     "After merging another model, the model's energy is the sum of both models' energies before the merge up to one constant, and exactly so when both have the same type; every interaction of both remains individually addressable under a unique name, with its attributes, and all later operations (update, remove, delete, fix, further merges, including of models created and discarded in a loop) act on all matching interactions of both. "
     "The other model is not changed by the merge or by later operations on the merged model.",
     ["histories", "inputs"],
     "all pairs and chains of merges over models of either type with overlapping variables, names, attributes and constraints, and any object lifetimes",
     "Tests merge one pair and look at array lengths.",
     [L],
     [("table concatenation and renaming of duplicates", L + " merge")],
     (), ["to_physical energies", "select_interaction names", "the other model after merge"])

prop("C18", "The annealing solver returns valid samples with their true energies",
     "Whatever values its random generator draws, the built-in annealing solver returns num_reads samples (counting multiplicity) that assign every variable of the model a value of the model's type, each reported with the energy the physical model gives that assignment, and statistics with one entry per sweep whose energies are those of the states visited, starting with the start state. "
     "Supplied initial states are where the search starts and are not modified, and with zero sweeps they are returned unchanged.",
     ["inputs", "schedules", "configurations"],
     "all random streams including extreme draws, models of both types with offsets, initial states, forward and reverse annealing schedules and pickup modes",
     "Tests compare results for one seed and small models.",
     [SV + "sawatabi_solver.py", P],
     [("incremental energy bookkeeping", SV + "sawatabi_solver.py annealing, calc_energy_diff")],
     (), ["returned SampleSet", "stats"])

prop("C19", "A fixed seed gives the same result, isolated from everything else",
     "For a given model, parameters and seed (0 included), the built-in annealing solver always returns the same samples, energies and statistics, no matter what other random generators are used, what the instance solved before, whether earlier solves failed, or how solves on other instances interleave in other threads. "
     "A solve never disturbs the process-wide random generators.",
     ["schedules", "histories", "inputs"],
     "all thread interleavings of solves on separate instances, reuse orders, global random state, seeds",
     "Tests repeat one seed sequentially.",
     [SV + "sawatabi_solver.py"],
     [("private generator per solve", SV + "sawatabi_solver.py solve")],
     [("solver instance fields", "scratch of the running solve", SV + "sawatabi_solver.py")],
     ["returned SampleSet vs a fresh isolated run"])

prop("C20", "Optigan: a faithful request and a faithful answer, or an error",
     "A solve through Optigan sends exactly one request, to the configured endpoint with the configured token, carrying the model's polynomial and the requested options in the requested encoding, and returns the server's samples and energies with each value on its own variable, or raises an exception. "
     "Under any failure (refused, reset, timed out, truncated, corrupted, wrong status, malformed, missing or wrongly sized response, unreadable configuration) it raises and never returns an invented, partial or misassigned result, and the next solve is unaffected.",
     ["fault_sequences", "inputs", "histories"],
     "all models, options and sequences of network and server faults across repeated solves",
     "Tests mock one good response and one error status.",
     [SV + "optigan_solver.py", P],
     [("request building and response interpretation", SV + "optigan_solver.py solve")],
     (), ["bytes on the simulated network", "returned SampleSet or exception"])

prop("C21", "D-Wave: the right problem is submitted, and failures surface",
     "A solve through D-Wave submits exactly the model's energy function once, with the caller's parameters passed through unchanged and the sampler and embedding built from the given endpoint, token, solver name and embedding parameters, and returns the sampler's answer unaltered. "
     "If the connection, the embedding or the sampling fails, the exception reaches the caller and the next solve works normally.",
     ["fault_sequences", "inputs", "configurations"],
     "all models, parameters and failure sequences of the remote sampler",
     "The real service is unreachable in tests; they mock a single success.",
     [SV + "dwave_solver.py", P],
     [("composite construction and pass-through", SV + "dwave_solver.py")],
     (), ["calls reaching the simulated sampler", "returned SampleSet or exception"])

prop("C22", "Solving never alters its inputs, and local results are true to the model",
     "No solver's solve, successful or failing, alone or interleaved with solves of the same model by other threads, changes the physical model, the logical model it came from, or any argument object. "
     "The local solver returns samples over exactly the model's variables with true energies, in exact mode all assignments with the minimum first, and under any failure inside the sampler the exception reaches the caller.",
     ["schedules", "fault_sequences", "inputs", "histories"],
     "all interleavings of solver threads on a shared model, all solver failures, models of both types",
     "Tests never compare the model before and after a solve and never run two solves at once.",
     [SV + "local_solver.py", SV + "sawatabi_solver.py", SV + "optigan_solver.py", SV + "dwave_solver.py", P],
     [("solvers work on a freshly built BQM", SV)],
     (), ["deep comparison of inputs before and after", "returned SampleSet"])

prop("C23", "Number partitioning by dynamic programming is optimal",
     "The number-partitioning utility returns partitions of the input into two groups whose sums differ as little as possible, and all of them when asked to enumerate.",
     ["inputs"], "all lists of positive integers",
     "Tests use a few fixed lists.",
     ["sawatabi/utils/npp.py"], [("DP table", "sawatabi/utils/npp.py")])

prop("C24", "Argument validation rejects wrong types with a clear message",
     "Public constructors and methods reject arguments of wrong type or value with TypeError or ValueError naming the argument, and textual representations of models and constraints list their contents.",
     ["inputs"], "all argument values",
     "Tests use a few wrong values per argument.",
     ["sawatabi/base_mixin.py"], [("argument type checks", "sawatabi/base_mixin.py")])

prop("C25", "The annealing search follows its schedule and acceptance rule",
     "In every sweep of every read the built-in annealing solver tries each variable exactly once (always in one fixed order in sequential mode, in a fresh uniformly random order in random mode): a flip that does not raise the energy is made, one that raises it by d at temperature T is made with probability exp(-d/T), independently of everything else, and never at temperature zero. "
     "The temperature of sweep k is initial_temperature * cooling_rate**k; in reverse annealing it starts near zero, is reverse_temperature * (1 - cooling_rate**k) until sweep reverse_period and cools by cooling_rate afterwards. The reported histories describe the search that was made.",
     ["inputs", "schedules"],
     "all draws of the random generator, models, start states and parameters",
     "Tests look at final energies of one seeded run; a wrong acceptance probability, reused draw, skipped variable or wrong schedule still finds the ground state of a tiny model.",
     [SV + "sawatabi_solver.py"],
     [("annealing loop, acceptance, energy difference, schedule", SV + "sawatabi_solver.py annealing, is_acceptable, calc_energy_diff")],
     [("temperature, reversing phase", "where the read is in its schedule", SV + "sawatabi_solver.py")],
     ["returned SampleSet and statistics under forced and under seeded draws"])

prop("C26", "The sample partitioning application reports a true partition of each window",
     "With the repository's sample number-partitioning callbacks on any of the five algorithms, for every handled window with at least two positive numbers, whatever the delivery order, equal event times, failures and crashes: the model given to the solver is exactly the partitioning objective of the window's numbers (rescaled for Attenuation), "
     "and the output record lists two groups that together are the window's numbers, with their true sums and difference; with an exact solver the difference is the smallest possible (Attenuation aside).",
     ["schedules", "histories", "fault_sequences", "crash_points"],
     "all feeds, deliveries, window options, callback failures and crash points",
     "Tests run one fixed in-order file and compare text; incremental maintenance of the model over out-of-order, tied and failed windows is not reached.",
     ["sample/algorithm/npp_window.py", A, L],
     [("incremental model maintenance from incoming and outgoing", "sample/algorithm/npp_window.py npp_mapping")],
     [("previous model", "couplings of all numbers in the last mapped window", A)],
     ["model received by solve", "output records"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(props))
