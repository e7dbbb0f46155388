"""The checks: what each property's harness runs, how often, and how its evidence reads."""

# (cases, soft time budget in s) per tier
def R(src, san, quick, thorough, **kw):
    return dict(src=[src] if isinstance(src, str) else src, san=san, quick=quick, thorough=thorough, **kw)


CHECKS = {
    "C01": dict(
        runs=[R("c01.cpp", "asan", (6000, 60), (150000, 900))],
        rule="a case is a random net (places, weights up to 2^63, guards, inhibitor and reset arcs, self loops), thread option and sequence of inputs and runs, or one transition of up to 900 arcs and 150 conditions of which one is unmet; "
             "non-trivial if at least one transition fired; distinct by net and event sequence",
        must_observe=["wide_unmet_none", "wide_unmet_tokens", "wide_unmet_inhibitor", "wide_unmet_condition", "cases_SINGLE_THREAD", "cases_EVENT_LOOP", "cases_JOB_QUEUE", "cases_DETACHED", "firings"],
        technique="trace replay of observed actions against a reference token game, ASan+UBSan",
        note="Each observed run is decided exactly (up to a hypothesis cap counted as inconclusive).",
    ),
    "C02": dict(
        runs=[R("c02.cpp", "asan", (1600, 40), (40000, 700)), R("c02.cpp", "tsan", (500, 30), (12000, 500))],
        rule="a case is a random net driven by 1-6 concurrent producers, with stop/execute cycles, thread options switched between phases and actions that add tokens; "
             "non-trivial if transitions fired and increments were accepted; distinct by net and final marking",
        must_observe=["phases_SINGLE_THREAD", "phases_EVENT_LOOP", "phases_JOB_QUEUE", "phases_DETACHED", "accepted_increments", "rejected_increments", "firings"],
        technique="state equation over concurrent histories with schedule perturbation, ASan+UBSan and TSan builds",
        note="Decided exactly per history from accepted calls, private marker places and the final marking.",
    ),
    "C03": dict(
        runs=[R("c03.cpp", "asan", (4000, 50), (100000, 800))],
        rule="a case runs a net to its end: nets whose end is unique (watchdog of one hour, blocking waits), random nets with conflicts, inhibitors and conditions, concurrent inputs, and "
             "transitions created while running, runs of up to 2^18 passes, a few able transitions in crowds of up to 1300 others; non-trivial if transitions fired; distinct by net and runs",
        must_observe=["persistent_runs", "random_net_runs", "concurrent_runs", "created_while_running", "long_runs", "crowds"],
        technique="runs to quiescence against a reference end state, with stuck-run detection under a one hour watchdog, ASan+UBSan",
        note="Liveness is decided as: every thread asleep while the reference still has an enabled transition, or a stable marking with one.",
    ),
    "C04": dict(
        runs=[R("c04.cpp", "asan", (2500, 45), (80000, 700)), R("c04.cpp", "tsan", (700, 25), (20000, 400))],
        rule="a case is a configuration of producers, inputs, conditions and restarts, each input awaited without timeout under a watchdog of 10 min to 24 h; every case wakes the loop; distinct by configuration, timing style and perturbation",
        must_observe=["wakeups_awaited", "wakeups_by_newcomers", "engine_runs", "cases_EVENT_LOOP", "cases_JOB_QUEUE", "cases_DETACHED"],
        technique="lost wake-up detection by stuck-process monitor under schedule perturbation",
        note="A lost wake-up leaves all threads asleep; decided by scheduler counters, not by a deadline on the firing.",
    ),
    "C05": dict(
        runs=[R("c05.cpp", "asan", (500, 50), (20000, 800))],
        rule="a case is a series of idle periods of an engine (period 1 to 40 ms, set before, while or between runs), each with conditions flipped without input, followed by stimuli under a period of one hour; distinct by series",
        must_observe=["condition_changes_noticed", "idle_evaluations_observed", "stimuli_with_period_of_one_hour", "nets_with_nothing_enabled", "idle_periods_without_evaluations", "periods_of_centuries"],
        technique="online monitor of evaluation passes (seen by a condition, or where none is evaluated by the processor time used) against the configured period",
        note="Lower bounds on gaps are exact; upper bounds need four series without one timely evaluation, or 20 s without any.",
    ),
    "C06": dict(
        runs=[R("c06.cpp", "asan", (2000, 50), (60000, 800))],
        rule="a case is a random net with producers, stop/execute cycles and thread options switched with actions pending, or one transition with boundary weights, or up to 80 arcs of 13 kinds, or a backlog of up to 16384 actions; non-trivial if transitions fired; distinct by net and final marking",
        must_observe=["one_by_one", "arcs: reset", "arcs: reset of a filled place", "backlogs", "actions_run", "thread_option_switches", "phases_SINGLE_THREAD", "phases_EVENT_LOOP", "phases_JOB_QUEUE", "phases_DETACHED"],
        technique="exactly-once accounting of observed actions against token moves, schedule perturbation, ASan+UBSan",
        note="Counts are exact at rest; a missing action is reported after 15 s without it while the engine keeps running.",
    ),
    "C07": dict(
        runs=[R("c07.cpp", "asan", (1600, 40), (50000, 600)), R("c07.cpp", "tsan", (600, 30), (15000, 400))],
        rule="a case is a JOB_QUEUE run of a random net with concurrent producers and inputs made by actions; the unsynchronised log of actions is replayed; or a backlog of up to 16384 actions behind a held one; distinct by net and log",
        must_observe=["replayed_runs", "backlogs", "inputs_by_actions", "stop_start_toggles", "option_switches_with_queue"],
        technique="replay of the executed action log against the token game with per-thread order, mutual exclusion monitor and TSan on the log",
        note="Ambiguous logs beyond 400 hypotheses are counted as inconclusive.",
    ),
    "C08": dict(
        runs=[R("c08.cpp", "asan", (4000, 45), (100000, 800))],
        rule="a case is a net with its threads of evaluation and action identified, under a history of thread options; a run with blocked actions and continued use; or actions calling the engine; distinct by configuration",
        must_observe=["placement_SINGLE_THREAD", "placement_EVENT_LOOP", "placement_JOB_QUEUE", "placement_DETACHED", "blocked_detached", "blocked_job_queue", "calls_made_by_actions"],
        technique="thread identity monitors, blocked-action workloads with a stuck-process monitor, ASan+UBSan",
        note="Non-blocking is decided by completion while an action is held on a gate.",
    ),
    "C09": dict(
        runs=[R("c09.cpp", "asan", (2000, 50), (60000, 800)), R("c09.cpp", "tsan", (400, 25), (10000, 400))],
        rule="a case holds on-enter actions of activation places (up to 65537 at once) on gates while the net is evaluated, stopped, restarted and switched; or drives random nets whose transitions have the requirement; distinct by net and run",
        must_observe=["held_detached", "held_job_queue", "masses_looked_at", "actions_held_at_once", "held_then_fired", "inputs_paired_with_actions", "actions_watched", "event_loop_actions", "bystander_runs", "failed_evaluations", "liveness_SINGLE_THREAD",
                      "liveness_EVENT_LOOP", "liveness_JOB_QUEUE", "liveness_DETACHED", "switched_while_held", "switched_to_single_thread"],
        technique="gated actions with pass counting, firing counters compared at begin and end of every watched action, ASan+UBSan and TSan",
        note="Safety is checked in every watched action interval; liveness by 20 s and 1000 evaluations without the due firing, or a stuck process.",
    ),
    "C10": dict(
        runs=[R("c10.cpp", "asan", (2000, 40), (80000, 700)), R("c10.cpp", "tsan", (600, 25), (15000, 400))],
        rule="a case is a set of input places incremented in turn or at random by several threads while readers observe through three calls; non-trivial if observations overlapped increments; distinct by the values read",
        must_observe=["snapshots_of_many_places", "reads", "snapshots", "observations_overlapping_increments", "reads_of_places_fed_by_firings", "cases_SINGLE_THREAD", "cases_EVENT_LOOP", "cases_JOB_QUEUE", "cases_DETACHED"],
        technique="online linearizability and consistent-cut monitor over call/return intervals, ASan+UBSan and TSan",
        note="Bounds per read are exact for increment-only counters; cuts are decided from cyclic increments.",
    ),
    "C11": dict(
        runs=[R("c11.cpp", "asan", (20000, 40), (500000, 600))],
        rule="a case is a history of increments (from several threads) or of single firings on places near 2^31, 2^32, 2^63 and 2^64 with weights to match; distinct by net and firings",
        must_observe=["refused_increments", "overflowing_firings", "firings_SINGLE_THREAD", "firings_EVENT_LOOP", "firings_JOB_QUEUE", "firings_DETACHED"],
        technique="exact arithmetic model beside the engine at the boundary, UBSan (with ASan)",
        note="Overflowing firings only in SINGLE_THREAD mode, where they can be reported to a caller.",
    ),
    "C12": dict(
        runs=[R("c12.cpp", "asan", (6000, 45), (100000, 800)), R("c12.cpp", "tsan", (1200, 25), (20000, 400))],
        rule="a case is a history of execute, stop, inputs, thread option and period changes with exact expectations; concurrent calls whose results are searched for a legal order; or stop and destruction at busy instants; distinct by history",
        must_observe=["histories", "starts", "stops", "execute_while_running", "destroyed_running", "destroyed_stopped", "resumed_to_the_end", "concurrent_rounds", "busy_stops", "stopped_intervals_watched", "restless_stops", "restless_destroyed", "restarts_in_long_series"],
        technique="history monitor with linearizability search of the running state, stuck-process monitor under periods of hours, ASan+UBSan and TSan",
        note="Promptness is decided as: no call may sleep as long as the period, with periods of an hour and a day.",
    ),
    "C13": dict(
        runs=[R("c13.cpp", "asan", (8000, 45), (200000, 700)), R("c13.cpp", "tsan", (600, 20), (15000, 300))],
        rule="a case is a random history of calls, 20 to 80 % of them meant to be invalid, on a stopped or running engine, with the whole introspection compared with a model after every rejected call; "
             "or a storm of invalid calls from several threads on a running engine with valid input; non-trivial if calls were rejected; distinct by history",
        must_observe=["rejected_running", "rejected_stopped", "usable_afterwards", "storm_refusals", "firings"],
        technique="sequential API model compared with the engine after every call, ASan+UBSan and TSan",
        note="Every call is generated with its verdict (accepted or refused) computed by the model.",
    ),
    "C14": dict(
        runs=[R("c14.cpp", "asan", (6000, 50), (150000, 800))],
        rule="a case is a random history of edits, inputs and runs, with the whole introspection (functions by calling them) compared with a model after every call, then the net rebuilt in a second engine from its properties and run; distinct by history",
        must_observe=["histories", "firings", "rebuilt_nets", "rebuilt_nets_run", "firings_of_rebuilt_nets", "large_nets"],
        technique="sequential API model compared with the engine after every call, ASan+UBSan",
        note="Runs are made only where the model's final marking is unique.",
    ),
    "C21": dict(
        runs=[R("c21.cpp", "asan", (4000, 45), (100000, 700))],
        rule="a case registers up to 320 functions with colliding or odd names and binds places and transitions to them in a random history, all bindings identified by calling them; or one transition with 1 to 5 conditions under every valuation; distinct by history",
        must_observe=["nets_of_shared_conditions", "nets_with_more_than_64_functions", "transitions_with_many_conditions", "all_true", "some_false", "firings", "cleared_nets"],
        technique="identity of bound functions observed by calling them, against a sequential model, ASan+UBSan",
        note="Calls made by the engine are counted per function and must match exactly.",
    ),
    "C15": dict(
        runs=[R("c15.cpp", "asan", (5000, 45), (150000, 700))],
        rule="a case exports 1-3 random nets of named functions (any bytes but NUL in names, token counts and weights to 2^64-1, reset and bidirectional arcs, all thread options) with shared exporter and importer objects, "
             "imports them where the same names are bound to other functions, compares everything, runs both and exports again; distinct by nets",
        must_observe=["round_trips", "second_round_trips", "running_net_refused", "failed_exports", "importer_reused", "exporter_reused", "imported_nets_run", "firings", "large_nets",
                      "round_trips_SINGLE_THREAD", "round_trips_EVENT_LOOP", "round_trips_JOB_QUEUE", "round_trips_DETACHED"],
        technique="round trip compared with a model of the net, functions identified by calling them, ASan+UBSan",
        note="Equivalence is decided on the whole introspection and on runs with a unique result.",
    ),
    "C16": dict(
        runs=[R("c16.cpp", "asan", (6000, 50), (200000, 800))],
        rule="a case imports 3-10 files into one engine: documents generated from the schema with their meaning (both arc styles), the same with one of 21 defects, mutated at byte, token and element level, truncated, nested, in other encodings, "
             "and paths that are no files; after each the reported net is checked against the construction rules, run and followed by good files; distinct by documents",
        must_observe=["imported: well formed", "refused: defects", "imported: mutated", "refused: mutated", "refused: odd", "imported: odd", "refused: no file", "later_imports", "runs", "firings"],
        technique="generated and mutated files against a model of the schema and the construction rules, ASan+UBSan",
        note="Mutated files are decided by the rules only: an exception derived from PTN_Exception or a net within the rules.",
    ),
    "C17": dict(
        runs=[R("c17.cpp", "tsan", (1600, 50), (40000, 800)), R("c17.cpp", "asan", (1600, 30), (40000, 500))],
        rule="a case is 2-6 threads making random calls of a random subset of the whole public API (with export) on a running engine of random thread options, with actions calling the API in half of the cases; distinct by the set of pairs of calls that overlapped",
        must_observe=["calls_" + n for n in ("createPlace", "createTransition", "registerAction", "registerCondition", "execute", "stop", "incrementInputPlace", "getNumberOfTokens", "printState",
                      "getActionsThreadOption", "setActionsThreadOption", "getEventLoopSleepDuration", "setEventLoopSleepDuration", "addArc", "removeArc", "clearNet",
                      "getPlacesProperties", "getTransitionsProperties", "isEventLoopRunning", "export")] + ["calls_made_by_actions", "overlapping_with_actions"],
        technique="ThreadSanitizer (happens-before and lock order) and a stuck-process monitor over random concurrent API use with schedule perturbation, ASan+UBSan",
        note="The harness's own counters are relaxed or thread-local, so that they order nothing.",
    ),
    "C18": dict(
        runs=[R("c18.cpp", "asan", (3000, 35), (80000, 700)), R("c18.cpp", "tsan", (900, 25), (20000, 400)),
              R("c18g.cpp", "asan", (8, 60), (64, 600))],
        rule="a case is one or many lives of an engine whose nets are built, run, cleared and switched between thread options with actions running, waiting or held on a gate, then destroyed running or stopped; "
             "non-trivial if actions ran; distinct by history and number of actions",
        must_observe=["lives", "destroyed_running", "destroyed_stopped", "destroyed_with_held_detached_actions", "destroyed_with_held_job", "destroyed_with_queue", "nets_cleared_under_load", "thread_option_switches",
                      "reconfigured_with_actions_running", "detached_actions_finished_after_destruction", "queued_actions_finished_after_clear", "lives_measured_for_growth", "nets_cleared_in_one_engine", "actions_finishing_after_destruction", "lives_with_new_names"],
        technique="ASan/TSan with canary-carrying user functions, exact counts of live copies and threads, heap growth over repeated lives, stuck-process monitor",
        note="A leak is decided by user functions or threads that remain, or by the heap minimum growing in every one of six windows of identical lives.",
    ),
    "C20": dict(
        runs=[R("c20.cpp", "asan", (12000, 50), (400000, 800))],
        rule="a case is a random net whose conditions and actions throw objects of 13 kinds at random points of runs and inputs, with every marking explained and the engine probed and run on, or a running EVENT_LOOP net whose input actions throw; "
             "non-trivial if user code threw; distinct by net and throws",
        must_observe=["exceptions_from_conditions", "exceptions_from_actions", "exceptions_from_inputs", "markings_exact_after_condition", "markings_explained_after_action", "runs_after_exceptions", "probes",
                      "runs_in_other_modes", "reads_by_other_threads", "inputs_used_by_the_loop", "nets_with_running_inputs"],
        technique="fault injection in user functions, with replay of the observed actions against the token game and identity of the exception at the caller, ASan+UBSan",
        note="After a throwing action, arcs whose action has run must have moved their tokens; the firing's other arcs may or may not have.",
    ),
    "C23": dict(
        runs=[R("c23.cpp", "asan", (12000, 30), (300000, 500)), R("c23.cpp", "tsan", (4000, 25), (80000, 400))],
        rule="a case is a history of adding, activating and deactivating by a controlling thread, with up to four other threads (and jobs) adding jobs, ended by running to the end or by destruction; "
             "non-trivial if two jobs ran; distinct by order of execution",
        must_observe=["jobs_run", "toggles", "jobs_added_while_inactive", "deactivated_while_running", "destroyed_with_jobs_waiting", "destroyed_while_running", "runs_to_the_end", "reused_after_rest", "jobs_added_by_jobs", "drained_between", "jobs_added_as_the_worker_ran_dry", "deactivations_with_a_job_held"],
        technique="online monitors of mutual exclusion, activity and exactly-once, offline order check against the intervals of the addJob calls, ASan+UBSan and TSan",
        note="Order is decided from call and return stamps: a job whose addJob returned before another's was called must run first.",
    ),
    "C19": dict(
        runs=[R("c19.cpp", "plain", (400, 35), (3000, 800))],
        rule="a case is one or more engines resolving thousands of rounds of a conflict of 2 to 320 transitions that differ in names, order, arcs and conditions; distinct by case",
        must_observe=["statistical_tests", "rounds", "rounds_with_many_competitors", "rounds_within_runs", "rounds_over_two_tokens", "rounds_of_several_conflicts", "engines_compared", "processes_compared"],
        technique="statistical monitor (chi-square of frequencies and of pairs of choices, agreement between engines and processes) over recorded choices",
        note="Every test alarms at 7.5 standard deviations (p < 1e-13): a sound sampler practically never does, a bias of a few per cent does.",
    ),
    "C22": dict(
        runs=[R("c22.cpp", "asan", (5000, 45), (150000, 700))],
        rule="a case is a random net run several times with and without logging to different streams, driven by concurrent inputs in the threaded options, with places created meanwhile; "
             "non-trivial if firings were explained; distinct by net and firings",
        must_observe=["snapshots", "firings_explained", "inputs_explained", "runs_not_logged", "runs_logged_to_cout", "runs_logged_SINGLE_THREAD", "runs_logged_EVENT_LOOP", "runs_logged_JOB_QUEUE", "runs_logged_DETACHED",
                      "places_created_while_logging", "states_printed"],
        technique="offline check of the recorded log: every step between snapshots explained by legal firings and inputs, pass counting, all streams watched, ASan+UBSan",
        note="Private marker places make the firings of each step known exactly; their order is searched for.",
    ),
    "C24": dict(
        runs=[R("c24.cpp", "asan", (1600, 35), (50000, 600)), R("c24.cpp", "tsan", (600, 30), (15000, 400))],
        rule="a case is 2-6 engines of different thread options and equal names at once: workloads of C01, C02, C06, C13, C14 and C15 in parallel, each checked as if alone; one history over all of them with the bystanders compared "
             "after each call; one held inside user code while others live; rings and chains of engines feeding each other; engines run within functions of others; idle ones beside busy ones; distinct by nets, histories and results",
        must_observe=["units_token_game", "units_concurrent", "units_api", "units_files", "separate_logs", "bystanders_compared", "bystanders_compared_running", "engines_replaced", "destroyed_running", "held_in_action",
                      "held_in_condition", "held_in_input action", "held_SINGLE_THREAD", "held_EVENT_LOOP", "held_JOB_QUEUE", "held_DETACHED", "chains", "rings", "nested_outer_runs", "nested_runs", "tokens_passed_between_engines", "idle_rounds", "firings"],
        technique="several engines at once, each against its own reference (token game, state equation, API model), bystander comparison, stuck-process monitor, ASan+UBSan and TSan",
        note="Each engine has its own oracle, computed from its own calls alone.",
    ),
    "C25": dict(
        runs=[R("c25.cpp", "asan", (6000, 50), (40000, 700))],
        rule="a case makes every call of a history fail at its first, second, ... allocation or thread start until it succeeds, and compares the introspection after each failure; "
             "or does so with execute() and incrementInputPlace() of a net that must then go on to its end; or with export and import; non-trivial if faults struck; distinct by history and number of faults",
        must_observe=["histories", "points_in_histories", "runs_with_faults", "points_in_runs", "failed_starts", "failed_inputs", "imports_with_faults", "points_in_files", "memory_faults", "thread_faults"],
        technique="exhaustive single-fault injection per call (allocator and thread start) against the sequential API model, ASan+UBSan",
        note="Every allocation made through operator new and every thread start of the calling thread is a fault point; the engine's own threads are not failed.",
    ),
    "C26": dict(
        runs=[R("c26.cpp", "asan", (6000, 45), (200000, 700))],
        rule="a case is 1-4 documents written by the harness from random nets in random spellings (encoding, quotes, references, order, defaults left out, arcs in transitions or in the list), imported into empty, filled, "
             "running or partly built engines, one after another or at once; distinct by nets and spellings",
        must_observe=["documents", "documents_utf8", "documents_utf8_bom", "documents_latin1", "documents_utf16le", "documents_utf16be", "arcs_in_transitions", "arcs_in_the_list", "bidirectional_arcs", "values_by_default",
                      "imports_into_a_part_of_the_net", "imports_into_another_net", "imports_into_a_running_engine", "imports_at_once", "second_imports_refused", "imported_nets_run", "firings"],
        technique="documents generated from a model of the net, introspection and runs of the imported net compared with that model, functions identified by calling them, ASan+UBSan",
        note="Only spellings every XML 1.0 processor has to read alike, and elements and attributes the example documents use.",
    ),
}
