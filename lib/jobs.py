"""Which workloads and monitors decide which property."""


class Job:
    def __init__(self, target=None, cfg="plain", args=None, shards=(8, 8), cases=(800, 8000), timeout=(240, 840), env=None, leaks=False, tiers=None, script=None):
        self.target, self.cfg, self.args, self.shards, self.cases, self.timeout = target, cfg, args or [], shards, cases, timeout
        self.env, self.leaks, self.tiers, self.script = env or {}, leaks, tiers, script

    def in_tier(self, tier):
        return not self.tiers or tier in self.tiers


JOBS = {}
NA = {}


def prop(pid, jobs, rule, technique, note, need=None, assumptions=None, parallel=8, keys=None, options=False):
    JOBS[pid] = dict(jobs=jobs, rule=rule, technique=technique, note=note, need=need or {}, assumptions=assumptions or [], parallel=parallel, keys=keys, options=options)


MACHINE_RULE = ("random state machine specifications (3-9 states, nesting up to 4 levels) and random event histories driven through the public API on a "
                "single-threaded dispatcher; a case is non-trivial if more than 3 of its steps ran callbacks; distinct by specification and callback stream")
MACHINE_ASSUME = ["the reference model in harness/machine.hpp is the specification of the documented semantics",
                  "transitions target siblings, the state itself, its parent or history states (cross-level targets only in a minority of cases)"]


HOSTED = ["std", "glib", "glibmm", "qt"]
ALL = HOSTED + ["arduino"]
CTX = ["glibctx", "glibmmctx"]     # toolkit dispatchers in a main context of their own


def disp(modes, which, cases, cfg="plain", shards=(2, 4), extra=None, harness="h_disp", **kw):
    """the same workload on several dispatchers"""
    return [Job("%s_%s" % (harness, d), cfg, ["--mode", modes] + (extra or []), shards=shards, cases=cases, **kw) for d in which]


DISP_RULE = ("random programs (machines, posting threads, messages, queries) on a real event loop with delays injected before and after lock, unlock, "
             "wait and notify operations; distinct by the observed log of callbacks and results (including how the threads interleaved)")
DISP_ASSUME = ["GLib, GLibmm and Qt loops are the ones of the installed toolkits", "schedules are sampled, not enumerated"]
TIMER_RULE = ("random sequences of timer operations from several threads on a real event loop with injected delays, judged by an offline checker over the "
              "recorded calls and expirations; distinct by the shape of the recorded log")


def machine(pid, profiles, quick, thorough, technique, note, need, asan=True, more=None):
    jobs = [Job("h_machine", "plain", ["--profile", profiles], cases=(quick, thorough))]
    if asan:
        jobs.append(Job("h_machine", "asan", ["--profile", profiles], cases=(max(80, quick // 12), thorough // 12)))
    prop(pid, jobs + (more or []), MACHINE_RULE + (("; additionally " + DISP_RULE) if more else ""), technique, note, need, MACHINE_ASSUME + (DISP_ASSUME if more else []))


machine("C01", "conserve,seq,base,mix,guards", 40000, 600000,
        "runtime monitor: conservation of entries/exits and tree-shape invariants over callback streams of random machines",
        "held on the explored machines and histories; every idle point compares reported states with the callback history and a reference model",
        {"conservation_checks": 2000, "shape_checks": 2000, "steps": 20000})
machine("C02", "base,actions,mix,guards", 40000, 600000,
        "differential runtime monitor: complete callback streams against an executable reference model",
        "held on the explored machines and histories; order, multiplicity and arguments of all callbacks are compared",
        {"steps": 20000, "seen.internal_self": 200, "seen.external_transitions": 5000, "seen.failed_events": 2000})
machine("C03", "refuse,mix", 40000, 600000,
        "fault injection (refusing callbacks) with differential runtime monitor",
        "held on the explored machines with random subsets of refusing entry and exit callbacks",
        {"seen.exit_refused": 1500, "seen.exit_refused_rollback_deep": 100, "seen.entry_refused": 1500, "seen.entry_refused_rollback_deep": 100})
machine("C04", "guards,base,mix", 40000, 600000,
        "differential runtime monitor over random guards, polarities and entry point filters",
        "held on the explored machines; selection is observed through the complete callback stream",
        {"seen.parallel_accept": 500, "seen.multi_target": 500, "seen.parent_shadowed_by_child": 500, "steps": 20000})
machine("C05", "history", 40000, 600000,
        "differential runtime monitor over random machines with shallow and deep history",
        "held on the explored machines and histories",
        {"seen.history_deep": 500, "seen.history_shallow": 500, "seen.history_default": 500, "seen.history_parallel": 30})
machine("C06", "finals", 40000, 600000,
        "differential runtime monitor over random machines with final states in sequential and parallel regions",
        "held on the explored machines and histories",
        {"seen.final_entered": 2000, "seen.final_event": 1000})
machine("C09", "queue", 24000, 500000,
        "differential runtime monitor with paused dispatching, queue clears from outside, from callbacks and from concurrent threads",
        "held on the explored queue contents and schedules",
        {"seen.cleared": 1000, "seen.kept_chain_on_clear": 20, "batches": 2000, "threaded_cleared": 2000, "threaded_kept": 2000, "gate_cases": 200},
        more=disp("clear,cleargate", HOSTED, (800, 6000)))
machine("C10", "args,history,finals", 24000, 500000,
        "differential runtime monitor on argument fingerprints of every callback, single-threaded and with several threads posting",
        "held on the explored argument lists, transition kinds and schedules",
        {"callbacks": 50000, "log_records": 10000},
        more=disp("fifo,diff", ["std"], (1600, 20000), shards=(4, 8)))
machine("C18", "possible,flat", 32000, 500000,
        "differential runtime monitor: query result against reference model and against the real outcome",
        "held on the explored machines and queries",
        {"possible_true": 3000, "possible_false": 3000, "possible_pending_true": 500, "possible_pending_false": 500})
machine("C20", "actions", 32000, 500000,
        "differential runtime monitor on timer calls and posted transitions of state actions",
        "held on the explored machines and actions",
        {"seen.actions": 5000})

prop("C07", disp("fifo", HOSTED, (1600, 40000), shards=(4, 4)) + disp("fifo", CTX, (400, 8000), shards=(2, 4)) + disp("fifo", HOSTED, (0, 0), shards=(1, 1), extra=["--burst", "70000"]),
     DISP_RULE, "runtime monitor: per-producer order and exactly-once checker over recorded event logs, on four dispatchers with injected delays and bursts",
     "held on the sampled schedules of the STD, GLib, GLibmm and Qt dispatchers", {"events": 50000, "nested_posts": 1000, "late_start_cases": 50, "burst_events": 200000, "spinning_actions": 1000}, DISP_ASSUME)
prop("C08", disp("sync", HOSTED, (1600, 30000), shards=(4, 4)) + disp("diff", HOSTED, (800, 8000)) + disp("sync", CTX, (300, 6000), shards=(1, 4)) + [Job("h_machine", "plain", ["--profile", "sync"], cases=(8000, 200000))],
     DISP_RULE, "runtime monitor: results of concurrent synchronous calls against the log of callbacks of their events and against a reference model, watchdog for lost notifications",
     "held on the sampled programs and schedules", {"sync_true": 4000, "sync_false": 4000, "sync_removed": 200, "sync_timed_out": 100, "released_waiters": 200}, DISP_ASSUME)
prop("C11", disp("raw", HOSTED, (240, 8000), harness="h_timers", shards=(8, 8)) + disp("hsm", HOSTED, (200, 8000), harness="h_timers", shards=(8, 8)) +
     disp("raw,hsm", ["glib", "glibmm", "qt"], (240, 8000), cfg="asan", harness="h_timers", shards=(6, 8)) + disp("raw,hsm", CTX, (96, 3000), harness="h_timers", shards=(4, 8)) +
     [Job("h_timers_arduino", "plain", ["--mode", "virt,virthsm"], cases=(80000, 4000000))],
     TIMER_RULE, "runtime monitor: offline timing checker over recorded timer operations and expirations (real time), and exact differential checker on virtual time for the polled dispatcher",
     "held on the sampled operation sequences; late expiration is bounded with a margin for the load of the machine", {"expirations": 5000, "hsm_events": 3000, "awaited_expirations": 1500}, DISP_ASSUME, parallel=24)
prop("C12", disp("irq", ["std"], (300, 10000), shards=(6, 6)) + disp("irq", ["stdcv"], (600, 12000), shards=(2, 4)) + disp("irq", ["glib", "glibmm", "qt", "arduino"], (600, 12000), shards=(3, 4)) + disp("irq", CTX, (200, 4000), shards=(1, 4)),
     DISP_RULE, "runtime monitor: exactly-once checker for interrupt-safe events posted from threads and from signal handlers at arbitrary points, with an allocation monitor",
     "held on the sampled moments of interruption", {"irq_accepted": 50000, "irq_refused": 20000, "irq_signals": 5000, "idle_wakeups": 200, "overflow_cases": 100}, DISP_ASSUME)
prop("C15", disp("actions", ALL + ["stdcv"], (4000, 60000)) + disp("actions", CTX, (1000, 15000), shards=(1, 4)),
     DISP_RULE, "runtime monitor: exactly-once, order and thread checker over the log of executed actions, with idle dispatchers (no other wakeups)",
     "held on the sampled schedules", {"actions": 100000, "nested_actions": 3000}, DISP_ASSUME)
prop("C16", disp("diff", ALL, (2000, 20000)) + disp("hsm", HOSTED, (200, 8000), harness="h_timers", shards=(8, 8)) + disp("machines", ALL, (1600, 20000), harness="h_life", shards=(2, 4)) +
     [Job("h_timers_arduino", "plain", ["--mode", "virthsm"], cases=(40000, 2000000))],
     DISP_RULE, "differential runtime monitor: each of several machines on one dispatcher against its own reference model, and machines with running timers as bystanders, while others are created, driven and destroyed",
     "held on the sampled programs and schedules", {"shared_cases": 200, "noise_machines": 2000, "diff_steps": 10000, "bystander_events": 10000, "busy_cases": 50, "virthsm_expirations": 100000, "survivors": 200}, DISP_ASSUME)
prop("C17", disp("fifo,actions,diff", HOSTED, (3000, 30000)),
     DISP_RULE, "runtime monitor: thread and overlap checks inside every callback, run-to-completion checked through the complete callback order",
     "held on the sampled programs and schedules", {"callbacks": 50000, "actions": 10000, "diff_callbacks": 20000}, DISP_ASSUME)
prop("C19", [Job("h_variant", "ubvar", ["--mode", "values,convert"], cases=(40000, 900000))],
     "random operations (construct, convert, copy, move, assign parts to the whole and the whole to parts) on a pool of nested values, and conversions of values at and around all limits; distinct by the sequence of values and operations",
     "runtime monitor: every variant against an independent value model after each operation, with AddressSanitizer, UndefinedBehaviorSanitizer (including float-cast-overflow) and instance counting",
     "held on the generated values and operations", {"value_ops": 200000, "conversions": 500000, "part_to_whole": 1000, "whole_to_part": 500, "own_content": 5000, "independence_checks": 5000},
     ["the value model in harness/h_variant.cpp is the specification; texts of nested containers are only judged where the order and separators are determined"])
prop("C21", [Job("h_scxml", "plain", script="scxmlgen.py", cases=(240, 6000), shards=(8, 8))],
     "random documents with nested, parallel, final and history states, entry transitions, conditions, actions, timers, documents included with src and xi:include (also twice); each generated, compiled and driven with random events and timers; distinct by document and by visited configuration",
     "runtime monitor: generated machine in lockstep with a machine registered directly from the description of the document (callbacks with arguments, timers, active states, names), diagram against the description, second generation against the first",
     "held on the generated documents and event sequences", {"generated": 150, "generated_twice": 30, "diagram_edges": 2000, "callbacks": 200000, "steps": 100000, "includes": 60, "included_twice": 15, "expirations": 10000, "seen.history": 200, "seen.parallel": 50},
     ["the reference machine uses the same core library; documents name the entry point of the root and of every composite state"])
prop("C22", [Job("h_debuglog", "plain", ["--mode", "steps"], cases=(24000, 600000)), Job("h_debuglog", "plain", ["--mode", "threads"], cases=(1200, 30000)),
             Job("h_debuglog", "tsan", ["--mode", "threads"], cases=(600, 12000)), Job("h_debuglog", "asan", ["--mode", "steps"], cases=(1600, 40000), leaks=True),
             Job("h_debuglog", "plain", script="debuglog_yaml.py", cases=(240, 4000), shards=(4, 8))],
     "random machines (all callbacks registered) with random events, refusals, posts and arguments which need quoting; the log is enabled, disabled and re-opened between events and inside callbacks, or closed by another thread; distinct by machine and callback stream",
     "runtime monitor: parsed log against the observed callbacks (order, states, events, status, arguments, active states at that moment), lockstep twin without log, YAML library as second reader, ThreadSanitizer and AddressSanitizer",
     "held on the generated machines, event sequences and moments of enabling and closing",
     {"log.entries": 500000, "log.failed": 5000, "log.with_args": 100000, "toggled_in_callback": 1000, "idle_checks": 1000, "thread_logs": 2000, "closed_while_running": 1500},
     ["names of states and events come from overridden getStateName/getEventName; text arguments may hold any bytes"])
prop("C25", [Job("h_variant", "ubvar", ["--mode", "order,keys"], cases=(30000, 600000))],
     "families of related values of one kind, of two kinds or of any kind (extremes, neighbours, nested containers): all pairs and triples, and dictionaries keyed by them; distinct by the values",
     "runtime monitor: laws of equality and order over all pairs and triples and against an independent value model, dictionaries against a model, with sanitizers",
     "held on the generated values", {"comparisons": 500000, "triples": 500000, "pairs_less": 20000, "pairs_equal": 20000, "pairs_mixed": 20000, "key_ops": 100000},
     ["the value model in harness/h_variant.cpp is the specification; elements of containers are numbers whose comparison as double is exact"])
OPTION_PROFILES = ["--profile", "mix,history,finals,actions,args,queue,refuse,guards,possible"]
prop("C23", [Job("h_machine_" + o, "plain", OPTION_PROFILES, cases=(n, 60 * n)) for o, n in (("verbose", 8000), ("nice", 24000), ("minimal", 24000), ("nosafe", 24000))] +
     [Job("h_machine_verbose", "asan", OPTION_PROFILES, cases=(1600, 40000)), Job("h_machine_minimal", "asan", OPTION_PROFILES, cases=(2400, 60000))] +
     [Job("h_disp_std_" + o, "plain", ["--mode", "fifo,sync,clear,actions,irq,diff"], cases=(1200, 20000)) for o in ("verbose", "nice", "nosafe")] +
     [Job("h_disp_std_verbose", "tsan", ["--mode", "fifo,sync,clear,actions,irq,diff"], cases=(800, 12000)),
      Job("h_timers_std_verbose", "tsan", ["--mode", "raw,hsm"], cases=(80, 3000)), Job("h_life_std_verbose", "tsan", ["--mode", "machines,handlers,disp"], cases=(300, 6000)),
      Job("h_debuglog_verbose", "plain", ["--mode", "steps"], cases=(1600, 40000)), Job("h_debuglog_verbose", "tsan", ["--mode", "threads"], cases=(300, 6000)), Job("options", "matrix", script="options_matrix.py", shards=(4, 4), cases=(4, 4))],
     MACHINE_RULE + "; additionally " + DISP_RULE + "; every combination of options is compiled",
     "differential runtime monitor against the reference model on builds with other options, checkers of the multi-threaded workloads, ThreadSanitizer and AddressSanitizer with verbose traces",
     "held on the explored machines, histories and schedules for four sets of options; the other combinations are compiled only",
     {"callbacks": 300000, "events": 10000, "sync_true": 1000, "actions": 5000, "irq_accepted": 10000, "combinations": 24}, MACHINE_ASSUME + DISP_ASSUME, parallel=12, options=True)
prop("C24", disp("diff", ALL + ["stdcv"], (2400, 30000)) + disp("diff", CTX, (600, 8000), shards=(1, 4)),
     DISP_RULE, "differential runtime monitor: callbacks, arguments and results on five dispatchers against one reference model for the same inputs",
     "held on the sampled programs and schedules", {"diff_steps": 15000, "diff_callbacks": 50000}, DISP_ASSUME)
prop("C14", disp("machines,handlers,disp", ALL + ["stdcv"], (2700, 30000), harness="h_life", shards=(2, 4)) + disp("machines,handlers,disp", CTX, (900, 10000), harness="h_life", shards=(1, 4)) + disp("machines,handlers,disp", ALL, (900, 12000), cfg="asan", harness="h_life", shards=(2, 4), leaks=True),
     "random life cycles of machines, handlers and dispatchers (release, destruction and stop from the driver, from actions, from own and other callbacks) while other threads use them; distinct by the executed history",
     "runtime monitor: no callback after release, unregistration or stop, survivors keep working, watchdog for teardown deadlocks, AddressSanitizer and LeakSanitizer",
     "held on the sampled life cycles and schedules; toolkit dispatchers are destroyed on the thread of their loop", {"callbacks": 20000, "kills_in_callbacks": 200, "handlers_removed": 1000, "survivors": 200, "disp_steps": 3000, "short_lived_handlers": 100000}, DISP_ASSUME)
prop("C13", disp("machines,handlers,disp", ["std"], (600, 12000), cfg="tsan", harness="h_life", shards=(4, 8)) + disp("fifo,sync,clear,cleargate,actions,diff", ["std"], (1600, 20000), cfg="tsan", shards=(8, 8)) +
     disp("raw,hsm", ["std"], (160, 6000), cfg="tsan", harness="h_timers", shards=(8, 8)) +
     disp("fifo,sync,clear,cleargate,actions,irq,diff", ["std"], (600, 20000), cfg="asan", shards=(4, 8), leaks=True) +
     disp("fifo,sync,clear,actions,irq,diff", ["glib", "glibmm", "qt"], (200, 10000), cfg="asan", shards=(2, 4), leaks=True) +
     disp("fifo,sync,clear,actions,irq,diff", ["stdcv"], (400, 10000), cfg="tsan", shards=(2, 4)) +
     disp("growth", ALL + ["stdcv"] + CTX, (64, 2000), harness="h_growth", shards=(2, 4)) +
     [Job("h_machine", "asan", ["--profile", "mix,history,finals,actions,args,queue"], cases=(4000, 80000), leaks=True)],
     DISP_RULE, "runtime monitoring with ThreadSanitizer (STD dispatcher), AddressSanitizer, LeakSanitizer and UndefinedBehaviorSanitizer under multi-threaded workloads; monitor of live heap blocks, open files and threads while the same work is repeated; watchdog for deadlocks",
     "no report on the sampled schedules; race detection covers the STD dispatcher, toolkit code is not instrumented",
     {"callbacks": 5000, "sync_true": 1000, "actions": 5000, "hsm_events": 1000, "threaded_cleared": 1000, "steps": 10000, "growth_cycles": 3000, "chain_events": 50000}, DISP_ASSUME, parallel=12,
     keys=r"^(tsan|asan|ubsan|crash|hang|deadlock|growth)")
prop("C26", [Job("h_structure", "plain", cases=(240000, 9000000)), Job("h_structure", "asan", cases=(16000, 500000))],
     "random sequences of registration calls (valid, repeated, inverted, second parents, cycles through several levels) with any identifiers, in any order, then random events; distinct by the calls and the callback stream",
     "runtime monitor: result of every registration call against a model of the hierarchy, and the behaviour of the resulting machine against a reference model of the accepted structure, watchdog for endless loops",
     "held on the generated registration sequences", {"accepted.new": 100000, "accepted.again": 20000, "refused.cycle": 20000, "refused.own parent": 5000, "refused.second parent": 50000, "steps": 200000},
     ["the reference model in harness/machine.hpp is the specification of the behaviour of the accepted structure"])
