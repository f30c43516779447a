"""Source of properties.jsonl: run `python3 lib/props.py` in /verif to regenerate it."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


IMPL = "src/HsmImpl.cpp"
STD = "src/HsmEventDispatcherSTD.cpp"
BASE = "src/HsmEventDispatcherBase.cpp"
GLIB = "src/HsmEventDispatcherGLib.cpp"
GLIBMM = "src/HsmEventDispatcherGLibmm.cpp"
QT = "src/HsmEventDispatcherQt.cpp"
ARD = "src/HsmEventDispatcherArduino.cpp"
VAR = "src/variant.cpp"

prop("C01", "Reported active states equal the history of announced entries and exits",
     "Whenever a state machine is idle, the set of states it reports as active is exactly the set of states whose activation was announced through its callbacks and which were not left since: no state is listed twice, none is active without having been entered, and none is lost or left behind. "
     "In a hierarchy with one unconditional entry point per composite state, where transitions connect siblings, the active states always form one complete path: every active substate has an active parent and every active composite state has exactly one active substate. "
     "All public ways to ask for active states agree with each other.",
     ["histories", "programs"],
     "every well-formed hierarchy of states and every sequence of events, arguments and callback refusals",
     "tests drive a few hand-written machines through a handful of events each and compare the final state list; the guarantee is over all hierarchies and event histories, including cancelled, parallel and history transitions",
     [IMPL, "src/HsmImpl.hpp", "src/hsm.cpp"],
     [("active state list maintenance", IMPL + " addActiveState/replaceActiveState/executeExitTransition"),
      ("state queries", IMPL + " getActiveStates/isStateActive/getLastActiveState")])

prop("C02", "Transitions run exit, transition and entry callbacks in the documented order",
     "An accepted transition leaves the active substates before their parents and before the source state, then runs its own transition callback, then asks the target to be entered and finally announces the target as active before its entry points are entered, parent before child. "
     "An internal self transition runs only its transition callback and changes no state, while an external self transition exits and re-enters the state together with its substates; every callback runs exactly once per step and states unrelated to the transition get no callback. "
     "An event which matches no transition changes nothing and is reported exactly once to the failed-transition callback together with the states active at that time.",
     ["histories", "programs"],
     "every hierarchy, registration style (functions or class members, callbacks present or missing) and sequence of events",
     "tests check single callbacks with mocks on fixed machines; the complete relative order of all callbacks over arbitrary hierarchies is never compared with an expected order",
     [IMPL, "src/hsm.cpp", "include/hsmcpp/hsm.hpp"],
     [("transition engine", IMPL + " handleSingleTransition/processExternalTransition/executeExitTransition"),
      ("self transitions", IMPL + " executeSelfTransitions"), ("failed transitions", IMPL + " doTransition")])

prop("C03", "Refused exits and entries restore the previous active states",
     "If any exit callback of a transition refuses, the transition is cancelled: its transition callback and target callbacks are not run and every state which was already left is entered again, parents before children, so that the active states are the ones from before the event. "
     "If the target's entering callback refuses, the states left by that transition are restored in the same way and the target never becomes active, while targets of the same event which do not refuse are still entered. "
     "Refusals never leave a state machine without active states, with duplicated ones, or unable to process later events.",
     ["fault_sequences", "histories", "programs"],
     "every hierarchy and every subset of states refusing entry or exit at any point of an event sequence",
     "tests refuse one callback in one fixed machine; which of many nested or parallel states refuses, and what was already exited by then, is the whole difficulty",
     [IMPL],
     [("exit with rollback", IMPL + " executeExitTransition"), ("entry refusal and rollback", IMPL + " processExternalTransition"),
      ("restore", IMPL + " onStateEntering/addActiveState")])

prop("C04", "Events select exactly the enabled transitions, substates before parents",
     "An event triggers exactly the transitions registered for it on currently active states whose guard returns the expected value for the event's arguments and whose target can be entered; all enabled targets of one source state are entered, and every parallel active state reacts to the same event once. "
     "If an active substate accepts an event its ancestors do not react to the same event; otherwise the closest ancestors with an enabled transition do. "
     "Entering a composite state activates exactly those entry points whose event filter and guard match the event which caused the entry, and a composite target without any matching entry point is not entered.",
     ["programs", "inputs", "histories"],
     "every combination of guards, guard polarity, entry point filters, parallel regions and argument values",
     "tests cover each feature separately with constant guards; combinations of guards, polarity, event filters and depth are unbounded",
     [IMPL],
     [("target selection", IMPL + " findTransitionTarget/checkTransitionPossibility/determineTargetState"),
      ("entry points", IMPL + " getEntryPoints/hasEntryPoint"), ("child priority", IMPL + " doTransition")])

prop("C05", "History states restore what was active, shallow or deep",
     "A transition to a history state re-enters the states which were active inside its parent when that parent was last left: only the direct substates for shallow history (which then enter their own entry points), and the complete configuration, including all parallel regions, for deep history. "
     "If nothing was recorded, or it was already consumed, the configured default target is entered, or the parent's entry points if there is no default target, and the history callback runs only in this default case. "
     "The history state itself is never left active and parents are entered before the restored substates.",
     ["histories", "programs"],
     "every hierarchy with shallow and deep history states at any level and every order of leaving and restoring",
     "tests restore a fixed small configuration once or twice; nesting depth, parallel regions and several history states per parent multiply the configurations to restore",
     [IMPL],
     [("recording", IMPL + " updateHistory"), ("restoring", IMPL + " transitionToPreviousActiveStates/transitionToDefaultHistoryState/processHistoryTransition")])

prop("C06", "Reaching final states generates the completion event exactly when due",
     "When a final state of a composite state is entered, the completion event is generated exactly once and is processed before any other queued event if and only if no other non-final substate of that composite state is still active; with parallel regions it is generated only by the last region to finish. "
     "The completion event is the one configured for the final state, or else the event which led to it, and it carries the arguments of that event. "
     "A final state on the top level generates no event.",
     ["histories", "programs"],
     "every hierarchy with final states in sequential and parallel regions and every order in which regions finish",
     "tests use one machine with at most two regions; the order in which regions finish and what else is queued at that time is not varied",
     [IMPL],
     [("final states", IMPL + " processFinalStateTransition"), ("region check", IMPL + " hasActiveChildren"), ("registration", IMPL + " registerFinalState")])

prop("C07", "Posted events are processed exactly once and in order of each producer",
     "Every event posted asynchronously to an initialized state machine from any thread, including from its own callbacks, is processed exactly once, provided that it is not removed by an explicit queue clear and the state machine and its dispatcher keep running. "
     "Events posted by one thread are processed in the order in which this thread posted them. "
     "This holds for every event dispatcher (STD, GLib, GLibmm, Qt) regardless of how many threads post, how many state machines share the dispatcher, and whether the dispatcher's event loop is already running.",
     ["schedules", "histories", "configurations"],
     "every number of producers and every interleaving of posting, dispatching and waiting",
     "tests post from one thread most of the time and check one schedule per run; lost wakeups and duplicated or reordered events need particular interleavings",
     [IMPL, STD, BASE, GLIB, GLIBMM, QT],
     [("event queue", IMPL + " transitionExWithArgsArray/dispatchEvents"), ("wakeup", STD + " emitEvent/doDispatching"),
      ("pending emits", BASE + " emitEvent/dispatchPendingEvents")])

prop("C08", "Synchronous transitions report their own outcome and never hang",
     "A synchronous transition returns true only if its own event caused an accepted transition which was completely processed, including entry points, history and the last entered target, before the call returned; it returns false if that event failed, was refused, was removed from the queue, or was not completed within the timeout; if one event causes several transitions, the result is the one of the first which is completed. "
     "Every synchronous call returns: with an unlimited timeout as soon as the event is processed or discarded, otherwise no later than shortly after its timeout, and releasing the state machine releases all waiting callers. "
     "Concurrent synchronous calls get the result of their own event and not of another one.",
     ["schedules", "histories", "programs"],
     "every number of concurrently waiting callers, every outcome of their events, queue clears and release",
     "tests call synchronous transitions from one thread with successful events; status mix-ups and lost notifications need concurrent callers, refusals, clears and timeouts at specific moments",
     [IMPL, "src/HsmImplTypes.cpp", STD],
     [("waiting", IMPL + " transitionExWithArgsArray"), ("status and notification", "src/HsmImplTypes.cpp PendingEventInfo"), ("release", IMPL + " release/clearPendingEvents")])

prop("C09", "Clearing the queue drops exactly the pending events posted before",
     "A transition posted with queue clearing removes all events which were posted earlier and whose processing did not start, and is itself processed afterwards; events posted later are kept. "
     "Removed events run no callbacks, and callers waiting synchronously for them are released with a failure. "
     "The transition which is being processed at that moment is not affected: entry points, history restoration and other steps it still has to do are completed first.",
     ["schedules", "histories", "programs"],
     "every content of the queue, every progress of the current transition and every thread or callback which clears the queue",
     "tests clear a queue of ordinary events once; clearing in the middle of multi-step transitions and concurrently with posting and waiting threads is not explored",
     [IMPL],
     [("queue clear", IMPL + " clearPendingEvents/transitionExWithArgsArray")])

prop("C10", "Event arguments reach every callback of their event unchanged",
     "The arguments given when an event is posted are passed unchanged, in number, order, type and value, to every guard, transition, entering, state-changed, history and failed-transition callback run on behalf of that event, including those for entry points, history restoration and completion events. "
     "Arguments never mix between events, also when several threads post events with different arguments at the same time. "
     "States which are entered again only because a transition was cancelled get empty arguments.",
     ["inputs", "histories", "schedules"],
     "every list of argument values of every supported type and every kind of transition step",
     "tests pass a few constants through simple transitions; multi-step transitions with nested containers as arguments and concurrent events are not checked",
     [IMPL, "include/hsmcpp/hsm.hpp", VAR],
     [("argument forwarding", IMPL + " handleSingleTransition and callees"), ("argument packing", "include/hsmcpp/hsm.hpp transitionEx/makeVariantList")])

prop("C11", "Timers fire at the requested times and never after being stopped",
     "A running timer posts its event no earlier than its interval after it was started or restarted, a single-shot timer fires once and a periodic timer keeps firing once per interval until it is stopped; starting a running timer again replaces its interval and restarting it begins the interval anew. "
     "Once stopping a timer has returned on the dispatcher's thread, or the timer is reported as not running, it never fires again unless it is started again; a timer is reported as running exactly from its start until its stop or single-shot expiration. "
     "Timers with distinct ids never influence each other, also those of different state machines on one dispatcher, and no timer of any dispatcher is lost because of concurrent start, restart and stop calls.",
     ["schedules", "histories", "configurations"],
     "every sequence of start, restart and stop calls of several timers from several threads, on every dispatcher",
     "tests start one or two timers and sleep; races between expiration and start/stop/restart, and neighbours with different deadlines, are not explored",
     [STD, BASE, GLIB, GLIBMM, QT, ARD, IMPL],
     [("timers thread", STD + " handleTimers/startTimer/stopTimer/restartTimer"), ("timer bookkeeping", BASE + " startTimer/handleTimerEvent/getTimerInfo"),
      ("toolkit timers", GLIB + ", " + GLIBMM + ", " + QT), ("state machine timers", IMPL + " dispatchTimerEvent")])

prop("C12", "Interrupt-safe events are delivered once or refused, without allocation",
     "An event posted through the interrupt-safe call is either refused, in which case it is never processed, or accepted, in which case it is processed exactly once without arguments, from signal handlers and threads alike and on every dispatcher. "
     "The call never blocks on a lock held by the code it interrupted, refuses instead of exceeding the configured capacity, and on dispatchers usable from signal handlers (STD, GLib, Arduino) it never allocates heap memory. "
     "Capacity which was used by accepted events becomes available again after they are processed.",
     ["schedules", "fault_sequences", "histories"],
     "every moment at which a signal can arrive and every load of the internal queue",
     "tests send a few signals while the dispatcher is idle; overflow, signals in the middle of critical sections and concurrent posting are not explored",
     [BASE, STD, IMPL, "src/os/common/CriticalSection.cpp", "include/hsmcpp/os/posix/InterruptsFreeSection.hpp"],
     [("enqueued events", BASE + " enqueueEvent/dispatchEnqueuedEvents"), ("signal blocking", "src/os/posix/InterruptsFreeSection.cpp"),
      ("spin lock", "src/os/common/CriticalSection.cpp")])

prop("C13", "No data races, memory errors or undefined behaviour through the public API",
     "Using state machines, dispatchers, timers and event arguments from several threads through the public API in the documented way never causes a data race, a deadlock, an access to freed or uninitialized memory, a memory leak or other undefined behaviour. "
     "This includes destroying and releasing objects while other threads still post events and while timers are running.",
     ["schedules", "programs", "inputs"],
     "every interleaving of the public operations which are documented as usable from several threads",
     "tests run without race detection on a few schedules and do not overlap teardown with use",
     [IMPL, STD, BASE, VAR, "src/HsmImplTypes.cpp"],
     [("locks", IMPL + " LOCK_GUARD/UniqueLock"), ("dispatcher state", BASE + ", " + STD), ("values", VAR)])

prop("C14", "State machines and dispatchers can be stopped and released at any time",
     "Releasing or destroying a state machine or dispatcher, in any order and also from inside callbacks or while events, timers and synchronous calls are pending, always terminates. "
     "After release returns outside of a callback no callback of that state machine is run any more and later posts are refused or ignored, while other state machines on the same dispatcher keep working. "
     "Handlers are called only between their registration and their removal (a call which is in progress on the thread of the dispatcher may finish when they are removed by another thread), and a dispatcher can be stopped and joined in every state, including before it was started and repeatedly.",
     ["schedules", "crash_points", "histories"],
     "every point of event processing at which a release, stop or destruction happens, on every dispatcher",
     "tests release machines after all work is done; teardown in the middle of processing has too many positions to enumerate by hand",
     [IMPL, STD, BASE, GLIB, QT],
     [("release", IMPL + " release/disableHsmDebugging"), ("dispatcher teardown", STD + " stop/join/deleteSafe"), ("handlers", BASE + " register*/unregister*Handler")])

prop("C15", "Enqueued actions run exactly once, in order, on the dispatcher",
     "Every action enqueued into a running dispatcher is executed exactly once, on the dispatcher's thread, without any other event being required to wake the dispatcher up. "
     "Actions enqueued by one thread are executed in the order of enqueueing. "
     "An action may itself enqueue actions, post events and use timers.",
     ["schedules", "histories", "configurations"],
     "every interleaving of enqueueing threads and dispatching, on every dispatcher",
     "tests enqueue a few actions together with events which wake the dispatcher up anyway",
     [BASE, STD, GLIB, GLIBMM, QT],
     [("action queue", BASE + " enqueueAction/dispatchPendingActions"), ("wakeup", STD + " doDispatching")])

prop("C16", "State machines sharing a dispatcher do not influence each other",
     "Every state machine behaves the same, in terms of its callbacks, arguments, results and timers, whether it runs alone or shares its dispatcher with other state machines that are created, driven, released and destroyed at arbitrary times. "
     "Events, interrupt-safe events and timers (with ids which are distinct on the dispatcher) of one state machine are never delivered to another one. "
     "State machines on the same dispatcher make progress independently of how many events the others receive.",
     ["programs", "histories", "schedules"],
     "every set of machines sharing a dispatcher and every interleaving of their operations",
     "tests put at most a few identical machines on one dispatcher; cross-talk needs overlapping identifiers, re-used handlers and release in between",
     [BASE, STD, IMPL],
     [("handler tables", BASE), ("per machine handlers", IMPL + " createEventHandler/createTimerHandler/createEnqueuedEventHandler")])

prop("C17", "Callbacks run one at a time on the dispatcher's thread, to completion",
     "All callbacks of all state machines of one dispatcher, its timers' effects and its actions run on the dispatcher's thread and never at the same time, except for callbacks of the initial state which run inside initialization before any event is processed. "
     "An event posted while a callback is running is processed only after the transition in progress is complete, including all states it still has to enter. "
     "Callbacks may use the whole public interface, including posting, timers, queries and release, without deadlock.",
     ["schedules", "histories", "programs"],
     "every interleaving of posting threads, timers, signals and callbacks",
     "tests do not check the thread or overlap of callbacks, and post from callbacks only in single cases",
     [IMPL, STD, BASE, GLIB, GLIBMM, QT],
     [("dispatch loop", IMPL + " dispatchEvents"), ("dispatcher thread", STD + " doDispatching/dispatchEventsImpl")])

prop("C18", "Asking whether a transition is possible predicts the next event",
     "The query whether a transition is possible for an event and arguments returns true exactly if, while no other events are pending, posting that event with those arguments now would be accepted by at least one active state. "
     "Asking has no side effects: it runs no callbacks other than guards and changes neither states, queues nor history. "
     "If events are pending on a machine without substates and all of them are going to be accepted, the answer applies to the state which they lead to.",
     ["programs", "inputs", "histories"],
     "every machine, active configuration, event and argument list",
     "tests ask for a few fixed transitions and never compare the answer with what the event really does",
     [IMPL],
     [("query", IMPL + " isTransitionPossible/checkTransitionPossibility")])

prop("C19", "Variant keeps type and value and converts without loss or undefined behaviour",
     "A variant constructed from, or assigned, any supported value reports that value's type and returns an equal value; copies and moves are equal to and independent from the original, including nested lists, maps and pairs, and assigning a variant to itself or to a part of itself keeps the value. "
     "Conversions between numbers, booleans, strings, byte arrays and lists return the value if it is representable in the target type (integers take the integral part of a double, texts have six decimals of it), 0 or an empty value for kinds and texts which are not convertible, and never cause undefined behaviour for other values or types. "
     "Queries for the kind of value are true exactly for values of that kind.",
     ["inputs"],
     "every value of every supported type, including extremes, empty and nested containers, and every pair of conversions",
     "tests convert a few typical constants; boundaries of all integer widths, nested aliasing and malformed strings are not covered",
     [VAR, "include/hsmcpp/variant.hpp"],
     [("storage", VAR + " assign/freeMemory"), ("conversions", VAR + " toInt64/toUInt64/toDouble/toBool/toString/toByteArray/toVector")])

prop("C20", "State actions run exactly when their state is entered or left",
     "An action registered for entering a state runs exactly once each time the state is successfully entered, including the initial state and states restored after a cancelled transition, and an action registered for leaving runs exactly once each time the exit was not refused; refused entries and exits run no actions. "
     "Actions of one state run in the order of registration with exactly the registered parameters: timers are started, restarted or stopped and transitions are posted with their arguments. "
     "Registration accepts exactly the actions with the required parameters.",
     ["histories", "programs"],
     "every hierarchy, list of actions per state and event sequence, including refusals",
     "tests register single actions on simple states and check one entry",
     [IMPL],
     [("registration", IMPL + " registerStateAction"), ("execution", IMPL + " executeStateAction/onStateEntering/onStateExiting")])

prop("C21", "Code generated from SCXML describes the same state machine",
     "The state machine generated from a valid SCXML document (with either a destination folder or explicit output files, and any class name and suffix) has exactly the document's states, hierarchy, entry points, history and final states, transitions, conditions, timers and callbacks, and therefore reacts to every sequence of events as the document prescribes; the generated code always compiles, and generating twice gives the same code "
     "(a valid document uses C++ identifiers as names, and names the entry point of the root and of every composite state). "
     "Included documents are equivalent to having their content in place, with distinct names for each inclusion. "
     "The generated PlantUML diagram contains exactly the document's states and transitions.",
     ["programs", "inputs"],
     "every SCXML document made of the supported elements",
     "tests generate a few fixed documents and only compile them or compare file text",
     ["tools/scxml2gen/scxml2gen.py", "tools/scxml2gen/template.hpp", "tools/scxml2gen/template.cpp"],
     [("parser", "tools/scxml2gen/scxml2gen.py parseScxml and helpers"), ("code generation", "tools/scxml2gen/scxml2gen.py generateCppCode"), ("diagram", "tools/scxml2gen/scxml2gen.py generatePlantuml")])

prop("C22", "The debug log records what the state machine did, completely and in order",
     "With debugging enabled the log written by a state machine is well-formed for any arguments and names, and contains exactly one entry for each transition executed, each state entered or exited (after its callback), each onstate callback, each state action performed and each failed event, with its status, and an idle entry after completed transitions, in the order in which the callbacks were observed, naming the involved states, events and arguments (timers are not logged). "
     "The active states recorded with each entry are the states active at that moment. "
     "Enabling or disabling the log at any time does not change the behaviour of the state machine, and everything performed before debugging was disabled or the machine was released is in the file.",
     ["histories", "programs"],
     "every machine and event sequence with logging enabled",
     "no test reads the produced log back",
     [IMPL, "tools/hsmdebugger"],
     [("log writing", IMPL + " logHsmAction/enableHsmDebugging/disableHsmDebugging/dumpActiveStates")])

prop("C23", "Build options do not change what a state machine does",
     "The library builds with every combination of its documented options (traces off, errors only or verbose; structure validation, thread safety and debugging on or off), and for the same valid structure and the same events every such build gives the same callbacks in the same order with the same arguments, the same active states and the same results. "
     "Traces have no side effects: they never change behaviour, never lock up threads which use the machine and never race with them. "
     "Without thread safety this holds for a state machine which is only used from one thread.",
     ["configurations", "histories", "programs"],
     "every machine and every sequence of events, for every combination of build options",
     "tests are run with the default options only; traces, unchecked registration and the build without locks are never executed",
     [IMPL, "src/HsmImpl.hpp", "include/hsmcpp/logging.hpp", STD, "CMakeLists.txt"],
     [("options", "CMakeLists.txt HSMBUILD_*"), ("traces", "include/hsmcpp/logging.hpp HSM_TRACE_*"), ("conditional code", IMPL + " HSM_ENABLE_SAFE_STRUCTURE/HSM_DISABLE_THREADSAFETY/HSM_DISABLE_DEBUG_TRACES")])

prop("C24", "All dispatchers give the same behaviour for the same inputs",
     "For the same state machine and the same sequence of posted events, enqueued actions and timers, the callbacks, their order, their arguments and the results of synchronous calls are the same on every event dispatcher: STD, GLib, GLibmm, Qt and the polled Arduino dispatcher. "
     "A dispatcher started late, or polled rarely, gives the same callbacks later.",
     ["configurations", "histories", "programs"],
     "every machine and every input sequence on every dispatcher",
     "tests compile the same fixed scenarios per dispatcher but never compare behaviour between dispatchers, and do not execute the Arduino dispatcher at all",
     [STD, GLIB, GLIBMM, QT, ARD, BASE],
     [("dispatch loops", STD + ", " + GLIB + ", " + GLIBMM + ", " + QT + ", " + ARD)])

prop("C25", "Variant comparison is consistent and usable for ordering",
     "For variants of the same kind (all numbers are one kind, and doubles which differ by less than 1e-8 count as the same value; not-a-number is excluded), equality is reflexive and symmetric and agrees with the equality of the contained values, and the relational operators form a strict total order which agrees with the natural order of those values: exactly one of less, equal and greater holds and less is transitive. "
     "Containers are equal exactly if their elements are, dictionaries keyed by variants find every inserted key, and values of different kinds are never equal or greater, while less orders them consistently. "
     "Comparison never modifies its operands.",
     ["inputs"],
     "every pair and triple of values of each supported kind, including extremes and nested containers",
     "tests compare a few pairs of constants; laws over triples and extremes are not checked",
     [VAR, "include/hsmcpp/variant.hpp"],
     [("comparison", VAR + " operator==/operator</operator>")])

prop("C26", "State machine structure stays a valid tree under any registrations",
     "Registering substates and entry points is accepted exactly if it keeps the hierarchy a forest: a state never becomes its own direct or indirect parent and never gets a second parent; refused registrations have no effect. "
     "Registering a substate again under the same parent (also as an entry point, or with another event or condition) is accepted, and registering exactly the same entry point again changes nothing. "
     "Registration order does not matter for behaviour, apart from the order between parallel entry points and between several targets of one event, which follows the registration order, and the machine terminates for any accepted structure.",
     ["programs", "inputs"],
     "every sequence of registration calls, valid or not",
     "tests try a few invalid registrations; longer indirect cycles and re-registration in other roles are unbounded",
     [IMPL],
     [("registration", IMPL + " registerSubstate/isSubstateOf/getParentState")])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            assert p["statement"].count(". ") <= 2, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P))
