#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run me to regenerate it)."""
import json, pathlib
E="PTN_Engine/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=hook)))

p("C01","Firing rule: only enabled transitions fire, with exact token effect",
"A transition fires only if, at that moment, every activation place holds at least the arc's weight, every inhibitor place is empty and all its additional conditions are true. One firing removes exactly the arc weight from each activation place (all tokens, for a weight-0 reset arc added with addArc) and adds exactly the arc weight to each destination place, and touches no other place. Hence every observed run replays as a legal token game of the specified net, for every net, weight, initial marking and thread option.",
["inputs","programs","schedules"],"all nets (places, weights up to 2^64-1, inhibitor/reset/bidirectional arcs, guards), all initial markings, all transition selection orders, all thread options",
"The tests play a handful of fixed tiny nets with weights 1..7 and look at the final marking only; nothing quantifies over net structure, selection order or large weights.",
[E+"Transition.cpp",E+"Place.cpp",E+"PTN_EngineImp.cpp",E+"TransitionsManager.cpp"],
[("enabling re-check immediately before each firing","Transition::execute / isActive"),("exit activation places, then enter destination places","Transition::performTransit"),("checked token arithmetic","Place::increaseNumberOfTokens/decreaseNumberOfTokens")],
[("token count","tokens currently in a place","Place::m_numberOfTokens")],["on-enter/on-exit actions","conditions","getNumberOfTokens","getPlacesProperties"])

p("C02","No token is lost or duplicated under concurrent input",
"While any number of threads call incrementInputPlace on a running or stopped engine, every accepted call contributes exactly one token to its place. Once the net has come to rest, every place holds exactly initial tokens + accepted increments + the net effect of the firings that happened; no token is lost, duplicated or moved to another place.",
["schedules","inputs"],"all interleavings of several producer threads, observers and the event loop, over random nets, in all threaded modes",
"The tests increment from one thread (or a few, in one fixed net) and cannot drive the interleavings between an increment, an evaluation and a firing.",
[E+"Place.cpp",E+"PlacesManager.cpp",E+"PTN_EngineImpProxy.cpp",E+"Transition.cpp"],
[("per-place lock around read-modify-write","Place::enterPlace/exitPlace"),("API lock","PTN_EngineImpProxy")],
[("token count","tokens in a place","Place::m_numberOfTokens")],["getNumberOfTokens","action events"])

p("C03","The net always runs to quiescence, and stops there",
"execute() in SINGLE_THREAD mode returns only when no transition can fire, and always returns once that is so. In the threaded modes a running engine keeps firing, without further stimulus, until no transition can fire; it never comes to rest while one is enabled with true guards, whatever the net, including transitions created while it runs (taken up no later than the next watchdog period).",
["programs","schedules","inputs"],"all terminating nets, all orders of firing, all thread options, transitions created before or during execution",
"The tests run nets of two to six transitions; whether some pass ends early with an enabled transition left depends on net shape, number of transitions and selection order.",
[E+"PTN_EngineImp.cpp",E+"EventLoop.cpp",E+"TransitionsManager.cpp"],
[("repeat passes while something fired","EventLoop::start / EventLoop::run"),("collect every enabled transition","TransitionsManager::collectEnabledTransitionsRandomly")],
[],["final marking","condition values","return of execute()"])

p("C04","Input promptly wakes an idle event loop",
"When incrementInputPlace returns on a running engine, a transition it enables fires without waiting for the watchdog period, however long that period is and at whatever instant of the loop's evaluate/sleep cycle the input arrived; no wake-up is ever lost. This holds again after every stop()/execute() cycle.",
["schedules"],"all instants of the loop's cycle at which an input can arrive, any number of producers, any watchdog period",
"A lost wake-up needs an input in a window of microseconds, and the tests run with a 100 ms watchdog which hides it.",
[E+"EventLoop.cpp",E+"PTN_EngineImp.cpp"],
[("new-input flag set before notify, tested as wait predicate under the notifier mutex","EventLoop::run, PTN_EngineImp::incrementInputPlace"),("flag cleared before evaluation","PTN_EngineImp::executeInt")],
[("new input flag","an input arrived since the last evaluation began","PTN_EngineImp::m_newInputReceived")],["action events with a one-hour watchdog"])

p("C05","The watchdog re-evaluates guards every period, and only then",
"While idle, a running engine re-evaluates the net once per configured sleep duration, so a transition whose condition becomes true without any new input fires within a period of that. In an idle period it does not evaluate more often than once per sleep duration (no busy waiting). setEventLoopSleepDuration returns without waiting for the current period to elapse, and get returns the last value set.",
["schedules","configurations"],"all sleep durations, all instants at which a guard flips, changes of the duration while running",
"The tests only check set/get of the duration and that nets finish; nothing measures polls or flips guards at random instants.",
[E+"EventLoop.cpp"],[("timed wait on the event notifier","EventLoop::run"),("duration copied under its own mutex","EventLoop::setSleepDuration")],
[("sleep duration","watchdog period","EventLoop::m_sleepDuration")],["condition evaluation events with timestamps"])

p("C06","Every token move triggers its action exactly once, in every mode",
"Each firing triggers the on-exit action of each of its activation places and the on-enter action of each of its destination places exactly once per arc, whatever the arc weight, and each accepted incrementInputPlace triggers the place's on-enter action exactly once. Initial tokens, rejected calls and transitions that do not fire trigger none. In the asynchronous modes every triggered action still runs exactly once, also when the engine is stopped, restarted or switched to another thread option meanwhile (as long as the engine is not destroyed and the places are not cleared).",
["schedules","inputs","histories"],"all nets, thread options, stop/execute/mode-switch histories, bursts of actions of any length and any interleaving of queue drain and refill",
"The tests count a few calls after sleeping; a job lost in the queue's idle/launch window, or dropped on a mode switch, needs a specific interleaving or history.",
[E+"Executor/JobQueueExecutor.cpp",E+"Executor/DetachedExecutor.cpp",E+"Executor/SingleThreadExecutor.cpp",E+"JobQueue/JobQueue.cpp",E+"Place.cpp",E+"PTN_EngineImp.cpp"],
[("hand every triggered action to the executor","Place::enterPlace/exitPlace"),("job queue relaunch when idle","JobQueue::launch/run"),("executors kept across mode switches","PTN_EngineImp::setActionsThreadOption")],
[("job queue","triggered actions not yet run","JobQueue::m_jobQueue")],["action events"])

p("C07","JOB_QUEUE runs actions one at a time, in triggering order",
"In JOB_QUEUE mode actions execute one at a time, never two at once, and in exactly the order in which they were triggered. So the executed action sequence itself replays as a legal run of the net, and the actions triggered by one thread's successive inputs execute in that thread's order.",
["schedules","inputs"],"all interleavings of firings, inputs from several threads, queue drain/refill, stop/restart, and arbitrary action durations",
"The tests check one short sequence with sleeps; reordering or overlap needs a refill racing the worker's exit.",
[E+"JobQueue/JobQueue.cpp",E+"Executor/JobQueueExecutor.cpp",E+"Place.cpp"],
[("single worker draining a FIFO","JobQueue::run"),("new worker only when the last one has left its loop","JobQueue::launch")],
[("job queue","triggered actions not yet run, FIFO","JobQueue::m_jobQueue")],["begin/end events of actions"])

p("C08","Thread-option contract: where actions run and what they block",
"SINGLE_THREAD runs all conditions and actions synchronously on the calling thread; EVENT_LOOP runs the actions of firings synchronously on the one loop thread that evaluates the conditions, never the caller's; JOB_QUEUE and DETACHED run actions on other threads than the loop and the callers. In JOB_QUEUE and DETACHED a blocked action never blocks the net: other transitions keep firing, and API calls, inputs and stop() keep returning; in DETACHED any number of actions run concurrently. Actions in JOB_QUEUE and DETACHED modes may themselves call the engine's API.",
["configurations","schedules","programs"],"all four thread options, all switches between them while stopped, all action durations",
"The tests observe order and thread ids for one net; they never block actions indefinitely while requiring progress elsewhere, nor after mode switches.",
[E+"Executor/ActionsExecutorFactory.cpp",E+"Executor/DetachedExecutor.cpp",E+"Executor/JobQueueExecutor.cpp",E+"Executor/SingleThreadExecutor.cpp",E+"PTN_EngineImp.cpp",E+"EventLoop.cpp"],
[("executor chosen by thread option","ActionsExecutorFactory::createExecutor"),("all places re-bound on a switch","PlacesManager::setActionsExecutor")],
[],["thread ids and begin/end events of actions and conditions"])

p("C09","requireNoActionsInExecution gates firing on running actions, without wedging",
"A transition created with requireNoActionsInExecution never fires at a moment when an on-enter action of one of its activation places is triggered but not finished; only on-enter actions of its own activation places count. Once they have finished it becomes fireable again and fires within a watchdog period. This holds in every mode, also when its destination places are also activation places, when inputs arrive concurrently in its activation places, and after failed evaluations.",
["schedules","programs"],"all interleavings of action completion, input and evaluation; self-loop and multi-activation nets; all modes",
"One test covers one simple net; the self-loop, concurrent-input and exception paths are never exercised.",
[E+"Transition.cpp",E+"Place.cpp",E+"Executor/JobQueueExecutor.cpp",E+"Executor/DetachedExecutor.cpp"],
[("in-execution counter per place","Place::isOnEnterActionInExecution"),("block on-enter starts during evaluation","Transition::blockStartingOnEnterActions")],
[("in-execution count","on-enter actions triggered and not finished","Place::m_onEnterActionsInExecution"),("block flag","no on-enter action may start","Place::m_blockStartingOnEnterActions")],["begin/end of on-enter actions, firing events"])

p("C10","Concurrent observations are linearizable",
"Token counts read by any thread while others add input are linearizable: a read sees every increment that completed before it began and none that started after it ended, and successive reads of a place that only gains tokens never decrease. The same goes for tokens moved by firings: one whose on-enter action has begun is in the counts read from then on, one whose on-exit action has begun is not. getPlacesProperties and printState taken while inputs arrive are consistent cuts of those inputs across input places, list every place exactly once, and never show torn or impossible values.",
["schedules","histories"],"all interleavings of reader threads with producers, places created meanwhile, and a running loop",
"No test reads concurrently with writes.",
[E+"PTN_EngineImpProxy.cpp",E+"PlacesManager.cpp",E+"Place.cpp"],
[("readers/writer API lock","PTN_EngineImpProxy::m_mutex"),("per-place lock","Place::m_mutex")],
[("token count","tokens in a place","Place::m_numberOfTokens")],["call/return events of getNumberOfTokens, getPlacesProperties, printState"])

p("C11","Overflow is refused, never wrapped",
"A place never exceeds the maximum representable token count: an incrementInputPlace that would overflow throws and leaves the count and the rest of the net unchanged, and triggers no action. No firing ever wraps a token count, and a firing that could not add its output tokens reports an OverflowException to execute() in SINGLE_THREAD mode; counts up to the maximum work exactly.",
["inputs"],"all token counts and weights near the 64-bit boundary, all input/firing histories that reach it",
"One test checks one overflow on a stand-alone place; firings, boundary weights and post-state are not checked.",
[E+"Place.cpp",E+"Transition.cpp"],[("overflow check before the addition","Place::increaseNumberOfTokens")],[("token count","tokens in a place","Place::m_numberOfTokens")],["return/exception of incrementInputPlace and execute, getNumberOfTokens"])

p("C12","Lifecycle: start, stop and restart are prompt, total and safe",
"After stop() returns the loop is not running and no transition fires until execute() is called again, which resumes from exactly the current marking; execute() while running throws and changes nothing; stop() on a stopped engine does nothing. stop() returns promptly however long the watchdog period is, from any thread, concurrently with other calls, and the engine can be destroyed in any state. No history of these calls deadlocks, crashes, loses tokens or leaves two loops running.",
["histories","schedules"],"all histories of execute/stop/isEventLoopRunning/destroy from several threads, in all modes, at all instants of the loop's cycle",
"The tests start and stop once or twice with sleeps; restart races and stop during the idle wait are not reached.",
[E+"EventLoop.cpp",E+"PTN_EngineImp.cpp",E+"PTN_EngineImpProxy.cpp"],
[("stop token plus rendezvous with the loop thread","EventLoop::stop/run"),("running flag","EventLoop::isRunning")],
[("running flag","the loop thread is alive","EventLoop::m_eventLoopThreadRunning")],["call/return events, firing events, process survival"])

p("C13","Rejected calls throw a PTN_Exception and change nothing",
"Every invalid request - unknown, empty or repeated names, repeated or unregistered functions, repeated arcs in a list, zero weights, unknown place/transition/arc in addArc/removeArc, increments of non-input or unknown places, structural edits or mode changes while the loop runs - throws an exception derived from PTN_Exception. It leaves places, tokens, transitions, arcs, registered functions, thread option and running state exactly as before, and the engine fully usable.",
["histories","inputs"],"all sequences of valid and invalid API calls, in any state of the engine",
"The tests check that single invalid calls throw, not that the state is unchanged nor sequences of them.",
[E+"PTN_EngineImp.cpp",E+"Transition.cpp",E+"ManagerBase.h",E+"ManagedContainer.h",E+"PlacesManager.cpp",E+"Place.cpp"],
[("validation before mutation","PTN_EngineImp::createTransition/addArc/removeArc, Transition constructor")],[],["exception type; getPlacesProperties/getTransitionsProperties/getNumberOfTokens before and after"])

p("C14","Introspection reflects exactly the accepted edits",
"After any history of accepted createPlace/createTransition/addArc/removeArc/clearNet/execute/incrementInputPlace calls, getPlacesProperties and getTransitionsProperties describe exactly that net: each place once with its name, current tokens, input flag, action names and callable actions; each transition once with its arcs (place, weight, type), condition names in order, callable conditions and requireNoActionsInExecution (an action or condition given without a registered name is listed with an empty name). A net rebuilt in another engine from these properties is equivalent.",
["histories","programs"],"all editing histories and nets",
"The tests build fixed nets and check a few fields.",
[E+"PTN_EngineImp.cpp",E+"Transition.cpp",E+"Place.cpp",E+"PlacesManager.cpp",E+"TransitionsManager.cpp"],
[("properties assembled from the live net","Transition::getTransitionProperties, Place::placeProperties")],[],["getPlacesProperties","getTransitionsProperties","invoking the returned functions"])

p("C15","XML export then import reproduces the net",
"Exporting a stopped net whose functions are named and importing the file into an engine where the same functions are registered yields an equivalent net: same thread option, places (any name without a NUL byte, full token range, input flag, action names), transitions, condition names in order, requireNoActionsInExecution and arcs with exact weights and types, bound to the right functions. This holds for every net, also when the same exporter or importer object is used again; a file that cannot be written is reported by an exception and exporting a running net is refused.",
["programs","inputs","fault_sequences"],"all nets, names (XML metacharacters, whitespace, UTF-8), token counts and weights over the full 64-bit range, repeated use, write failures",
"No test covers import or export at all.",
[E+"ImportExport/IFileExporter.cpp",E+"ImportExport/IFileImporter.cpp",E+"ImportExport/XML/src/XML/XML_FileExporter.cpp",E+"ImportExport/XML/src/XML/XML_FileImporter.cpp",E+"ImportExport/ActionsThreadOptionConversions.cpp"],
[("attribute-wise export and import","XML_FileExporter / XML_FileImporter"),("mode names","ActionsThreadOptionConversions")],[],["getPlacesProperties/getTransitionsProperties of both engines","token games of both engines"])

p("C16","XML import never corrupts: a valid net or a clean exception",
"Importing any file - malformed, truncated, mutated, of the wrong schema, with absurd numbers or dangling references - either succeeds with a well-formed net or throws an exception derived from PTN_Exception; it never crashes, hangs or invokes undefined behaviour. Whatever was imported obeys the engine's own construction rules (no repeated arcs, no unknown names, no zero-weight inputs to the firing rule other than reset arcs), and the engine remains usable: introspection, clearNet, execute and a later import of a good file work.",
["inputs"],"all byte strings as files, with emphasis on mutations of exported nets and of the shipped assets",
"No test covers the importer.",
[E+"ImportExport/XML/src/XML/XML_FileImporter.cpp",E+"ImportExport/IFileImporter.cpp",E+"ImportExport/ActionsThreadOptionConversions.cpp",E+"PTN_EngineImp.cpp"],
[("parse result check, typed value conversion with error","XML_FileImporter"),("engine-side validation of every created item","PTN_EngineImp::createPlace/createTransition/addArc")],[],["exception type","sanitizer reports","introspection after import"])

p("C17","The public API is free of data races and deadlocks",
"Any mix of public API calls from any number of threads, concurrently with a running event loop and with actions executing (themselves calling the API in JOB_QUEUE and DETACHED modes), is free of data races, undefined behaviour and deadlocks. Every call eventually returns with a result or a PTN_Exception.",
["schedules","histories"],"all interleavings of all public calls, in all threaded modes",
"The tests drive the API from one thread at a time, without a race detector.",
[E+"PTN_EngineImpProxy.cpp",E+"PTN_EngineImp.cpp",E+"PlacesManager.cpp",E+"TransitionsManager.cpp",E+"Place.cpp",E+"Transition.cpp",E+"EventLoop.cpp",E+"JobQueue/JobQueue.cpp",E+"ManagedContainer.h"],
[("API lock, manager locks, per-item locks","PTN_EngineImpProxy::m_mutex, *_itemsMutex, Place/Transition::m_mutex")],[],["ThreadSanitizer reports","progress of every thread"])

p("C18","Teardown and reconfiguration are memory-safe with actions in flight",
"Destroying the engine, clearing the net or changing the thread option while triggered actions are pending or running, in any mode, causes no use-after-free, leak, double free, crash or deadlock, provided the objects the user's actions capture outlive them. Detached actions still running after destruction finish normally. No memory is leaked over any number of build/run/clear/destroy cycles.",
["schedules","histories"],"all points of an action's life (queued, starting, running, finishing) at which teardown or reconfiguration can happen; cycles of any length",
"The tests sleep until everything is done before destroying the engine, and run without sanitizers.",
[E+"Executor/DetachedExecutor.cpp",E+"Executor/JobQueueExecutor.cpp",E+"JobQueue/JobQueue.cpp",E+"Place.cpp",E+"PTN_EngineImp.cpp",E+"EventLoop.cpp"],
[("actions and counters owned by the job","executors' executeAction"),("ordered member destruction, joining threads","EventLoop, JobQueue")],[],["AddressSanitizer/UBSan/LeakSanitizer reports","process survival and termination"])

p("C19","Conflicts are resolved randomly and without bias",
"When, as an evaluation of the net begins, several transitions that are able to fire compete for the same tokens, the one that fires is chosen at random: each competitor is equally likely whatever its name, creation order or position, however many compete and however many arcs or conditions each has; choices in successive rounds and in separate conflicts are independent, and different engines and process runs choose differently.",
["inputs","histories"],"all sets of competing transitions, all rounds, engines and process runs",
"A statistical property: a fixed test sees a few rounds of one free-choice net and accepts any outcome.",
[E+"TransitionsManager.cpp",E+"PTN_EngineImp.cpp"],[("shuffle of the enabled transitions with a fresh random seed","TransitionsManager::collectEnabledTransitionsRandomly")],[],["which competitor fired, over many rounds"])

p("C20","An exception from user code reaches the caller and leaves the engine usable",
"In SINGLE_THREAD mode an exception thrown by a condition or an action during execute(), or by an on-enter action during incrementInputPlace(), propagates unchanged to the caller. A throwing condition leaves the marking untouched; a throwing action leaves every token count legal (the token move that triggered it counted). Afterwards every API call works and a later execute() runs normally, including for transitions with requireNoActionsInExecution. In EVENT_LOOP mode an exception of the on-enter action of incrementInputPlace(), which runs in the caller, reaches that caller the same way while the token it counted is used by the running event loop without waiting for its sleep duration.",
["fault_sequences","programs"],"all points at which a condition or action can throw in the calling thread, in all nets, any number of times",
"No test throws from user code; the specification lists exception safety as to do.",
[E+"Transition.cpp",E+"Place.cpp",E+"Executor/SingleThreadExecutor.cpp",E+"PTN_EngineImpProxy.cpp"],
[("scoped locks, scoped block flag and counter","Transition::execute, SingleThreadExecutor::executeAction")],
[("block flag","no on-enter action may start","Place::m_blockStartingOnEnterActions"),("in-execution count","running on-enter actions","Place::m_onEnterActionsInExecution")],["exception identity at the caller, marking, later runs"])

p("C21","Registered functions are bound by name, exactly and permanently",
"A place or transition that names a registered function invokes exactly the function registered under that name, for every number of registered functions and any names; conditions of a transition are all required, evaluated with their current value. Re-registering a name or referencing an unregistered one is refused without altering existing bindings, functions registered later never change existing places or transitions, and a named function takes precedence over an anonymous one given alongside.",
["inputs","histories"],"all registries, names and binding histories, including registration while the net runs",
"The tests register a few functions in one fixed net.",
[E+"ManagedContainer.h",E+"PTN_EngineImp.cpp",E+"Place.cpp",E+"Transition.cpp"],
[("lookup by name at creation, copy into the place/transition","PTN_EngineImp::createPlace/createTransition, ManagedContainer")],[],["which function was invoked"])

p("C22","The execution log is a faithful trace",
"execute(true, stream) writes one complete snapshot of the marking, naming every place (of a name without line breaks) once with its exact token count, at the start of every evaluation pass, to that stream and no other. The sequence of snapshots is explained by legal firings (each transition at most once per pass) and inputs, starts with the marking at execute() and, when the net comes to rest, ends with the final marking; printState uses the same format, and execute(false) logs nothing.",
["programs","schedules"],"all nets, names, markings and passes",
"The tests never read the log.",
[E+"PTN_EngineImp.cpp",E+"PlacesManager.cpp",E+"EventLoop.cpp"],[("state printed at the start of each pass","PTN_EngineImp::executeInt, PlacesManager::printState")],[],["the log stream"])

p("C23","The job queue runs every accepted job exactly once, in order",
"The job queue component runs every job added to it exactly once, in the order added and one at a time, over any history of adding, activating and deactivating. While deactivated it starts no job and keeps the pending ones; activation resumes them; deactivation and destruction return without losing a running job, crash or deadlock.",
["histories","schedules"],"all histories of addJob/activate/deactivate by a controlling thread, concurrent addJob calls from several threads, and all instants of the worker's life",
"The tests add a few jobs and sleep.",
[E+"JobQueue/JobQueue.cpp"],[("worker launched when jobs are pending and the queue is active","JobQueue::launch"),("stop token checked between jobs","JobQueue::run")],
[("active flag","jobs may be started","JobQueue::m_isJobQueueActive"),("running flag","a worker is in its loop","JobQueue::m_isJobQueueRunning")],["job begin/end events"])

p("C24","Engine instances are independent",
"Any number of engines in one process, of any thread options, run concurrently without influencing each other: the net structure, marking, registered functions, thread option, watchdog period and running state of one never depend on what is done to another, and each behaves as it would alone. Equal place, transition or function names in different engines do not interfere.",
["configurations","schedules","histories"],"all sets of engines living at once, all interleavings of their use",
"No test uses two engines at once.",
[E+"PTN_EngineImp.cpp",E+"PTN_EngineImpProxy.cpp",E+"EventLoop.cpp",E+"JobQueue/JobQueue.cpp",E+"TransitionsManager.cpp"],
[("all state held per instance","PTN_EngineImp members")],[],["markings, actions and properties of several engines at once"])

p("C25","A call that runs out of memory or threads fails cleanly",
"When the memory or the thread a call needs cannot be had, at whatever point of the call, it throws (std::bad_alloc, std::system_error or a PTN_Exception) or absorbs the fault and completes; it never crashes, deadlocks or leaves the net half changed. After createPlace, createTransition, addArc, removeArc, registerAction, registerCondition, clearNet, setActionsThreadOption, setEventLoopSleepDuration, the queries, printState, an export, or an execute() that failed to start the event loop, everything observable is as before the call, and repeating the call works as if it had never failed. A failing incrementInputPlace() may have counted its token, whose on-enter action is then not run; the net uses that token and nothing stays blocked. An import that failed leaves only items of its document.",
["fault_sequences","histories"],"all allocations and thread starts made by the calling thread within an API call, in all histories of calls",
"No test makes an allocation or a thread start fail.",
[E+"PTN_EngineImp.cpp",E+"PlacesManager.cpp",E+"TransitionsManager.cpp",E+"ManagedContainer.h",E+"Transition.cpp",E+"EventLoop.cpp",E+"JobQueue/JobQueue.cpp",E+"Executor/JobQueueExecutor.cpp",E+"Executor/DetachedExecutor.cpp"],
[("items constructed in full before they are inserted","PTN_EngineImp::createPlace/createTransition, ManagerBase::insert"),("both halves of a bidirectional arc or none","Transition::addArc/removeArc"),("state set back when a thread cannot be started","EventLoop::start, JobQueue::launch")],
[("event loop running","the loop's thread exists","EventLoop::m_eventLoopThreadRunning"),("running flag","a worker is in its loop","JobQueue::m_isJobQueueRunning"),("in-execution count","running on-enter actions","Place::m_onEnterActionsInExecution")],["introspection after every failed call, token counts and actions of later runs"])

p("C26","Import builds exactly the net the document describes",
"Importing a well-formed document, whoever wrote it, makes the engine's net exactly the one described: every place with its token count, input flag and actions, every transition with its conditions and flag, every arc with its kind and weight - whether the arc is listed in Arcs (activation, destination, inhibitor or bidirectional) or inside its transition - and the actions thread option. Absent or empty optional attributes mean their defaults (no tokens, no input place, no action, weight 1). The spelling of the document (XML encoding, character references, quotes, order of attributes and elements, comments, white space) is without effect. What the engine held before stays, a running engine is stopped, references to places, transitions and functions that existed before are honoured, and imports by several importers at once do not interfere.",
["inputs","configurations","histories"],"all nets, all well-formed documents describing them, and all engine states to import into",
"The tests import a handful of documents, most of them written by the exporter.",
[E+"ImportExport/IFileImporter.cpp",E+"ImportExport/XML/src/XML/XML_FileImporter.cpp",E+"ImportExport/ActionsThreadOptionConversions.cpp",E+"ImportExport/ImporterFactory.cpp"],
[("attributes and child elements read by name, with defaults","XML_FileImporter::importPlaces/importTransitions/importArcs"),("engine stopped, option set, places, transitions, then arcs created","IFileImporter::_importInt")],[],["introspection and runs of the imported net"])

out=pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
