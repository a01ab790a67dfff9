#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

SQ = "src/naive/naive_serial_queue.cpp"; PQ = "src/naive/naive_parallel_queue.cpp"
OQ = "src/naive/naive_operation_queue.cpp"; TP = "src/naive/naive_threadpool.cpp"
SEM = "src/naive/naive_semaphore.cpp"; MGR = "src/naive/naive_operation_queue_manager.cpp"
MT = "src/naive/naive_manual_thread.cpp"; OPS = "src/naive/naive_operations.cpp"
GRP = "src/naive/naive_group.cpp"; CON = "src/naive/naive_consumable.cpp"
TIM = "src/naive/naive_timer.cpp"; SOC = "src/naive/naive_socket_notifier.cpp"
SIG = "src/signals.cpp"; SIGH = "include/xdispatch/signals.h"; CAN = "src/cancelable.cpp"
LB = "src/lightweight_barrier.cpp"; WQ = "src/waitable_queue.cpp"

p("C01", "Every submitted operation is executed exactly once",
  "Every operation submitted to any serial or parallel queue is eventually executed, and it is executed exactly once per submission. This holds no matter which thread submits it, whether the submission happens from inside another operation, whether all handles to the queue are dropped right after submitting, and whether worker threads have been idle long enough to expire.",
  ["schedules", "programs"],
  "for every set of queues, every tree of (nested) submissions from any number of threads, every burst size, every idle gap between bursts and every thread schedule",
  "Tests submit a few operations from one thread and sample one timing; a lost wake-up, a dropped tail operation or a double drain needs a particular interleaving of submit, drain, worker idle/expiry and queue release.",
  [TP, SEM, OQ, MGR, SQ, PQ, MT],
  [("counting semaphore plus priority buckets hand operations to workers", TP), ("a drain re-notifies itself while operations remain; a final operation releases a dropped queue", OQ), ("spawn/idle/expire accounting of workers", TP)],
  ["execution count of every submitted operation once the system is quiescent"])
p("C02", "A serial queue runs one operation at a time, in submission order",
  "Operations of one serial queue never overlap in time and are started in the order in which they were submitted, where submissions are ordered by program order of a thread or any other happens-before relation. Effects of an operation are visible to all later operations of the same queue without extra synchronization, and so is everything done by the submitting thread before it submitted.",
  ["schedules", "programs"],
  "for every number of serial queues sharing the thread pool, every set of submitting threads and nested submissions, every burst length around the internal batching limit and every schedule",
  "Tests check order for one producer and one queue on one timing; an overlap, a reorder or a missing ordering edge shows only when drains move between threads or a producer races the end of a drain.",
  [OQ, SQ, TP],
  [("only one drain is pending or active at a time; operations leave the list only after completion", OQ)],
  ["begin/end events of operations; unsynchronized data touched only from operations of the queue"])
p("C03", "A parallel queue starts operations while the pool has free capacity",
  "As long as fewer pool threads are occupied than the machine's thread count, an operation submitted to a parallel queue (or a serial queue with nothing ahead of it) starts without any other operation having to finish first. In particular a set of operations that can only complete together completes whenever it is no larger than the thread count.",
  ["schedules", "programs", "configurations"],
  "for every thread count, every set of mutually dependent operations up to that size, every history that leaves some workers idle, waking, expiring or newly started, and every schedule",
  "A wake-up lost between a worker that is just waking and a new submission leaves an operation stuck behind a blocked one although capacity is left; the existing tests only notice it as a rare hang.",
  [TP, SEM, PQ],
  [("spawn decision from idle and active counts", TP), ("wake-up of waiting workers", SEM)],
  ["completion of groups of operations that wait for each other"])
p("C04", "apply runs each index exactly once and returns only afterwards",
  "Applying an operation n times calls it exactly once for every index 0 to n-1, in index order and without overlap on a serial queue, and returns only after all calls have completed with their effects visible to the caller. Zero iterations return immediately, and an apply issued from inside an operation of a different queue completes as well, nested to any depth.",
  ["schedules", "inputs", "programs"],
  "for every n, every queue kind, any number of concurrent callers, nested applies and every schedule",
  "Tests use a handful of sizes; early return, a missing index or starvation by nested blocking calls depend on n versus the number of threads and on timing.",
  [PQ, SQ, OPS, CON, "src/queue.cpp"],
  [("completion counter consumed by each iteration", CON), ("blocked callers raise the pool's thread limit", TP)],
  ["calls per index, overlap, unsynchronized data written by iterations and read by the caller"])
p("C05", "Waiting on a group returns true only after all its operations ran",
  "A wait on a group returns true only if every operation that was added to the group before the wait began has finished, and the effects of those operations are then visible to the waiter. If operations are outstanding it returns false no earlier than the given timeout, it never blocks beyond the timeout other than by scheduling delay, without a timeout it returns once they finished, and an empty group returns true at once.",
  ["schedules", "histories"],
  "for every history of additions, completions and (timed, repeated, concurrent) waits on one group over any mix of queues, and every schedule",
  "Tests add everything first and wait once; early success needs additions after a completion, repeated or timed-out waits, or concurrent waiters.",
  [GRP, CON, OPS, LB, "src/group.cpp"],
  [("per-wait counters chained to their predecessors", GRP), ("last completion opens a barrier", CON)],
  ["wait results against completion events; virtual time at return"])
p("C06", "A group notification is submitted once, after the group's work",
  "A notification registered with a group is executed exactly once on the requested queue, and not before every operation that was added to the group before the registration has finished. On an empty group it is submitted promptly, and registering any number of notifications never prevents the group's operations or other queues from making progress.",
  ["schedules", "histories"],
  "for every history of additions, waits and several notifications on one group over any mix of queues, and every schedule",
  "Tests wait a fixed time and look at the final count; a premature notification or one starving the pool depends on durations and on pool occupation.",
  [GRP, CON, TP],
  [("a pool operation waits for the group and then submits", GRP)],
  ["begin event of the notification against end events of the group's operations; executing queue"])
p("C07", "A delayed operation runs once, on its queue, not before its delay",
  "An operation submitted with a delay is executed exactly once, on the queue it was submitted to and under that queue's ordering guarantees, and never before the delay has elapsed. It is executed even if the queue handle is dropped meanwhile, and everything it captured is released after it ran.",
  ["schedules", "inputs", "programs"],
  "for every delay including zero, every queue kind, any number of concurrent delayed and plain operations and every schedule",
  "Tests check one delay on wall-clock time; double execution, early execution or use of freed state needs particular interleavings of expiry, execution and release.",
  [SQ, PQ, OPS, TIM, WQ],
  [("self-owned one-shot timer released by its own operation", OPS)],
  ["virtual time and count of executions; lifetime of captured objects"])
p("C08", "A timer fires on its queue at its interval, never early, never twice",
  "After being resumed a timer first fires no earlier than the given delay and then keeps firing as long as it runs, with at least the configured interval between two firings and without ever firing twice concurrently; a timer without interval fires exactly once. While a timer is suspended no new firings happen after the one that may already be under way, and resuming it again starts one regular series of firings, however quickly suspend and resume follow each other.",
  ["schedules", "histories"],
  "for every interval, delay and handler duration, every balanced history of resume and suspend from any thread including the handler, every target queue and every schedule",
  "Tests sample a few wall-clock scenarios; duplicate series after a quick suspend/resume or firings while suspended depend on where the timer's worker is at that moment.",
  [TIM, "src/timer.cpp"],
  [("one borrowed pool worker per resumed timer", TIM), ("running counter", TIM)],
  ["virtual times of handler begin/end; executing queue"])
p("C09", "Once cancelling a timer returns, its handler never runs again",
  "When cancelling a timer from outside its handler returns, the handler is not running and is never run again, whatever else is called on the timer afterwards. When it is cancelled from within the handler, the call does not block and the handler is not started again after the current run.",
  ["schedules", "histories"],
  "for every position of one or several cancel calls relative to the firing series, from the handler, from other queues and from plain threads, followed by arbitrary further calls, and every schedule",
  "Tests cancel at a couple of fixed wall-clock times; a late or still running handler after cancel needs cancel to hit the gap between expiry, queueing and start of the handler.",
  [TIM, CAN, LB],
  [("cancellation scope entered around every handler run", CAN)],
  ["handler begin/end events against return of cancel; data destroyed right after cancel"])
p("C10", "A socket notifier reports readiness on its queue, once at a time",
  "While a notifier is resumed and its socket is ready for the monitored direction, its handler is invoked on the target queue with that socket and direction, again and again until the condition ends, and never twice concurrently. It is not invoked for readiness in the other direction or on another socket.",
  ["schedules", "histories", "inputs"],
  "for every history of writes, reads and handler actions on a connected socket pair, both directions, every target queue, several notifiers at once and every schedule",
  "Tests do a single ping-pong; missed readiness after the handler ran, concurrent handlers or a wrong direction show only over longer histories.",
  [SOC, "src/socket_notifier.cpp"],
  [("a borrowed pool worker selects on the socket and waits for the handler", SOC)],
  ["handler invocations against bytes written and read"])
p("C11", "Suspend and cancel of a socket notifier stop its handler",
  "When cancelling a notifier from outside its handler returns, the handler is not running and never runs again, even if the notifier is resumed afterwards; cancelling from within the handler does not block. While suspended at most the invocation already under way happens, after a balanced resume readiness is reported again, and a socket closed under a notifier or one with a large descriptor number neither crashes, corrupts memory, nor keeps a thread busy.",
  ["schedules", "histories", "fault_sequences"],
  "for every history of resume, suspend, cancel, close and traffic from any thread, every descriptor number the process may own and every schedule",
  "Tests cancel once in a quiet state; a lost resume, two parallel watchers or a handler after cancel depend on where the watcher is blocked.",
  [SOC, CAN],
  [("worker cookie and resume counter", SOC), ("cancellation scope", CAN)],
  ["handler events against return of cancel/suspend; number of polls without progress"])
p("C12", "Every emit reaches every single-update handler exactly once",
  "Each emit of a signal results in exactly one invocation, with exactly the emitted values, of every handler that was connected before the emit, stays connected and asked for individual updates, executed on the handler's queue; handlers never see an emit that was completed before they were connected. On a serial queue the invocations happen in emit order, and a chained signal re-emits exactly the same sequence of values.",
  ["schedules", "programs"],
  "for every number of signals, handlers, queues (serial and parallel), emitting threads and chains, and every schedule",
  "Tests emit from one thread to serial queues; lost or merged emits need overlapping invocations on a parallel queue or emits racing connects.",
  [SIGH, SIG, CAN],
  [("one queued invocation per emit and handler", SIGH), ("enter/leave accounting per handler", CAN)],
  ["multiset and order of received values per handler"])
p("C13", "Batched handlers never miss the last emit and never go silent",
  "A handler that asked for batched updates is invoked at least once after every emit, i.e. no emit is left without an invocation that starts after it, and never more often than there were emits. Every invocation carries values that were actually emitted, and the handler keeps reacting to later emits whatever happened before.",
  ["schedules", "programs"],
  "for every pattern of emits from any number of threads, handler durations, serial and parallel target queues and every schedule",
  "Tests count calls for one burst; a pending counter that leaks on some path silences the handler only in later bursts.",
  [SIGH, SIG, CAN],
  [("pending counter per handler", SIGH)],
  ["begin times and values of invocations against emit times"])
p("C14", "Once disconnecting returns, the handler never runs again",
  "When disconnecting a handler or destroying its signal returns, the handler is not running and will not be invoked anymore, even for emits made earlier, regardless of how many threads disconnect at the same time. Disconnecting from inside the handler itself does not block and lets only the current invocation finish; a connection whose signal is already gone can still be used safely and reports being disconnected.",
  ["schedules", "histories"],
  "for every placement of one or more disconnects (explicit, scoped, by manager, by signal destruction) relative to emits and running or queued invocations, on serial and parallel queues, and every schedule",
  "Tests disconnect while idle or with one running handler; a second disconnect, an overlapping invocation or a destroyed signal with queued invocations is not sampled.",
  [SIG, SIGH, CAN, LB],
  [("disable waits for a running invocation", CAN), ("handler list under lock", SIG)],
  ["handler begin/end events against return of disconnect; data destroyed right after it"])
p("C15", "Connection objects behave like unique owners of a connection",
  "Connections, scoped connections and connection managers report and change the connected state exactly like a simple model: copies refer to the same connection, moving or taking transfers ownership, scopes and managers disconnect what they own when destroyed or reset (selectively by signal), and disconnecting reports whether there was something to disconnect. Skipping queued invocations suppresses only what was queued before it and later emits are delivered again.",
  ["histories", "programs"],
  "for every sequence of connect, copy, move, assign, take, disconnect, compare, reset, skip and emit over several signals and owners",
  "Tests cover each operation in isolation; wrong results after moves, self-references, skip followed by emit or selective resets need sequences.",
  [SIG, SIGH],
  [("weak handle plus parent pointer; scoped wrapper disconnects on destruction", SIG), ("handlers marked as skipped", SIG)],
  ["connected state, comparison results and delivered values after every step"])
p("C16", "A signal barrier opens on the first emit and keeps its values",
  "Waiting on a signal barrier returns true exactly when the signal was emitted after the barrier was created, no later than the timeout otherwise, and from then on the barrier reports the values of one single emit, unchanged by later emits. Asking for values before that fails cleanly, and constructing or destroying a barrier is safe at any time relative to emits.",
  ["schedules", "inputs"],
  "for every number of emitting threads and barriers, arguments with and without default construction, every timeout and every schedule",
  "Tests emit once after construction; an emit that races construction or a second emit that overwrites the values is never sampled.",
  ["include/xdispatch/signals_barrier.h", SIGH, LB],
  [("handler disconnects itself, then opens the barrier", "include/xdispatch/signals_barrier.h")],
  ["results of wait and reported values against emitted values"])
p("C17", "Barriers release every waiter exactly when completed",
  "A wait on a barrier or barrier operation returns true if and only if it was completed or executed, all waiters present and future are released by completion, and a timed wait returns false only after its full timeout without completion. Everything done before completing is visible to a released waiter, for any number of waiters, completers and timeouts.",
  ["schedules", "inputs"],
  "for every set of concurrent waiters with and without timeouts, pollers and completers, spurious failures of weak atomic operations and spurious wake-ups, and every schedule",
  "Tests use one waiter and one completer on x86, where weak operations never fail spuriously.",
  [LB, "src/barrier_operation.cpp", "include/xdispatch/impl/lightweight_barrier.h"],
  [("single atomic slot holding nothing, a shared waiter, or completed", LB)],
  ["return values and virtual time of waits"])
p("C18", "A waitable queue executes like its inner queue and its waits cannot hang",
  "Operations of a waitable queue are executed exactly once, in order and without overlap, whether by the inner queue or by a waiting thread. Waiting for all returns only after everything submitted before it has completed, waiting for one returns only after an operation completed that no other wait accounted for, or if nothing is left to wait for, and neither can hang even if the inner queue never gets a thread.",
  ["schedules", "histories", "programs"],
  "for every history of submissions, apply, delayed operations and waits from several threads over serial, parallel and starved inner queues, and every schedule",
  "Tests run one producer and one waiter; lost completions or hangs need the waiter and the inner queue to race for the same operation.",
  [WQ, OPS],
  [("shared worker drains one operation per activation under a lock and an active flag", WQ)],
  ["execution count, order, overlap; completion state when waits return"])
p("C19", "Mixing backends is rejected with an error, not with a crash",
  "Combining a timer or socket notifier implementation with a target queue of another backend throws the documented logic error and leaves both usable; matching backends and default constructed objects always work. Objects report the target queue, socket, direction and label they were created with, and queue equality means sharing the same underlying queue.",
  ["configurations", "inputs"],
  "for every combination of backends of queue, timer, notifier and group, created through public constructors or implementations, and arbitrary labels",
  "Tests never combine different backends, and the documented error terminates the process instead.",
  ["src/timer.cpp", "src/socket_notifier.cpp", "src/group.cpp", "src/trace_utils.cpp", "src/backend.cpp", "src/queue.cpp"],
  [("backend comparison in constructors", "src/trace_utils.cpp")],
  ["thrown exception type; later operation of the objects"])
p("C20", "Pending operations of a saturated pool start in priority order",
  "When all threads of the pool are occupied, a thread that becomes free next starts an operation of the highest priority that is pending, in submission order within a priority for one submitter. Global queues of equal priority are the same queue, and what is created or submitted without naming a priority has the default one.",
  ["schedules", "programs"],
  "for every multiset of pending operations over all priorities and queue kinds, every number of threads and every schedule",
  "The existing test checks one mix and accepts most orders.",
  [TP, "src/backend.cpp"],
  [("one bucket per priority searched from the highest", TP)],
  ["start order of operations queued while the pool was blocked"])
p("C21", "Operations run on the thread or pool their queue was created for",
  "Operations of the main queue run only on the thread inside the main loop, operations of a queue created for a custom thread or pool are executed only through that pool with the queue's priority, and no notification to such a pool is ever missing or surplus such that an operation would not run. A custom pool that runs what it is handed sequentially, concurrently or late always yields the queue guarantees. Group operations and notifications, timers, notifiers and connections (single updates) for which no queue is named use the global queue.",
  ["schedules", "programs", "configurations"],
  "for every mix of main queue and custom pools with arbitrary worker behaviour, concurrent producers and every schedule",
  "Tests run the main queue once and use only the built-in pool.",
  [SQ, PQ, OQ, MT, "include/xdispatch/backend_naive_ithreadpool.h"],
  [("work handed to the pool interface", OQ), ("main loop swaps and runs queued work", MT)],
  ["thread and pool executing each operation"])
p("C22", "Operations and captured state live until executed and are then released",
  "An operation and whatever it captured stay alive until its execution has completed and are released exactly once soon afterwards, once nothing can execute it anymore. Releasing may happen on any thread and the released objects' destructors may themselves submit, drop queues, groups or timers without deadlock.",
  ["schedules", "programs"],
  "for every way of submitting (plain, applied, delayed, grouped, notified, timer, notifier, signal, waitable), every nesting of such calls in destructors and every schedule",
  "Tests do not observe lifetimes; leaks through cyclic ownership or destructors running under a lock stay invisible.",
  [OQ, TP, OPS, GRP, TIM, SOC, WQ, SIGH],
  [("shared ownership of operations, released outside of locks", OQ)],
  ["construction and destruction of captured tokens"])
p("C23", "No data race, no use after free under any mix of concurrent calls",
  "Using queues, groups, timers, notifiers and signals concurrently from any threads, as documented, never leads to a data race, a use of freed memory, a deadlock or termination inside the library.",
  ["schedules", "programs"],
  "for every random program mixing all facilities with nested use, destruction of handles at any time, spurious wake-ups and spurious weak-CAS failures, and every schedule",
  "The tests exercise facilities one at a time on benign schedules and are not run with race detection.",
  ["src", "include/xdispatch"],
  [("locks, atomics and ownership throughout the implementation", "src/naive")],
  ["happens-before race detection, freed-memory shadow, deadlock detection over the whole run"])
p("C24", "Blocking inside operations through the library does not starve the pool",
  "Operations that block in a nested apply, a group wait, or because many timers, delayed operations and notifiers are pending do not consume the pool's capacity: other submitted operations are still executed, and when the blocking ends the number of usable threads is what it was before.",
  ["schedules", "programs", "configurations"],
  "for every depth and width of nested blocking calls, every number of simultaneously pending timers and notifiers far beyond the thread count, and every schedule",
  "Tests nest one or two levels on machines with many cores.",
  [TP, CON, TIM, SOC],
  [("blocked threads raise the limit for the time being", TP)],
  ["progress of probe operations; concurrency limit observed afterwards"])
p("C25", "A Qt object's connections end with the object",
  "A signal connection tied to a Qt object stays active while the object lives and is disconnected when the object is destroyed or explicitly disconnected from that signal; afterwards its slot is never called, and connections to other signals or of other objects are unaffected. Slots of the main queue, the default, run on the application's thread, once per emit unless batched.",
  ["histories", "schedules"],
  "for every history of connecting, emitting, disconnecting and destroying objects and signals on the main and other queues",
  "Tests cover one object and one signal.",
  ["src/qt5/qt5_signals.cpp", "src/qt5/qt5_signals.h", "include/xdispatch/backend_qt.h"],
  [("child object holding a connection manager", "src/qt5/qt5_signals.h")],
  ["slot invocations against a model of live connections"])
p("C26", "Qt-backed queues keep the queue contract",
  "A serial queue on a Qt thread executes every operation exactly once, in order, on that thread, and the main queue does so on the application's thread while its event loop runs. A parallel queue on a Qt thread pool executes every operation exactly once on that pool, supports apply, also from its own operations, delayed operations, groups, timers and socket notifiers, starts pending operations of a saturated pool in priority order, keeps the pool's number of usable threads, and can be dropped at any time, also by its own operations.",
  ["histories", "schedules", "configurations"],
  "for every mix of Qt serial, parallel and main queues, thread counts, producers and drops of queue handles",
  "Tests run a few operations per Qt queue.",
  ["src/qt5/qt5_serial_queue.cpp", "src/qt5/qt5_threadpool.cpp", "src/qt5/qt5_parallel_queue.cpp", "src/qt5/qt5_timer.cpp", "src/qt5/qt5_socket_notifier.cpp", "src/backend.cpp"],
  [("events posted to a proxy object living in the thread", "src/qt5/qt5_serial_queue.cpp"), ("runnables started in the pool", "src/qt5/qt5_threadpool.cpp")],
  ["executing thread, order and count of operations"])
p("C27", "The process may end at any time",
  "Returning from main while operations are pending, running or blocked and while static queues, waitable queues, groups, timers and signals are destroyed neither crashes, hangs, corrupts memory nor uses destroyed state of the library; exit handlers and destructors of static objects may still submit operations and wait for them, and an operation that began before the end keeps its guarantees until the process is gone.",
  ["histories", "schedules", "configurations"],
  "for every set of static objects, pending operations and schedules of the threads still running at exit",
  "Tests end once all of their operations are done.",
  ["src/backend.cpp", "src/naive/naive_serial_queue.cpp", "src/naive/naive_operation_queue_manager.cpp", "src/naive/naive_threadpool.cpp", "src/trace_utils.cpp"],
  [("library-wide state is created on first use and never destroyed", "src/naive/naive_threadpool.cpp"), ("queues shared by all users", "src/backend.cpp")],
  ["exit of the process, operations run by threads outliving main"])
p("C28", "Threads are bounded, end when idle, and nothing spins",
  "While no operation blocks, the pool executes at most twice the configured number of threads' operations at the same time and creates no more threads than that (except for one while another is just about to end); a thread blocked through the library (group waits, applies, running timers and notifiers, barriers) is compensated by one more only while it is blocked. Threads of the pool end once they have been idle for a minute, whatever was executed before. While nothing is pending no thread of the library consumes CPU time: neither workers nor suspended, cancelled or dropped timers and notifiers, even if their descriptor stays readable; running ones merely wait.",
  ["histories", "schedules", "configurations"],
  "for every history of bursts, blocking operations, timers and notifiers, every thread count and schedule",
  "Tests neither count threads nor observe the idle process; a leaked thread, an accounting slip of blocked threads or a busy loop leaves all results unchanged.",
  [TP, SEM, TIM, SOC, GRP, LB, MGR],
  [("spawn, idle, expiry and blocked accounting", TP), ("workers wait for a bounded time", SEM), ("block scopes around blocking waits", "src/naive/naive_threadpool.h"), ("helper operations end on suspend and cancel", TIM)],
  ["operations executing at once, number of threads, scheduling steps consumed while idle"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
