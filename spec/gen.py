#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl and MANIFEST.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "cpp_utils/include/cpp_utils/"
S = "cpp_utils/src/cpp/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, how):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}, how=how))


MC = "stateless model checking of the real code (controlled scheduler, bounded deviations, happens-before race detection)"
SEQ = "exhaustive bounded enumeration of the real code against a reference model (explicit-state, ASan+UBSan)"
PY = "stateless model checking of the real Python code under a controlled thread scheduler"

NOTEST = "The unit tests of this component need Fast DDS and do not run in this build; where they run they sample a handful of fixed cases."

prop("C01", "Wait handlers: no lost wake-up and a truthful awake reason",
     "A thread that waits on an enabled wait handler returns as soon as the waited condition holds for the stored value and no thread stays blocked once its condition holds permanently, however value changes, opens, increments and waits interleave. "
     "The returned reason is truthful: condition_met only if the condition held for the value at the moment of waking while the handler was enabled, timeout only if the requested milliseconds elapsed (and never when no timeout was asked) with the condition false, then without further delay, disabled only if the handler was or had been disabled. "
     "Changing or reading the value never races with waiters, and a value set without notification is still seen by any later wait.",
     ["schedules", "inputs"], "every interleaving of up to 4 threads doing wait/set/open/close/++/-- on Boolean, Int, generic and Counter handlers, with time-outs firing at any allowed moment and spurious wake-ups",
     "Tests start threads, sleep and look: each covers one timing. A lost wake-up or an untruthful reason needs a particular interleaving of the predicate check, the value change and the notification.",
     [I + "wait/WaitHandler.hpp", I + "wait/impl/WaitHandler.ipp", S + "wait/BooleanWaitHandler.cpp", S + "wait/IntWaitHandler.cpp", S + "wait/CounterWaitHandler.cpp"],
     [("predicate wait under the mutex", I + "wait/impl/WaitHandler.ipp: blocking_wait_"), ("value change and notification", I + "wait/impl/WaitHandler.ipp: set_value")], MC)

prop("C02", "Disabling or destroying a wait handler releases every waiter",
     "After blocking_disable, stop_and_continue or destruction starts, and after disable for as long as the handler stays disabled, every thread waiting on the handler, for any of its conditions, returns with reason disabled, and waits on a disabled handler return disabled at once until it is enabled again. "
     "blocking_disable, stop_and_continue and destruction return, and only after every thread that was waiting has stopped using the handler, so that destroying a handler with waiting threads never touches freed or destroyed state. "
     "stop_and_continue leaves the handler enabled, and enable/disable calls from several threads may be mixed freely.",
     ["schedules"], "every interleaving of waiters (plain, timed, counter-threshold and consumer waits) with disable, enable, blocking_disable, stop_and_continue and destruction",
     "Needs the disable to fall exactly between a waiter's check and its block, or a waiter to be still leaving when the owner frees the handler; tests sleep instead.",
     [I + "wait/impl/WaitHandler.ipp", S + "wait/CounterWaitHandler.cpp"],
     [("disable and waiting-thread count", I + "wait/impl/WaitHandler.ipp: disable, blocking_disable, ~WaitHandler, stop_and_continue"), ("threshold waiters", S + "wait/CounterWaitHandler.cpp: wait_threshold_reached")], MC)

prop("C03", "Counter wait handler: each unit above the threshold is taken exactly once",
     "Every increment above the threshold lets exactly one wait_and_decrement succeed: the number of successful waits never exceeds, and once all waiters have had their chance equals, the units available, the value never passes below the threshold, and no unit is stranded while a thread waits for it. "
     "Timed out or disabled waits consume nothing. "
     "A thread waiting for the threshold to be reached wakes when the value becomes equal to the threshold, from either side.",
     ["schedules", "inputs"], "every interleaving of up to 3 consumers, 2 producers and threshold waiters, thresholds and initial values 0..2, with time-outs",
     "Single-notification chaining between waiters only breaks under specific orders of increment, wake-up and time-out that tests with sleeps do not produce.",
     [S + "wait/CounterWaitHandler.cpp", I + "wait/CounterWaitHandler.hpp"],
     [("single notification chaining", S + "wait/CounterWaitHandler.cpp: operator++, decrease_1_nts_"), ("threshold notification", S + "wait/CounterWaitHandler.cpp: wait_threshold_reached")], MC)

prop("C04", "Consumer queue: every produced item is consumed exactly once, in order",
     "With any number of producers and consumers, each value given to produce is returned by exactly one consume, values of one producer come out in the order they were produced, and no consumer blocks while values are available. "
     "consume throws the disabled exception only if the queue is or was disabled and the timeout exception only if its time elapsed without a value; a consume that throws takes nothing, values left survive disable and enable, and a value that fails to be produced is not counted. "
     "elements_ready_to_consume and wait_all_consumed agree with the values produced and not yet taken.",
     ["schedules", "histories"], "every interleaving of up to 2 producers and 3 consumers with time-outs and disable/enable, and all operation sequences up to depth 7",
     "Duplicate, lost or reordered items need two consumers inside the buffer swap at once or a time-out racing a wake-up.",
     [I + "wait/impl/ConsumerWaitHandler.ipp", I + "wait/impl/DBQueueWaitHandler.ipp", I + "queue/DBQueue.hpp"],
     [("produce/consume protocol", I + "wait/impl/ConsumerWaitHandler.ipp"), ("swap under the pop mutex", I + "wait/impl/DBQueueWaitHandler.ipp: get_next_value_")], MC)

prop("C05", "Thread pool: each emitted task runs exactly once, on a pool thread",
     "Every emit of a registered slot on an enabled pool results in exactly one execution of that slot's callback, by a pool thread, with no emission lost however emits, workers and waits interleave; emits made while the pool is disabled are kept and executed once it is enabled. "
     "Emitting or using an unregistered task id, or registering an id twice, is rejected with ValueNotAllowedException and changes nothing. "
     "wait_all_consumed returns condition_met only when every task emitted so far has been executed completely.",
     ["schedules", "histories"], "every interleaving of up to 3 workers and 2 emitters, pools created enabled or disabled, and operation histories of slot/emit/enable/disable",
     "Tests emit, sleep and count; a lost or doubled task needs a specific order of worker start, emission and disabling.",
     [S + "thread_pool/pool/SlotThreadPool.cpp", S + "thread_pool/thread/CustomThread.cpp", S + "thread_pool/task/TaskId.cpp"],
     [("task queue and worker loop", S + "thread_pool/pool/SlotThreadPool.cpp: emit, thread_routine_"), ("slot registry", S + "thread_pool/pool/SlotThreadPool.cpp: slot")], MC)

prop("C06", "Thread pool: after disable or destruction no task runs, and both return",
     "disable and the destructor of a thread pool always return once the running callbacks end, whether the workers are idle, starting or running, and after they return no callback is running and none starts until the pool is enabled again. "
     "enable and disable are idempotent and a pool can be disabled and enabled any number of times, keeping its slots and still executing what is emitted afterwards (lifecycle calls come from one thread at a time, tasks from any). "
     "No thread is leaked or left joinable.",
     ["schedules", "histories"], "every interleaving of enable/disable/destroy with emissions and workers, all lifecycles up to 3 enable/disable cycles",
     "Shutdown races need disable to fall between a worker's check and its wait.",
     [S + "thread_pool/pool/SlotThreadPool.cpp"],
     [("lifecycle", S + "thread_pool/pool/SlotThreadPool.cpp: enable, disable, ~SlotThreadPool")], MC)

prop("C07", "Event handlers: a set callback gets every event exactly once",
     "While a callback is set, each event, occurring or simulated, calls it exactly once with that event's data, one call at a time; while none is set nothing is called or counted. "
     "The event count equals the events handled since creation or the last reset (less explicit decrements, never below zero), also when several threads raise events; an event is counted once its callback has returned. "
     "Setting a callback replaces and releases the previous one, unsetting without one set is harmless, the set state is reported truthfully, and derived handlers are told of the first set, each change and each unset.",
     ["schedules", "histories"], "all sequences up to depth 6 of set/unset/event/simulate on the generic handler and every interleaving of events from 2 threads with set/unset",
     NOTEST,
     [I + "event/EventHandler.hpp", I + "event/impl/EventHandler.ipp"],
     [("callback slot and counter", I + "event/impl/EventHandler.ipp: event_occurred_, set_callback, unset_callback")], MC)

prop("C08", "Unsetting or destroying an event handler stops its callbacks for good",
     "Once unset_callback, or the destruction of an event handler, has returned, the callback is not running and never runs again, and nothing captured by it is used afterwards; the callback object is released. "
     "Replacing the callback with set_callback gives the same guarantee for the old one. "
     "These calls, made from outside the callback, return even when events arrive at the same time.",
     ["schedules"], "every interleaving of one or two event sources with unset, replace and destroy, on the generic, periodic, log and multiple handlers",
     "The window is between the event thread picking the callback and calling it.",
     [I + "event/impl/EventHandler.ipp", S + "event/PeriodicEventHandler.cpp", S + "event/logging/LogEventHandler.cpp", S + "event/MultipleEventHandler.cpp"],
     [("event mutex held during the callback", I + "event/impl/EventHandler.ipp: event_occurred_, unset_callback")], MC)

prop("C09", "wait_for_event returns exactly when enough events have happened",
     "wait_for_event(n) returns true as soon as the event count has reached n (so the callback has returned for these events), also when it already had, and false only when the callback was set, changed or unset, or the handler destroyed, with fewer events. "
     "No event is missed by a waiter, and a waiter is never left blocked after the n-th event or after the callback is unset or the handler destroyed; destruction waits for it to leave. "
     "Several threads may wait for different counts at once.",
     ["schedules"], "every interleaving of up to 2 waiters, 2 event sources and an unset",
     "Lost wake-ups between counting and waiting need a precise interleaving.",
     [I + "event/impl/EventHandler.ipp", S + "event/PeriodicEventHandler.cpp", S + "event/MultipleEventHandler.cpp", S + "event/FileWatcherHandler.cpp", S + "event/logging/LogEventHandler.cpp", I + "event/impl/SignalEventHandler.ipp"],
     [("event counter wait handler", I + "event/impl/EventHandler.ipp: wait_for_event, awake_all_waiting_threads_nts_")], MC)

prop("C10", "Periodic handler: one event per period, none early, stoppable any time",
     "A periodic event handler with a callback set calls it once per elapsed period: the k-th call never comes before k periods have passed since it was set, consecutive calls start at least one period apart, and calls go on for as long as it is set. "
     "Setting the first callback starts it, replacing the callback keeps it running, unsetting or destruction stops it promptly (without waiting for the next period) and it may be set and unset repeatedly. "
     "A period shorter than the minimum of one millisecond is rejected with InitializationException.",
     ["schedules"], "every interleaving of the period thread with set/unset/destroy under virtual time, periods 1..3 ms, up to 4 periods",
     "Tests use real sleeps with tolerances and cannot place the unset inside the wait or the callback.",
     [S + "event/PeriodicEventHandler.cpp"],
     [("period thread", S + "event/PeriodicEventHandler.cpp: period_thread_routine_, start_period_thread_nts_, stop_period_thread_nts_")], MC)

prop("C11", "Multiple event handler forwards each event of each of its handlers once",
     "A multiple event handler calls its callback exactly once for each event of every handler registered in it, whichever handlers fire and in whatever order or at the same time. "
     "Handlers may be registered before or after the callback is set; registering replaces the callback they had, and the multiple handler owns and destroys them. "
     "After it is unset or destroyed no handler reaches the callback; without a callback of its own it just counts the events.",
     ["schedules", "histories"], "all sequences up to depth 6 and all interleavings of two sources with set/unset/destroy",
     NOTEST,
     [S + "event/MultipleEventHandler.cpp", I + "event/impl/MultipleEventHandler.ipp"],
     [("forwarding callback", I + "event/impl/MultipleEventHandler.ipp: register_event_handler")], MC)

prop("C12", "Signals reach every handler registered for them, and no other",
     "When a signal arrives, every signal handler object for that signal that has a callback set throughout is called exactly once with the signal number, handlers of other signals are not called, and no arrival is lost, whichever thread it interrupts. "
     "Handlers may be created, set, unset and destroyed while signals arrive (one set meanwhile is called at most once per arrival); after unset or destruction the callback is not called again. "
     "Destroying a manager ends its thread, also with signals pending, and unregistering an unknown callback is refused with InconsistencyException.",
     ["schedules", "fault_sequences"], "every interleaving of signal arrivals (at most 3) with registration, unset and destruction of up to 3 handlers of 2 signals",
     "A lost signal or a callback after destruction depends on when the signal lands relative to the manager thread.",
     [I + "event/impl/SignalManager.ipp", I + "event/impl/SignalEventHandler.ipp"],
     [("signal thread and registry", I + "event/impl/SignalManager.ipp")], MC)

prop("C13", "Log event handler reports the log entries of the configured kinds, once each",
     "A log event handler is called exactly once for each entry delivered to its consumer while a callback is set, with that entry's content, and the severe handler for exactly the entries at least as severe as its threshold. "
     "A severe handler with a threshold above Error sets the verbosity of the log to its threshold. "
     "Creation and destruction register and unregister it completely: after destruction no entry reaches it, and entries logged concurrently with creation or destruction never touch unborn or destroyed state. "
     "Handling an entry does not produce further entries without end.",
     ["schedules", "histories"], "every interleaving of up to 2 logging threads with handler creation, unset and destruction, synchronous and queued log delivery, and all kinds and thresholds",
     NOTEST,
     [S + "event/logging/LogEventHandler.cpp", S + "event/logging/LogSevereEventHandler.cpp", S + "event/logging/LogConsumerConnection.cpp"],
     [("log consumer connection", S + "event/logging/LogConsumerConnection.cpp"), ("threshold filter", S + "event/logging/LogSevereEventHandler.cpp")], MC)

prop("C14", "Log consumers and checker accept exactly the entries the configuration selects",
     "A configured log consumer handles an entry exactly when its kind is within the verbosity and the filter of its kind matches its category or its message, and the standard consumer writes accepted errors and warnings to the error stream and the rest to the output stream, each with its time, kind, category, message and function. "
     "Configuration values are replaced only by values of the same or a higher confidence level. "
     "The log checker is valid exactly when the number of entries at or above its threshold lies in the expected range.",
     ["inputs", "configurations"], "all kinds x verbosities x filter sets x messages of a small alphabet, all orders of configuration writes at every confidence level, all log counts 0..4 x expected ranges",
     NOTEST,
     [S + "logging/BaseLogConsumer.cpp", S + "logging/StdLogConsumer.cpp", S + "logging/BaseLogConfiguration.cpp", S + "testing/LogChecker.cpp"],
     [("entry acceptance", S + "logging/BaseLogConsumer.cpp: accept_entry_"), ("configuration precedence", S + "logging/BaseLogConfiguration.cpp")], SEQ)

prop("C15", "File watcher calls back once per change of the watched file",
     "A file watcher with a callback set calls it once, with the name of the watched file, for every modification of that file the system notifies, and for no other event (creation, removal, other files of the directory). "
     "After unset or destruction the callback is not called, and the watcher is stopped even when changes arrive at the same time. "
     "It can be set and unset repeatedly, always watching the same file, exactly once while a callback is set, and leaves no thread or descriptor behind.",
     ["schedules", "histories"], "every sequence of file events of every kind, and every interleaving of the watching thread with set, unset and destruction",
     NOTEST,
     [S + "event/FileWatcherHandler.cpp", "thirdparty/filewatch/FileWatch.hpp"],
     [("watch callback filter", S + "event/FileWatcherHandler.cpp"), ("watching and calling threads", "thirdparty/filewatch/FileWatch.hpp")], MC)

prop("C16", "SafeDatabase behaves as an atomic map for any mix of threads",
     "Concurrent add, erase, find, at, is, size and iteration behave as if executed one after another on a map: add succeeds exactly once per absent key, erase exactly once per present key, and reads return values that were stored. "
     "modify and add_or_modify replace the value atomically and report truthfully whether the key was new. "
     "An operation whose value cannot be copied or moved changes nothing and leaves the database usable. While an iterator is held the contents it sees do not change, and the lock it holds is released when, and only when, it goes away, also through copies.",
     ["schedules", "histories"], "all sequences up to depth 6 over 3 keys and all interleavings of up to 3 threads with 2 operations each",
     NOTEST,
     [I + "collection/database/impl/SafeDatabase.ipp", I + "collection/database/SafeDatabase.hpp"],
     [("shared lock per iterator and operation", I + "collection/database/impl/SafeDatabase.ipp")], MC)

prop("C17", "OwnerPtr/LesseePtr: data outlives every guard and dies with its owner",
     "The data owned by an OwnerPtr is destroyed exactly once, when its owner is reset, reassigned or destroyed, and never while a guard taken from a lessee is alive: destroying the data waits for the guards, including the one the arrow operator of a lessee keeps for the whole expression. "
     "A lessee locks successfully exactly while the data exists, and gives a null guard (or ValueAccessException where documented) afterwards; lessees may be made from the owner or copied, and moved owners, lessees and guards keep exactly this relation to one datum. "
     "The destruction function supplied by the user is the one called, and an owner of nothing is refused with InitializationException where documented.",
     ["schedules", "histories"], "all sequences up to depth 6 of owner/lessee/guard operations and every interleaving of owner reset with up to 2 lessees locking, dereferencing and copying",
     "The tests exercise one fixed sequence each; use after free needs the reset to land between lock and use.",
     [I + "memory/impl/OwnerPtr.ipp", I + "memory/impl/LesseePtr.ipp", I + "memory/impl/GuardedPtr.ipp", I + "memory/impl/InternalPtrData.ipp"],
     [("shared mutex protecting the datum", I + "memory/impl/InternalPtrData.ipp"), ("guard holds a shared lock", I + "memory/impl/GuardedPtr.ipp")], MC)

prop("C18", "Atomicable and the thread-safe random manager never expose a race",
     "A value wrapped in Atomicable is a value and a mutex: exclusive holders of its lock exclude everybody, shared holders exclude exclusive ones but not each other, and a recursive one lets its holder in again, so changes made under the lock are never lost or half seen. "
     "The thread-safe random manager can be used from any number of threads without data races: the sequential numbers handed out are, in some order of the calls, exactly the consecutive numbers of the plain manager with the same seed, seeding is atomic, and numbers drawn for a seed are always the one of that seed and leave the sequence alone.",
     ["schedules"], "every interleaving of up to 3 threads taking shared and exclusive access and drawing numbers",
     NOTEST,
     [I + "types/Atomicable.hpp", S + "math/random/TSafeRandomManager.cpp"],
     [("lockable wrapper", I + "types/Atomicable.hpp"), ("locked generators", S + "math/random/TSafeRandomManager.cpp")], MC)

prop("C19", "Singletons: one instance per type and index, whoever gets there first",
     "All calls asking for a Singleton of the same type and index return the same instance, constructed exactly once even when several threads ask first at the same time and kept until the end of the process, and different indices or types give different instances. "
     "An InitializableSingleton is null before it is initialised and holds the value of the latest initialisation. "
     "A SafeInitializableSingleton may be used from any mix of threads: the first initialisation wins and returns true, later ones return false and change nothing, asking for it creates it by default unless told not to, in which case it is null until somebody creates it; at most one object is ever constructed.",
     ["schedules", "histories"], "all interleavings of up to 3 threads and all sequences up to depth 5 of initialise/get calls",
     NOTEST,
     [I + "types/Singleton.hpp", I + "types/impl/Singleton.ipp", I + "types/impl/InitializableSingleton.ipp", I + "types/impl/SafeInitializableSingleton.ipp"],
     [("static local instance", I + "types/impl/Singleton.ipp"), ("initialisation guard", I + "types/impl/SafeInitializableSingleton.ipp")], MC)

prop("C20", "Pools never hand out one element twice and reuse what is returned",
     "Every element loaned from a pool is non-null, distinct from all elements currently on loan, and an element is handed out again only after it was returned and reset, once per return; where the pool's class defines no reset, it comes back as it was returned. "
     "The pool creates its configured initial elements and grows by its configured batch only when nothing is free; a batch below one is rejected with InitializationException. "
     "Returning more elements than are on loan is rejected with InconsistencyException and changes nothing, a failing element creation leaves the pool usable, and every returned element is destroyed exactly once with the pool.",
     ["histories", "configurations"], "all loan/return sequences up to depth 7 for initial sizes 0..3, batch sizes 1..3, and runs of up to 24 elements with sizes to 5 and batches to 6",
     NOTEST,
     [I + "pool/UnboundedPool.hpp", I + "pool/impl/UnboundedPool.ipp", I + "pool/impl/IPool.ipp"],
     [("free list", I + "pool/impl/UnboundedPool.ipp")], SEQ)

prop("C21", "Command history navigation matches a linear history",
     "Going back through the command history returns the stored commands from the newest to the oldest, one per call, and then an empty string while staying at the oldest; going forward returns the following ones and, past the newest, an empty string, staying there. "
     "Adding a command appends it and places the cursor after the newest; an empty command is not stored and moves nothing. "
     "This holds for every sequence of add, previous and next, from an empty history on.",
     ["histories"], "all sequences of add/previous/next up to depth 8 over 2 commands and the empty one, and all walks of up to 4 legs in histories of up to 6 commands",
     "The tests run a few fixed navigations; the boundary cases need sequences such as next on an empty history.",
     [S + "history/CommandHistoryHandler.cpp"],
     [("cursor", S + "history/CommandHistoryHandler.cpp")], SEQ)

prop("C22", "Standard-input line editing yields exactly the line the keys describe",
     "For every sequence of keys (characters, newline, backspace, delete, insert, arrows, home, end, page up and down, Ctrl+C and unknown escape sequences) the standard-input handler delivers, once per newline, exactly the line an ideal line editor would hold, with the history recalled by up and down; Ctrl+C delivers an empty line. "
     "No more lines are delivered, and no more input consumed, than was asked for, and lines typed while input is ignored are delivered but not remembered. "
     "The end of input, anywhere, and any terminal width neither hang nor crash it; after unset or destruction nothing is delivered and the terminal settings are restored.",
     ["inputs", "schedules"], "all sequences of 6 keys over 9 keys, of 4 over 15 rarer ones, of 6 in a filled history, all 256 bytes, inputs cut anywhere, line reads allowed in every pattern, and all interleavings of reading thread, typing, asking and destruction",
     NOTEST,
     [S + "event/StdinEventHandler.cpp", S + "history/CommandHistoryHandler.cpp"],
     [("line editor", S + "event/StdinEventHandler.cpp")], MC)

prop("C23", "Command reader maps each line to its command and arguments",
     "Each read takes exactly one line, in the order typed, and blocks until there is one. "
     "The line is split at every single blank, and the words from one that begins with a double quote to the one that ends with the closing quote are joined into one argument without the quotes; all of them, the first included, are the arguments. "
     "The read returns true exactly when the first argument is a name of a known command, giving that command's value, and false otherwise, leaving the command value alone. The reader may be destroyed at any moment no read is in progress.",
     ["inputs", "histories"], "all lines up to 7 characters over two letters, blank and quote, sequences of 3 lines, and all interleavings of typing, two readers and destruction",
     NOTEST,
     [I + "user_interface/impl/CommandReader.ipp", I + "user_interface/CommandReader.hpp"],
     [("line split and lookup", I + "user_interface/impl/CommandReader.ipp")], MC)

prop("C24", "Double-buffered queue neither loses, duplicates nor reorders elements",
     "Elements pushed become visible at the front after the next swap, in the order pushed; a swap discards what was left in front, and front, pop, empty, size, both_empty and clear act on exactly the elements an ideal pair of queues would hold. "
     "Producers may push at any time while a consumer swaps, looks and pops, with no race, no loss and no duplicate: the results are those of the calls in some order. "
     "Moving an element out never leaves it in the queue, elements that can only be moved are supported, and an element whose copy or move fails leaves the queue as it was.",
     ["schedules", "histories"], "all operation sequences of length 6 and every interleaving of 2 producers and 1 consumer",
     NOTEST,
     [I + "queue/DBQueue.hpp"],
     [("two queues and two mutexes", I + "queue/DBQueue.hpp")], MC)

prop("C25", "Timers report exactly the time that passed while they were running",
     "A timer reports the time elapsed since it was created or reset, and a pausable timer the sum of the intervals during which it was running; pausing a paused timer, playing a running one and resetting at any moment leave the value an ideal stopwatch would show. "
     "Elapsed time is never negative, never decreases except through reset, and is not affected by changes of the date of the system. "
     "Millisecond results are the elapsed time truncated to whole milliseconds.",
     ["histories"], "all sequences of play/pause/reset/elapsed and clock advances up to depth 8, under a virtual clock",
     "The tests sleep real time and accept wide tolerances, so accounting errors below them pass.",
     [S + "time/Timer.cpp", S + "time/PausableTimer.cpp"],
     [("accumulated time", S + "time/PausableTimer.cpp")], SEQ)

prop("C26", "Time conversions round-trip and agree with the calendar",
     "For every instant a timestamp can represent (1677-09-21 to 2262-04-11), formatting it with a format that writes the whole date and time and parsing the text back gives the instant at a precision of seconds, in UTC and in local time (where an hour that happens twice may be read as either), and building a timestamp from calendar fields gives the instant of those fields. "
     "A date beyond what can be represented gives the nearest limit when built from fields and is refused with ValueNotAllowedException when parsed; text with a character that contradicts the format is refused with PreconditionNotMet. "
     "time_to_timestamp gives that time of the current UTC date. sleep_for suspends at least the requested time, and the end and beginning of time are the extremes. All of it may be used from several threads at once.",
     ["inputs"], "every day from 1895 to 2205 (1678 to 2261) at boundary times of day, all fields at their extremes, the ends of the range second by second, six time zones with and without daylight saving, malformed texts up to length 4 (6) and every text one or two edits from a valid one; two threads converting at once",
     NOTEST,
     [S + "time/time_utils.cpp", I + "time/time_utils.hpp"],
     [("calendar conversion", S + "time/time_utils.cpp")], SEQ)

prop("C27", "String utilities do exactly what an ideal implementation does",
     "Splitting keeps every piece in order so that joining the pieces with the delimiter gives the text back, unless the text is empty (an empty delimiter does not split); stripping, case change, replacement of the first or of all occurrences in one pass from left to right and number formatting (zeros go between sign and digits) equal their ideal definitions. They terminate and never touch memory out of bounds for any text, including empty text, empty delimiters, patterns longer than the text and replacements containing the pattern.",
     ["inputs"], "all texts up to length 8 (delimiters and patterns up to length 3) over small alphabets, and all small numbers with every format width",
     "Tests check a few literals; the failing texts are overlapping or degenerate ones.",
     [S + "utils.cpp", I + "utils.hpp"],
     [("string helpers", S + "utils.cpp")], SEQ)

prop("C28", "Byte quantities parse to their size and malformed ones are rejected",
     "A decimal number followed by a unit (B, KB, MB, GB, TB, PB or KiB to PiB, in any letter case, blanks allowed between) converts to the number times the unit's factor, dropping fractions of a byte; every other text, and every quantity that does not fit in 64 bits, is rejected with an exception and never wraps. "
     "The inverse conversion uses the largest decimal unit not above the size and gives the number in that unit, as an integer when the decimals are negligible and else with two decimals.",
     ["inputs"], "all strings up to length 6 over digits, sign, dot, blank and unit letters, all units at the overflow boundary, all sizes 0..2100000 and every neighbourhood of the unit factors",
     NOTEST,
     [S + "utils.cpp"],
     [("unit table", S + "utils.cpp: to_bytes, from_bytes")], SEQ)

prop("C29", "Base64 encoding round-trips every byte sequence",
     "For every byte sequence, decoding its encoding gives the sequence back, and the encoding is the standard padded base64 text of it. "
     "Decoding any text never reads or writes out of bounds, stops at the first character that is not part of the alphabet, and yields the bytes complete until then.",
     ["inputs"], "all byte strings up to length 2 (65 793), all strings to length 6 over 6 boundary bytes, all texts to length 5 over a mixed alphabet",
     "The tests encode a few literals; padding and high-bit bytes at each position modulo 3 need enumeration.",
     [S + "utils.cpp"],
     [("base64", S + "utils.cpp: base64_encode, base64_decode")], SEQ)

prop("C30", "Wildcard matching agrees with the definition of shell patterns",
     "A text matches a pattern exactly when it does by definition: * stands for any sequence, also empty, ? for any one character, a closed bracket set for one character of it (or not of it when negated), and everything else, backslash included, for itself. Slashes and leading dots are ordinary characters. The result is the same for every pattern and text, including empty ones and consecutive wildcards.",
     ["inputs"], "all patterns up to length 6 over letters, wildcards, slash, dot and backslash (also with bracket sets), and all texts up to length 5",
     NOTEST,
     [S + "utils.cpp"],
     [("matcher", S + "utils.cpp: match_pattern")], SEQ)

prop("C31", "ROS 2 name mangling and demangling are inverse and total",
     "Mangling a valid ROS name (a package name does not end in an underscore) and demangling the result gives the name back for topics, services (requests, replies and their types, also in namespaces) and message types; names that do not carry the ROS prefix or suffix come back unchanged, or empty where that is documented. The functions never throw or read out of bounds, whatever the text.",
     ["inputs"], "all concatenations of up to 5 fragments from prefixes, suffixes, namespaces, separators and letters",
     "Tests list a few well-formed names; inputs with a suffix in the middle or missing parts are not among them.",
     [S + "ros2_mangling.cpp"],
     [("mangling rules", S + "ros2_mangling.cpp")], SEQ)

prop("C32", "Math helpers equal their mathematical definitions",
     "Evenness, power-of-two test, power-of-two modulo and division, fast exponentiation and arithmetic progression sums give the mathematically exact result whenever the exact result is representable in the result type, and maximum and minimum are right within any expression. Random numbers depend only on the seed: the same seed gives the same sequence, seeded draws do not disturb the sequential ones, and reseeding restarts the sequence; threads drawing from the thread-safe manager get each number of its sequence once.",
     ["inputs", "histories"], "all arguments 0..4096 and every neighbourhood of powers of two, all bases/exponents with representable results, all seed/draw sequences up to depth 5",
     "The tests check selected values; off-by-one and overflow cases lie elsewhere.",
     [S + "math/math_extension.cpp", S + "math/random/RandomManager.cpp"],
     [("bit tricks", S + "math/math_extension.cpp"), ("generators", S + "math/random/RandomManager.cpp")], SEQ)

prop("C33", "Enumeration builders convert between values and names without loss",
     "For every enumeration made with the enumeration macros (1 to 18 values) or the builder, each value converts to its declared name and back to itself, the list of names and the count are complete and in declaration order, and unknown names are rejected with the documented exception or refused. Builders with several aliases accept each alias, and only those, for its value, and giving a builder new values replaces the old ones.",
     ["inputs", "programs"], "enumerations of every size 1..18, every value and name and all texts within one edit of a name; all assignments of 6 aliases to 3 values",
     NOTEST,
     [I + "macros/custom_enumeration.hpp", I + "types/impl/Builder.ipp", I + "enum/EnumBuilder.hpp"],
     [("macro expansion", I + "macros/custom_enumeration.hpp"), ("builder", I + "types/impl/Builder.ipp")], SEQ)

prop("C34", "Fuzzy values keep the value and level assigned and compare by them",
     "A fuzzy value keeps the value and level last assigned; it is valid exactly when its level is at least the default level and set exactly when it is at least the fuzzy level, and its level prints with its name. Two fuzzy values are equal when neither is set or both have the same level and value; a fuzzy value equals a plain value when it is valid and holds it. Copies, moves and assignments from a plain value or another fuzzy behave as assignment of value and level.",
     ["inputs", "histories"], "all 65536 levels, all pairs of values and levels, and all operation sequences up to depth 4 over three types",
     "Tests check a few combinations of level.",
     [I + "types/impl/Fuzzy.ipp", I + "types/Fuzzy.hpp"],
     [("value and level", I + "types/impl/Fuzzy.ipp")], SEQ)

prop("C35", "Trees and heritable objects preserve structure and dynamic type",
     "A tree keeps the branches added in order, also when it is copied, moved or added to itself, reports its depth (0 for a leaf) and leaf state as the actual structure, and listing its nodes gives each node below it once. A heritable object keeps its dynamic type: casts succeed exactly for its real class and its bases, comparisons use the held objects, and copies share the object held. Every held object is destroyed exactly once, as the class it was created with, when its last holder goes.",
     ["histories", "inputs"], "all trees with up to 8 nodes, and all sequences of up to 4 of 23 create/copy/move/assign operations over heritable objects of 4 classes",
     NOTEST,
     [I + "types/impl/Tree.ipp", I + "memory/impl/Heritable.ipp"],
     [("branches", I + "types/impl/Tree.ipp"), ("deep copy", I + "memory/impl/Heritable.ipp")], SEQ)

prop("C36", "Return codes, exceptions and formatters carry the value they were given",
     "Every return code compares equal exactly to itself, maps from the middleware's codes as documented (its failures to error, unknown codes to unknown), is negated to true exactly when it is not OK, and prints its own name. "
     "Every exception type carries exactly the text it was built with and is caught as its own type and as its documented bases, and as no other. "
     "A formatter concatenates everything streamed into it in order.",
     ["inputs"], "all pairs of return codes and all middleware codes up to 40000 in magnitude, all exception types with all texts up to length 3, all sequences of up to 5 of 16 streamed pieces",
     NOTEST,
     [S + "ReturnCode.cpp", S + "exception/Exception.cpp", S + "Formatter.cpp", S + "qos/qos_utils.cpp"],
     [("code table", S + "ReturnCode.cpp"), ("message", S + "exception/Exception.cpp"), ("stream", S + "Formatter.cpp")], SEQ)

prop("C37", "QoS conversions name every policy correctly",
     "Each quality-of-service policy identifier converts to its documented name, a policy mask to the names of exactly the policies in it in ascending order joined by a comma and a blank, and unknown identifiers and the empty mask to the invalid marker.",
     ["inputs"], "all identifiers up to 131072 and around powers of two, all masks with up to 3 policies or all but 3, and every combination of 9 neighbouring policies",
     NOTEST,
     [S + "qos/qos_utils.cpp", I + "qos/qos_utils.hpp"],
     [("name table", S + "qos/qos_utils.cpp")], SEQ)

prop("C38", "File access checks and file reading agree with the file system",
     "A file is reported accessible for a set of access rights exactly when it exists and the calling process has all of those rights, for files and directories and any combination of rights; access flags combine as a bit set. Reading a file as lines gives exactly its lines without line ends (and without empty lines if asked), reading it as text those lines each followed by a line end, and a file that cannot be read is reported with the documented exception. None of this creates, opens for writing or alters a file.",
     ["inputs", "configurations"], "all permission modes x all access flag combinations x file kinds for an unprivileged process, and all file contents up to length 7 over text, blank and line-end characters",
     "The tests run as one user on a few modes.",
     [S + "utils.cpp", S + "file/file_utils.cpp", I + "file/file_utils.hpp"],
     [("access check", S + "utils.cpp: is_file_accessible")], SEQ)

prop("C39", "Set and pointer-collection utilities equal their mathematical definition",
     "Comparing sets of pointers by content, writing collections to a stream, listing the keys of a map, converting sets to shared pointers and copying or releasing values through untyped pointers yield exactly the elements the definition gives, once each, and leak nothing. Equality of two sets of pointers is symmetric and true exactly when they have the same number of pointers and every value (or null) in one is in the other.",
     ["inputs"], "all pairs of sets of up to 3 of 13 pointers to 4 values, all collections of up to 6 elements with several separators, all maps of up to 5 keys",
     NOTEST,
     [I + "impl/utils.ipp", I + "utils.hpp"],
     [("set helpers", I + "impl/utils.ipp")], SEQ)

prop("C40", "Python wait handlers: no lost wake-up, truthful reasons, clean disable",
     "A thread waiting on a Python boolean, integer or generic wait handler returns when the condition holds, when its timeout elapses, or when the handler is disabled for good, with the matching reason; none stays blocked once its condition holds for good or the handler stays disabled, and no change of the value is lost. "
     "Blocking disable returns, the handler then being disabled, and only after every waiting thread has left, so that the handler may be discarded. "
     "An exception of the condition reaches the waiting thread and leaves the handler usable.",
     ["schedules"], "every interleaving with up to 2 or 3 deviations of up to 4 threads at every lock operation and every access to changing state, with time-outs, and all histories of up to 5 operations",
     "The Python tests use real threads and sleeps.",
     ["py_utils/py_utils/wait/WaitHandler.py", "py_utils/py_utils/wait/BooleanWaitHandler.py", "py_utils/py_utils/wait/IntWaitHandler.py"],
     [("condition variable protocol", "py_utils/py_utils/wait/WaitHandler.py")], PY)

prop("C41", "Generated enumeration headers compile to the enumeration described",
     "For every enumeration description given to the generator script, the header it writes declares exactly the listed values in order in the given namespaces, and its conversions map each value to its name and back, rejecting anything else. "
     "Blanks and leading, repeated or trailing separators in the lists of values and namespaces do not add or lose any.",
     ["programs", "inputs"], "all orders of 1 to 4 of 4 names, both separators, 9 (thorough 12) forms of blanks and extra separators, 8 forms of the namespace list (depths 0..3), and 92 uses of the options; every distinct header compiled and executed",
     "There is no test of the generator's output.",
     ["dev_utils/src/automatic_code_generator/cpp/enumeration_builder/enumeration_builder.py"],
     [("header template", "dev_utils/src/automatic_code_generator/cpp/enumeration_builder/enumeration_builder.py")], SEQ)

prop("C42", "Python logger: each message once, in the format and from the level last set",
     "Whatever formats and levels a Python logger was given before, and in whatever order, a message is written exactly once if its level is at least the level last set and not at all otherwise, in the format last set; loggers do not affect each other, nor handlers that the user adds, and this holds while several threads log. "
     "A decorated function is called exactly once per call with the arguments given, and its result or exception is what the caller gets, whether debug is active or not; when it is, its start with its arguments and its finish are logged. "
     "Introspection lists the methods of an object and calls none. The Python timer gives the time elapsed since it was created or last reset.",
     ["histories", "inputs", "schedules"], "all sequences of 4 (thorough 5) changes of format and level, with every level logged through every method after each; 3 threads with up to 2 (3) deviations; all combinations of arguments, results, exceptions and nesting; all sequences of 5 (6) timer operations",
     "There is no test of the logger or of the debugging helpers.",
     ["py_utils/py_utils/logging/log_utils.py", "py_utils/py_utils/debugging/debug_utils.py", "py_utils/py_utils/time/Timer.py"],
     [("logger", "py_utils/py_utils/logging/log_utils.py"), ("helpers", "py_utils/py_utils/debugging/debug_utils.py")], PY)

prop("C43", "Option parser: exactly the options, arguments and words on the command line",
     "For every command line, the bundled option parser reports exactly the options, option arguments and remaining words that its documentation derives from it, in order: short options alone and in groups, attached and separate arguments, long options with one or two minus signs, unambiguous abbreviations, the end marker, unknown options (collected, refused or dropped as the table says) and words in between, in POSIX and GNU mode. "
     "A forbidden argument ends the parse with an error; no word is lost when words are reordered; the sizes announced beforehand suffice and are exact; a buffer that is too small is never exceeded; the list of each option holds its occurrences in order; parsing twice adds to what the first parse found.",
     ["inputs", "configurations", "histories"], "all command lines of up to 2 (thorough 3) words out of 61 and of up to 5 (6) out of 5-15, in 48 configurations (mode, minus signs, abbreviations, table) and 4 ways to give the number of words",
     "The vendored parser has no test at all.",
     ["thirdparty/optionparser/optionparser.h"],
     [("parser", "thirdparty/optionparser/optionparser.h"), ("lists", "thirdparty/optionparser/optionparser.h")], SEQ)

prop("C44", "Usage text: all of it, in aligned columns, within the width",
     "For every table of help texts, printing the usage writes all of the text: cells of a row next to each other, every column of a table starting at the same place, explicit line breaks where they stand, other rows over the whole width, tables aligned independently of each other. "
     "The last column is wrapped at spaces so that no line exceeds the width given (wide characters counting twice), on lines of its own if too little room is left. When columns on the left are too wide nothing of the text is lost. Every kind of output receives the same text.",
     ["inputs", "configurations"], "all texts of up to 5 (thorough 7) pieces, all tables of up to 3 (4) rows out of 12, in 15 layouts; all widths to 90 (130) and percentages in steps of 10 (2) for 5 usages; texts of up to 80 (300) lines",
     "The vendored parser has no test at all.",
     ["thirdparty/optionparser/optionparser.h"],
     [("usage printing", "thirdparty/optionparser/optionparser.h")], SEQ)

prop("C45", "CMake package: documented defaults, and what the user sets is kept",
     "For every combination of variables and options a project sets, in its settings, on the command line or before, the CMake package gives each of them the value set and every other one its documented default, also when the project is configured again with other options. "
     "Version, installation paths, C++ version and test labels are those that the inputs determine; a package older than the minimum version asked for, an unsupported C++ version, a build in the source directory and settings without a name are refused. The installed package works from another project.",
     ["inputs", "configurations", "histories"], "all 4096 subsets of 12 settings in 3 places; all 6561 choices of 8 build options and 324 of the others, as variables and in the cache; all sequences of 2 (thorough 3) configurations out of 5; all 32 subsets of the version given with 9 (thorough 48) files; 243 choices of paths; all versions and minimum versions out of 10",
     "There is no test of the CMake package; the build uses one configuration.",
     ["cmake_utils/cmake/project", "cmake_utils/cmake/cpp_common/find_external.cmake", "cmake_utils/cmake/cpp_common/force_cpp.cmake", "cmake_utils/cmake/test/test_labels.cmake", "cmake_utils/CMakeLists.txt"],
     [("settings", "cmake_utils/cmake/project/load_project_settings.cmake"), ("options", "cmake_utils/cmake/project/cmake_options.cmake")], SEQ)

prop("C46", "CMake package: libraries, tools and tests built, installed and usable",
     "For every configuration of a library or tool made with the CMake package, exactly the documented files are built and installed where the settings say, with every source found or listed and no other, and another project can find the library, compile against its headers, link and run; it is found exactly for a compatible version. "
     "A package needed that is missing or too old is refused. Every test added runs the test cases of its name and no other, and only if tests are built.",
     ["inputs", "configurations"], "libraries: all choices of 4 dimensions (shared, headers path, installation paths, directories) and one at a time of 6 more (thorough all 10); 3 installed versions with all 40 versions asked for (thorough 5 with 85); 36 ways to need other packages (thorough 96 combinations); tools up to 2 deviations of 6 (thorough all 64); all subsets of 4 test names",
     "There is no test of the CMake package; the build of the repository is one configuration and nothing uses its installation.",
     ["cmake_utils/cmake/compilation", "cmake_utils/cmake/packaging", "cmake_utils/templates", "cmake_utils/cmake/test/test_target.cmake"],
     [("compilation", "cmake_utils/cmake/compilation/compile_library.cmake"), ("packaging", "cmake_utils/cmake/packaging/eProsima_packaging.cmake")], SEQ)

CLAIM_NOTE = {
    MC: "Every schedule of each scenario with at most the stated number of deviations is executed on the real code (sequentially consistent; races, use after free, deadlock, livelock and wrong results are violations). Trusted: the scheduler runtime and the Fast DDS stub. Nothing is claimed beyond the scenario sizes and bounds in the evidence file.",
    SEQ: "The stated finite space is enumerated completely on the real code and compared with an independently written reference; memory errors and undefined behaviour are violations. Nothing is claimed outside the bounds.",
    PY: "Every schedule at lock/condition granularity within the bound is executed on the real Python code; preemption inside lock-free bytecode sequences is explored at attribute level where the scenario says so.",
}
NA = {}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
            f.write(json.dumps(q) + "\n")
    checks, na = [], []
    for p in P:
        has = glob.glob(os.path.join(V, "harness", p["id"].lower() + "[_a-z]*.*"))
        if has and p["id"] not in NA:
            checks.append({"property": p["id"], "quick_cmd": "python3 run.py check " + p["id"],
                           "thorough_cmd": "python3 run.py check %s --thorough" % p["id"],
                           "technique": p["how"], "level": "model_checking", "level_note": p.get("note") or CLAIM_NOTE[p["how"]]})
        else:
            na.append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
    m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed,", len(na), "not claimed")


main()
