#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids, titles, statements)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

FU = ["rst/files/file_utils.h", "rst/files/file_utils.cc"]
p("F01", "WriteFile reports success only when every byte was stored and the file closed",
  "WriteFile returns success only if the named file was opened for truncating binary write, every byte of the data (in order, exactly once) was accepted by the stream, and closing (and thereby flushing) the stream succeeded. A file that cannot be opened yields FileOpenError, a failed write or close yields FileError, and no failure is ever reported as success.",
  ["inputs", "fault_sequences"], "every file name, every data (including empty and with NULs), every combination of failing open/write/close",
  "tests exercise a good path and a file that cannot be opened; short writes and failing closes (full disk, quota) are never provoked",
  FU, [("result checks on fopen, fwrite, fclose", "rst/files/file_utils.cc WriteFile")], observe=["returned Status", "libc stream calls"])
p("F02", "WriteImportantFile replaces the destination only by renaming a finished temp",
  "WriteImportantFile never opens, truncates, writes or removes the destination: it exclusively creates a fresh, randomly named file in the destination's directory, and only after all data has been written and the file closed successfully does it replace the destination by one rename. It reports success only if that rename succeeded, and whenever it reports failure after having created the temporary file it has removed that file.",
  ["inputs", "crash_points", "fault_sequences"], "every destination and data, every failing system call, a crash after any step",
  "tests check the success path and a rename onto a directory; they never make the write or close of the temporary fail nor stop the process between steps",
  FU, [("temp name = destination + GUID + suffix, exclusive mode, then rename, remove on failure", "rst/files/file_utils.cc WriteImportantFile")])
p("F03", "ReadFile returns the whole content or an error, within its buffer",
  "ReadFile returns a value only after reading up to end of file without a stream error and closing successfully, and the value's length is the total number of bytes read. Every read targets the part of the buffer after the bytes already read and asks for no more bytes than the buffer has left, and whatever size the file system reports, it does not go on asking for nothing, which would never end; a file that cannot be opened yields FileOpenError, a read or close failure FileError.",
  ["inputs", "fault_sequences"], "every file size (including 0, pseudo files whose size is reported wrongly, files growing or shrinking while read) and every read/close failure",
  "tests read a few small regular files; pseudo files, short reads and stream errors are not reached",
  FU, [("read loop", "rst/files/file_utils.cc ReadFile")])
p("F04", "Every opened FILE is closed exactly once and never used afterwards",
  "Every C stream the library opens is closed exactly once on every path, including every early return and error path, and is not used after it has been closed. A file-pointer sink closes the stream it was given exactly once, in its destructor, if asked to, and never if not.",
  ["inputs", "fault_sequences"], "all paths through all functions that open or own a stream",
  "tests do not look at descriptors; a leak or double close on an error path shows only under faults",
  FU + ["rst/logger/file_name_sink.cc", "rst/logger/file_ptr_sink.cc", "rst/logger/file_ptr_sink.h", "rst/logger/file_name_sink.h"],
  [("unique_ptr with fclose deleter, release before explicit fclose", "rst/files/file_utils.cc"), ("owning unique_ptr in sinks", "rst/logger")])

ST = ["rst/status/status.h", "rst/status/status.cc"]
p("S01", "A Status must be inspected before it is dropped or overwritten",
  "In a debug build, destroying or assigning over a Status that was neither inspected with err() nor Ignore()d aborts, and so does GetError() before err(); a Status that was inspected never aborts. Moving a Status transfers both its error and the obligation: the source may be dropped freely, the target must be inspected again; err() is true exactly when the Status holds an error.",
  ["histories", "inputs"], "every sequence of construct / move / assign / err / Ignore / GetError / destroy",
  "tests sample a few sequences with death tests; the obligation has to be right in every special member",
  ST, [("was-checked flag maintained by every special member", "rst/status/status.h")])
p("S02", "StatusOr holds exactly one alternative and enforces its check",
  "At all times a StatusOr contains exactly one live alternative, a value or an error, matching what err() reports: construction creates it, assignment across alternatives destroys the old one before creating the new one, assignment within an alternative assigns it, and destruction destroys exactly the live one. In a debug build reading the value or the status before err(), reading the wrong alternative, and dropping or overwriting an uninspected object abort, and moving transfers the obligation to the target.",
  ["histories", "inputs"], "every sequence of construction, assignment, move, inspection and destruction, for every value type",
  "tests sample sequences with two value types; a missed destroy or construct is undefined behaviour that may pass silently",
  ["rst/status/status_or.h"], [("discriminant + union, was-checked flag", "rst/status/status_or.h")])
p("S03", "Errors cannot be discarded silently: the type system rejects it",
  "Ignoring a returned Status or StatusOr, or the result of err(), is diagnosed by the compiler; Status and StatusOr cannot be copied, a StatusOr cannot be default constructed, and neither converts to bool or to the value.",
  ["programs"], "every client program",
  "a unit test that must not compile cannot be part of the suite",
  ["rst/status/status.h", "rst/status/status_or.h"], [("nodiscard, deleted members", "rst/status/status.h, rst/status/status_or.h")])
p("S04", "RST_TRY macros return the error to the caller exactly when there is one",
  "RST_TRY, RST_TRY_ASSIGN, RST_TRY_ASSIGN_UNWRAP and RST_TRY_CREATE evaluate their statement exactly once; if it yields an error the enclosing function returns that very error at once, otherwise execution continues with the value in the named variable. In neither case is an uninspected status dropped.",
  ["programs", "inputs"], "every use site, every outcome of the statement",
  "tests sample each macro with one error and one success",
  ["rst/status/status_macros.h"], [("macro bodies", "rst/status/status_macros.h")])
p("S05", "Error class identification is exact and dyn_cast follows it",
  "An error object reports being of class E exactly when its dynamic class is E or derives from E, so unrelated error classes are never confused (each class has an identity of its own). dyn_cast returns the same object, as the target type, exactly when the object is of that class, and null otherwise.",
  ["inputs", "programs"], "every error class of the library and any user-defined hierarchy",
  "tests check one hierarchy; each new error class can break identity by sharing or missing an id",
  ["rst/status/status.h", "rst/status/status.cc", "rst/rtti/rtti.h", "rst/files/file_utils.cc", "rst/logger/log_error.cc"],
  [("address of a per-class static as identity, chained IsA", "rst/status/status.h")])

NN = ["rst/not_null/not_null.h"]
p("N01", "A NotNull never holds or yields null",
  "In a debug build every way to construct or assign a NotNull (raw, unique or shared pointer, another NotNull, a Nullable, copies, moves and conversions) aborts when the resulting pointer would be null, and every access to a NotNull emptied by a move aborts instead of yielding null; otherwise it yields exactly the pointer it was given. Constructing or assigning from the literal nullptr does not compile.",
  ["inputs", "histories", "programs"], "all constructors, assignments, conversions and accessors for all pointer kinds",
  "tests sample the combinations; the class has more than thirty special members and conversions per pointer kind",
  NN, [("assertions in every constructor, assignment and accessor", "rst/not_null/not_null.h")])
p("N02", "A Nullable must be compared with nullptr before it is dereferenced",
  "In a debug build, dereferencing or indexing a Nullable, or converting it to NotNull, aborts unless the object was compared with nullptr since its value was last set, and also if the value is null; a Nullable compared and found non-null never aborts. Copying, moving, converting and assigning preserve the pointer value, and assigning a new value revokes a previous comparison.",
  ["inputs", "histories"], "all operations for all pointer kinds in every order",
  "tests sample sequences; a missing reset in one assignment operator re-opens the hole",
  NN, [("was-checked flag", "rst/not_null/not_null.h")])
p("W01", "A WeakPtr is null exactly when its object is gone",
  "A WeakPtr obtained from an object yields that object's address while the object's weak-pointer support is alive and null afterwards, and this survives copy, move and derived-to-base conversion and assignment; null-constructed, null-assigned and default-constructed ones always yield null. The address is never exposed without consulting the liveness of the object.",
  ["histories", "inputs"], "every sequence of creating, copying, converting, assigning and invalidating",
  "tests sample conversions; one conversion that forgets the liveness flag dangles only in rare programs",
  ["rst/memory/weak_ptr.h"], [("shared liveness flag owned by the object", "rst/memory/weak_ptr.h")])
p("W02", "Bind calls the bound function only on a live object and with the bound arguments",
  "A callable made by Bind from a weak pointer invokes the function exactly once, on the object and with the bound arguments in order, if the object is alive when it is called, and does nothing otherwise; with a std::weak_ptr the object is kept alive for the whole call, and no strong reference is stored in the callable.",
  ["histories", "schedules"], "every moment of destruction of the target relative to the call",
  "tests call it before and after destruction, never with destruction during the call",
  ["rst/bind/bind.h"], [("lock/GetNullable and null test before std::invoke", "rst/bind/bind.h")])
p("T01", "A one-shot timer runs a scheduled task at most once and never a stale one",
  "Each task given to Start is run at most once; a task that was replaced by a later Start, already fired by FireNow, or whose timer was destroyed is never run when its delay expires. The timer reports running exactly from Start until its task is taken for execution.",
  ["histories", "schedules"], "every interleaving of Start, FireNow, expiry and destruction",
  "tests follow a handful of sequences",
  ["rst/timer/one_shot_timer.cc", "rst/timer/one_shot_timer.h"], [("task id compared in the posted closure, weak binding, running flag", "rst/timer/one_shot_timer.cc")])
p("T02", "A one-shot timer is consistent before its callback runs and untouched after",
  "Whether a timer fires by expiry or FireNow, it is already stopped and has given up its task when the callback is entered, and it does not read or change its own state after the callback has been entered. So a callback may restart the timer, and the restart takes effect, or destroy it.",
  ["histories"], "every callback behaviour, including Start on and destruction of the same timer, on both firing paths",
  "tests only run callbacks that leave the timer alone or restart it on the expiry path",
  ["rst/timer/one_shot_timer.cc"], [("state cleared before the callback is invoked from a local copy", "rst/timer/one_shot_timer.cc")])

PO = ["rst/task_runner/polling_task_runner.cc", "rst/task_runner/polling_task_runner.h", "rst/task_runner/item.h", "rst/task_runner/iteration_item.h"]
TP = ["rst/task_runner/thread_pool_task_runner.cc", "rst/task_runner/thread_pool_task_runner.h"]
p("P01", "A polling runner runs every due task exactly once, never early, in order",
  "RunPendingTasks runs exactly the tasks whose due time (posting time plus delay) is not after the current time, in order of due time and, among equal due times, in posting order, each exactly as often as requested; tasks not yet due stay queued, and no task is run twice, dropped, or run early.",
  ["inputs", "histories"], "every sequence of posts, delays, iteration counts, polls and clock values",
  "tests use a few sequences with zero or constant delays",
  PO, [("heap ordered by (due time, sequence number), drained up to now", "rst/task_runner/polling_task_runner.cc")])
p("P02", "The pool never loses, duplicates or strands a queued task",
  "Every task accepted for immediate execution is run exactly as often as requested while the pool is alive. In particular an idle worker that is about to stop does so only if, in one critical section with its removal from the set of live workers, it saw the queue empty (or the pool shutting down), and a worker invokes every task it takes off the queue.",
  ["schedules", "histories"], "every interleaving of posts, worker wake-ups, keep-alive time-outs and shutdown",
  "the window between a time-out and a post is a few instructions wide; tests do not steer schedules",
  TP, [("queue, worker registry and exit flag under one mutex", "rst/task_runner/thread_pool_task_runner.cc")])
p("P03", "Tasks run with no runner lock held, so they may use the runner themselves",
  "No task runner, timer or barrier invokes a posted task, or destroys one that has run, while holding any of the library's mutexes, and no thread acquires a library mutex while already holding one, so tasks (and the destructors of what they own) may post further tasks and the library's locks cannot deadlock.",
  ["schedules", "programs"], "every task body, every interleaving",
  "a deadlock needs a task that re-enters; tests with re-entrant tasks cover only some entry points",
  PO + TP + ["rst/task_runner/task_runner.cc", "rst/threading/barrier.cc", "rst/timer/one_shot_timer.cc"], [("tasks moved out under the lock and invoked after the critical section", "rst/task_runner")])
p("P04", "State shared between threads is accessed only under its mutex",
  "Every access, outside construction, and outside destruction after the object's threads have ended, to data that the task runners, the barrier or the logger sinks share between threads happens while holding one common mutex of the object, is to an atomic, or is to data that never changes after construction.",
  ["schedules"], "every interleaving of every pair of member functions and worker threads",
  "a data race needs an unlucky schedule and is not an assertion failure",
  PO + TP + ["rst/threading/barrier.cc", "rst/logger/file_ptr_sink.cc", "rst/logger/file_name_sink.cc", "rst/task_runner/task_runner.cc"], [("lock_guard/unique_lock around each access", "rst/task_runner, rst/threading, rst/logger")])
p("P05", "No wake-up is lost: waits re-check their condition and changes are signalled",
  "Every condition-variable wait is executed with the mutex held after testing, in the same critical section, the condition it waits for, and tests it again after waking. Every change that can make a waiting thread runnable (a new immediate or delayed task, shutdown, a worker's exit, a barrier reaching zero) is made under the mutex and followed by a notification on that condition variable. No pool worker sleeps on while another queued task waits: a worker that takes one of several queued tasks, or the post itself, wakes another idle worker.",
  ["schedules"], "every interleaving, including spurious wake-ups",
  "a lost wake-up hangs only under rare schedules",
  TP + ["rst/threading/barrier.cc"], [("while loops around wait, notify after each change", "rst/task_runner/thread_pool_task_runner.cc, rst/threading/barrier.cc")])
p("P06", "The pool respects its thread limit and adds a worker when none is idle",
  "The number of live worker threads never exceeds the configured maximum, and posting work while no worker is idle and the maximum is not reached starts at least one more worker; a burst of more runs than there are idle workers starts further workers while more of them may be started than are idle. Each started worker is recorded as live in the same critical section that starts it.",
  ["schedules", "inputs"], "every interleaving of posts, idle workers and time-outs, every maximum",
  "tests do not count threads",
  TP, [("min(tasks, max - live) - idle computation under the mutex", "rst/task_runner/thread_pool_task_runner.cc")])
p("P07", "ApplyTaskSync runs each index exactly once and returns after all have finished",
  "ApplyTaskSync(f, n) calls f once for each index 0..n-1, possibly from several threads, and returns only after every call has returned; shared state used by the calls stays alive until the last call is done, whichever thread that is.",
  ["schedules", "inputs"], "every n > 0, every distribution of iterations over threads",
  "tests check the multiset of indices for n up to 24 and not the return-after-finish order",
  ["rst/task_runner/task_runner.cc"] + TP, [("atomic fetch-add index, barrier counted down after the call, shared ownership", "rst/task_runner/task_runner.cc")])
p("P08", "Delayed pool tasks are never released early, and in due-time order",
  "A task posted to the pool with a delay is handed to the workers only when the clock has reached its posting time plus the delay, exactly once, in order of due time and, among equal due times, posting order; a task that is not due stays scheduled.",
  ["inputs", "histories", "schedules"], "every delay, clock sequence, spurious wake-up and interleaving",
  "tests use two delays and a simulated clock",
  TP + ["rst/task_runner/item.h"], [("heap ordered by (due time, sequence number), drained up to now by the service thread", "rst/task_runner/thread_pool_task_runner.cc")])
p("P09", "Destroying a pool waits for its threads before releasing what they use",
  "The pool's destructor returns only after the service thread has been joined and every worker has left, and nothing a pool thread uses (queues, mutexes, condition variables, the clock function) is destroyed or uninitialised while such a thread can still run; threads are started only after everything they use has been constructed.",
  ["schedules"], "every moment of destruction relative to running and idle workers",
  "a use after destruction at shutdown is a race that tests rarely lose",
  TP, [("member order, join, wait until the worker set is empty", "rst/task_runner/thread_pool_task_runner.h, .cc")])
BA = ["rst/threading/barrier.h", "rst/threading/barrier.cc"]
p("B01", "A barrier releases every waiter, and none before the counter reaches zero",
  "Wait and CountDownAndWait return only once the counter has reached zero, CountDown and CountDownAndWait decrement it by exactly one, and when it reaches zero every blocked thread is eventually woken, whatever mix of waiters and count-downs there is. In a debug build counting below zero and destroying an unfinished barrier abort.",
  ["schedules", "inputs"], "any number of threads mixing Wait, CountDown and CountDownAndWait",
  "tests run a few thread counts under the default schedule",
  BA, [("counter under mutex, wait loop, notify on zero and after each wake", "rst/threading/barrier.cc")])
p("B02", "A barrier may be destroyed as soon as a wait on it has returned",
  "No barrier operation touches the barrier after the point at which another thread's wait may return and destroy it: the last access of a counting thread to the barrier that can let waiters go, including the notification, happens before it releases the mutex.",
  ["schedules"], "destruction by any waiter immediately after its wait returns",
  "the window is between an unlock and a notify; tests keep the barrier alive",
  BA, [("notification inside the critical section", "rst/threading/barrier.cc")])

p("L01", "The logger emits exactly the messages at or above its level; fatal ones abort",
  "A message below the logger's level is not sent; any other message is sent to the sink exactly once, carrying its own level's label, file name, line and text; after a fatal message has been sent the program aborts, and no other level aborts.",
  ["inputs"], "every level, threshold, file name, line and message",
  "tests check a subset of combinations by reading a file",
  ["rst/logger/logger.cc", "rst/logger/logger.h"], [("level comparison, label switch, RST_CHECK after Log", "rst/logger/logger.cc")])
p("L02", "Sinks write whole lines that reach the file before Log returns",
  "Each call of a file sink's Log writes the message (text without NUL characters, of fewer than INT_MAX bytes) followed by one newline and flushes it before returning, as one step with respect to other threads logging to the same sink; a failing write or flush aborts the program instead of being ignored.",
  ["inputs", "schedules", "fault_sequences"], "every message, every number of threads, every failing write or flush",
  "tests log a few lines from one thread without failures",
  ["rst/logger/file_ptr_sink.cc", "rst/logger/file_name_sink.cc"], [("mutex, fprintf and fflush results checked by RST_CHECK", "rst/logger")])

VA = ["rst/value/value.h", "rst/value/value.cc"]
p("V01", "A Value's stored alternative always matches its type",
  "At all times a Value contains exactly the one live alternative its type names: every constructor creates it with the given content, move construction and move assignment transfer type and content together, assignment across types destroys the old alternative before creating the new one, and destruction destroys exactly the live one.",
  ["histories", "inputs"], "every pair of types, every sequence of construct, move, assign, destroy",
  "tests sample pairs; a missing destroy or a placement on a live object shows only as a leak or corruption",
  VA, [("switch on type in constructor, move, cleanup", "rst/value/value.cc")])
p("V02", "Assigning a Value from one of its own descendants keeps the assigned content",
  "Move-assigning to a Value from any other Value, including an element nested inside the target itself, leaves the target with the content the source had; the source is never read after the assignment has destroyed or overwritten it. Self-move does not corrupt the object.",
  ["inputs"], "every source, including every nested element of the target, for every pair of types",
  "tests assign only from unrelated values",
  VA, [("content moved out before the old alternative is destroyed", "rst/value/value.cc operator=")])
p("V03", "Typed access to a Value is checked and its number conversions are exact",
  "Each typed getter aborts in a debug build unless the Value has that type, and each typed find returns nothing for a missing key or a different type instead of a converted value. IsInt and IsInt64 accept exactly the integral numbers in range (int, respectively magnitude below 2^53), so no conversion from floating point is ever out of range; an int64 outside +-(2^53-1) and a non-finite double are rejected at construction in a debug build.",
  ["inputs"], "every stored type against every getter, every double and int64",
  "tests sample values; boundary and out-of-range conversions are undefined behaviour that usually passes",
  VA, [("IsX guards before every read of the union", "rst/value/value.h, rst/value/value.cc")])
p("V04", "Clone yields an equal, independent Value of the same type",
  "Clone of a Value has the same type and content at every depth, with every array element (in order) and every object entry cloned recursively, leaves the original unchanged, and shares nothing with it.",
  ["inputs"], "every Value",
  "tests clone a few values",
  VA, [("recursive clone per type", "rst/value/value.cc Clone")])
p("V05", "Value comparisons are mutually consistent",
  "Values of different types are unequal and ordered by type; values of one type compare by content, arrays and objects through the comparison of their elements; !=, >, <= and >= always agree with == and <, and == and < never hold together.",
  ["inputs"], "every pair of Values",
  "tests compare a few values of each type",
  VA, [("operator== and operator<, derived operators", "rst/value/value.cc, rst/value/value.h")])
p("V06", "Key and path operations address exactly the named element",
  "FindKey, SetKey and RemoveKey act on the entry with exactly that key and no other; SetPath and FindPath split the path at each dot, descend through exactly those keys, and act on the last segment. SetPath creates (or replaces a non-object by) an object for each missing intermediate segment, FindPath never modifies anything and returns nothing unless every intermediate segment is an object.",
  ["inputs"], "every object, key and dotted path including empty segments",
  "tests use a few paths",
  VA, [("FindKey/SetKey loops over path segments", "rst/value/value.cc")])
p("R01", "Preferences return the stored value or the registered default, of the right type",
  "Reading a preference returns the value in the store under exactly that path if there is one and the registered default otherwise; in a debug build reading or writing an unregistered path, reading or writing with a type other than the registered one, and registering twice abort, and writing hands exactly the given path and value to the store.",
  ["histories", "inputs"], "every sequence of register, set and get for each of the six types",
  "tests sample each type once or twice",
  ["rst/preferences/preferences.h", "rst/preferences/preferences.cc", "rst/preferences/memory_preferences_store.cc"], [("registration map + store lookup", "rst/preferences")])
SF = ["rst/strings/format.cc", "rst/strings/str_cat.cc", "rst/strings/arg.h", "rst/strings/format.h", "rst/strings/str_cat.h"]
p("X01", "Format and StrCat never write outside the string they allocate",
  "For every list of arguments StrCat allocates exactly the sum of the argument lengths, copies each argument once, in order, back to back, and returns exactly those bytes. Format appends each output byte or argument inside the allocated length, which accounts for every literal character and every argument, and in a debug build aborts on a malformed format string or a mismatch between placeholders and arguments instead of overrunning.",
  ["inputs"], "every argument count, length and format string",
  "tests use a few lengths; an off-by-one in the size is a heap overflow that usually passes",
  SF, [("two-pass size computation and copy", "rst/strings/format.cc, rst/strings/str_cat.cc")])
p("X02", "Rendering an argument never overflows its buffer and keeps its text alive",
  "Every arithmetic argument type is rendered in full inside the argument's own fixed buffer, whatever its value; bool renders as true/false, char as itself, enums as their underlying integer, and strings as themselves without copying. A raw pointer that is not a C string is rejected at compile time and arguments cannot be copied, so a rendered text never outlives its buffer.",
  ["inputs", "programs"], "every value of every supported type, every client program",
  "tests render a few values; extreme long double and minimum integers decide the bound",
  ["rst/strings/arg.h"], [("buffer sized for the longest rendering, one constructor per type", "rst/strings/arg.h")])
GU = ["rst/guid/guid.h", "rst/guid/guid.cc"]
p("G01", "Every generated GUID has version 4 and variant bits and otherwise random bits",
  "For every output of the random source a new Guid has version nibble 4 and variant bits 10, each of the remaining 122 bits is an unmodified, distinct bit of random data, and its text shows all 128 bits, most significant first, as lower-case hex in 8-4-4-4-12 layout.",
  ["inputs"], "every value of the random source",
  "tests sample random values; a bit that is forced or rendered twice passes any sample",
  GU, [("mask constants and sprintf field extraction", "rst/guid/guid.cc")])
p("G02", "GUID validators accept exactly the documented strings",
  "IsValid accepts exactly the 36-character strings with dashes at positions 8, 13, 18 and 23 and hexadecimal digits everywhere else, IsValidOutputString additionally only lower-case ones; neither reads beyond the string, whatever its length.",
  ["inputs"], "every string",
  "tests try a few strings; a wrong bound on one character class is missed",
  GU, [("character loop", "rst/guid/guid.cc")])
p("H01", "HashCombine depends on every element and on their order",
  "HashCombine uses the hash of every element exactly once, in order; with the other elements fixed, different hashes in one position always give different results (each step is a bijection in the new element and in the running value), and the combination of one element is its own hash.",
  ["inputs"], "every list of element hashes",
  "tests check two or three constants",
  ["rst/stl/hash.cc", "rst/stl/hash.h"], [("Murmur-like mixing step", "rst/stl/hash.cc")])
p("D01", "Debug checks have no side effects, so release builds behave the same",
  "No condition inside a debug-only check changes any state of the program other than debug-only bookkeeping, so defining NDEBUG changes nothing but the checks; in a release build a debug check's condition is not evaluated, in a debug build it is evaluated once and aborts if false.",
  ["configurations", "inputs"], "every debug check in the library, both configurations",
  "the suite is built in one configuration",
  ["rst/check/check.h", "rst"], [("RST_DCHECK", "rst/check/check.h")])
p("D02", "RST_CHECK is enforced in every build",
  "RST_CHECK evaluates its condition exactly once and aborts if it is false, in debug and in release builds alike, and continues otherwise.",
  ["configurations", "inputs"], "every condition, both configurations",
  "tests run it in one configuration with constants",
  ["rst/check/check.h"], [("abort in a do-while, no NDEBUG dependence", "rst/check/check.h")])
p("Y01", "Strong typedefs do not mix and compare as their values",
  "Types declared with different tags do not convert to each other, a raw value converts to a strong type only explicitly and back only explicitly; all six comparisons and the hash of two values of one strong type agree with those of the underlying values.",
  ["programs", "inputs"], "every client program and value",
  "a test that must not compile cannot be part of the suite",
  ["rst/type/type.h"], [("tag parameter, explicit constructors, forwarding operators", "rst/type/type.h")])
p("Y02", "A NoDestructor object is constructed once in aligned storage and never destroyed",
  "NoDestructor constructs its object exactly once, in its own storage of sufficient size and alignment, from exactly the given arguments, every accessor yields that object, and its destruction does not run the object's destructor; it cannot be copied or moved.",
  ["programs", "histories"], "every wrapped type",
  "tests wrap one or two types",
  ["rst/no_destructor/no_destructor.h"], [("placement new into aligned char array", "rst/no_destructor/no_destructor.h")])
p("Y03", "RST_DEFER runs its action exactly once, at scope exit, on every path",
  "The action given to RST_DEFER is run exactly once, when the enclosing scope is left, however it is left (fall-through, return, break, continue), after everything declared later in that scope has been destroyed; it cannot be copied or re-armed.",
  ["programs"], "every use site and every way to leave a scope",
  "tests use one or two exits",
  ["rst/defer/defer.h"], [("destructor of a scope-local object", "rst/defer/defer.h")])
p("Y04", "Small utilities neither drop nor duplicate what they are given",
  "TakeFunction returns the function and leaves the source empty; VectorBuilder builds a vector of exactly the emplaced elements in order, move-only ones included; Reversed visits every element of the range exactly once from last to first without copying; each c_ algorithm applies the standard algorithm to the whole range with the given function.",
  ["inputs", "programs"], "every container, element type and function",
  "tests use one container each",
  ["rst/stl/function.h", "rst/stl/vector_builder.h", "rst/stl/reversed.h", "rst/stl/algorithm.h"], [("thin wrappers", "rst/stl")])
p("Y05", "The random device is per-thread",
  "Every thread gets a random device of its own that lives as long as the thread and is shared with no other thread, so concurrent use needs no synchronisation.",
  ["schedules"], "any number of threads",
  "a shared device is a data race tests do not see",
  ["rst/random/random_device.cc"], [("thread_local", "rst/random/random_device.cc")])
# --- properties this technique does not decide here (listed under not_applicable)
p("Q01", "Data acknowledged by WriteImportantFile survives a power failure",
  "After WriteImportantFile reports success and the machine loses power, the destination contains either the previous or the complete new content.",
  ["crash_points"], "every moment of power loss",
  "tests cannot cut the power", FU, [("rename after close; no fsync", "rst/files/file_utils.cc")])
p("Q02", "Every posted task eventually runs under a fair scheduler",
  "Under a fair scheduler and a clock that advances, every task posted to a live pool, immediate or delayed, is eventually run.",
  ["schedules"], "every fair schedule",
  "liveness over infinite runs", TP, [("notification chains between workers", "rst/task_runner/thread_pool_task_runner.cc")])
p("Q03", "GUIDs are unique in practice and random bits are unpredictable",
  "Two GUIDs generated anywhere differ with overwhelming probability and cannot be predicted.",
  ["inputs"], "all executions", "statistical", GU, [("std::random_device", "rst/random/random_device.cc")])
p("Q04", "Worker threads stop after the keep-alive time of idleness",
  "An idle worker stops within a bounded real time after its keep-alive time has passed, and not before.",
  ["schedules"], "all timings", "real time", TP, [("wait_for", "rst/task_runner/thread_pool_task_runner.cc")])
p("Q05", "Value equality and order on numbers form a total order",
  "For all numbers equality is transitive and, with <, forms a total order on Values.",
  ["inputs"], "all doubles", "numeric", VA, [("epsilon comparison", "rst/value/value.cc")])
p("Q06", "Floating-point arguments render with the documented digits",
  "Format and StrCat render each float, double and long double with exactly the digits %g specifies for it.",
  ["inputs"], "all floating-point values", "numeric", ["rst/strings/arg.h"], [("sprintf", "rst/strings/arg.h")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
