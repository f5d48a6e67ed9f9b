#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list lives here, one P(...) per property)."""
import json, os
PROPS = []

def P(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe or [],
            "hook_needed": hook,
        },
    })

P("P01", "Every accepted log entry reaches every attached sink exactly once",
  "While a log worker is initialized, every enabled non-fatal log call (LOG, LOG_IF, LOGF, LOGF_IF) from any thread is "
  "delivered exactly once to each sink that is attached throughout the call, and sinks never receive anything that was not logged. "
  "When destruction of the log worker returns, every entry whose log call returned before the destruction started has been "
  "received by every sink then attached. This holds for any number of threads, entries and sinks and for both kinds of sink "
  "receiver (message object or std::string).",
  ["schedules", "histories", "inputs"],
  "all interleavings of logging threads, the worker thread and the sink threads; any number of threads, sinks, entries; destruction of the worker at any point after the last logging call returned",
  "Unit tests run a fixed number of threads and messages on whatever schedule the OS happens to give; a lost wakeup, a racy shutdown flag or a dropped queue element needs a particular interleaving (or a spurious wakeup) that the tests never force.",
  ["src/g3log.cpp", "src/logworker.cpp", "src/g3log/active.hpp", "src/g3log/shared_queue.hpp", "src/g3log/sink.hpp", "src/g3log/moveoncopy.hpp"],
  [("copy per sink then hand-off to the sink's own queue", "src/logworker.cpp LogWorkerImpl::bgSave"),
   ("queue with condition variable; stop token is itself queued", "src/g3log/shared_queue.hpp, src/g3log/active.hpp"),
   ("worker destructor drains via a queued synchronous clear", "src/logworker.cpp LogWorker::~LogWorker")],
  ["sink receiver calls"])

P("P02", "Sinks see entries in logging order, and all sinks agree on one order",
  "If one log call happens before another (same thread, or ordered by synchronization between threads), every sink that receives "
  "both entries receives them in that order. Any two sinks that both receive a pair of entries receive them in the same relative "
  "order, including concurrently logged ones. A sink's receiver is never entered again before its previous invocation has returned.",
  ["schedules", "histories"],
  "all interleavings of any number of logging threads, with arbitrary happens-before edges between their calls, any number of sinks",
  "The tests check order only for one thread or a single final count; cross-thread happens-before and cross-sink agreement are never observed, and a violation needs a specific interleaving.",
  ["src/logworker.cpp", "src/g3log/active.hpp", "src/g3log/shared_queue.hpp", "src/g3log/sink.hpp"],
  [("one FIFO queue and one thread per worker, one per sink", "src/g3log/active.hpp"),
   ("FIFO push/pop under one mutex", "src/g3log/shared_queue.hpp")],
  ["sink receiver calls"])

P("P03", "Adding or removing a sink is synchronous and disturbs no other sink",
  "Once addSink has returned the sink receives every entry logged afterwards, and it never receives an entry whose log call returned before "
  "addSink was called. When removeSink or removeAllSinks returns, each removed sink has received every entry logged before the call, has been "
  "destroyed exactly once (unless the client still holds a shared pointer to it or a call through its handle is in progress) and receives nothing later. Adding and removing sinks, from any "
  "threads and concurrently with logging, loses, duplicates or reorders no entry of any other sink.",
  ["schedules", "histories"],
  "all histories of add / remove / removeAll / log operations over any number of sinks and threads, and all their interleavings",
  "Tests do a handful of add/remove sequences from one thread, mostly without concurrent logging; the obligations are over histories and schedules.",
  ["src/g3log/logworker.hpp", "src/logworker.cpp", "src/g3log/sink.hpp", "src/g3log/sinkhandle.hpp", "src/g3log/future.hpp"],
  [("sink list touched only from the worker thread, callers wait on a future", "src/g3log/logworker.hpp removeSink/removeAllSinks, src/logworker.cpp addWrappedSink"),
   ("sink destructor drains its queue", "src/g3log/sink.hpp ~Sink, src/g3log/active.hpp ~Active")],
  ["sink receiver calls", "sink destructor", "return of addSink/removeSink/removeAllSinks"])

P("P04", "Calls through a sink handle run once, serialized, and report via future",
  "Every call made through a sink handle while the sink is attached runs exactly once on the real sink, with the given arguments, on that sink's own "
  "background thread, never overlapping another call or an entry delivery of that sink, and in the order made when made by one thread. The returned future "
  "yields exactly the call's return value, or the exception it threw, and a throwing call disturbs neither later calls nor logging. After the sink is gone "
  "(removed, or worker destroyed) a call never runs and its future holds std::bad_weak_ptr.",
  ["schedules", "histories", "inputs"],
  "all sequences of handle calls (argument kinds, void/value/reference-free results, throwing calls) from any threads, interleaved with logging, removal and worker destruction",
  "Tests exercise one or two handle calls with trivial arguments; exceptions, move-only results, concurrency and call-versus-removal races are not covered.",
  ["src/g3log/sinkhandle.hpp", "src/g3log/sink.hpp", "src/g3log/future.hpp", "src/g3log/active.hpp"],
  [("weak pointer upgraded per call", "src/g3log/sinkhandle.hpp SinkHandle::call"),
   ("call packaged as a task on the sink's queue", "src/g3log/sink.hpp Sink::async, src/g3log/future.hpp spawn_task")],
  ["future result", "calls observed by the real sink"])

P("P05", "A delivered entry carries exactly what the log call supplied",
  "Each delivered entry carries the call's source file name and full path, line, function, level (value and text), full streamed message text, the id of the "
  "calling thread, the text of the failed expression for CHECK (empty otherwise), and a time stamp taken during the call. Everything is copied: the caller may overwrite or free "
  "every buffer, string and level object it used as soon as the call returns. Every sink gets its own copy, so a sink that modifies, moves from or keeps its entry never changes "
  "what another sink receives.",
  ["inputs", "schedules"],
  "all NUL-free message texts, file/function/expression strings, line numbers, levels, calling threads and numbers of sinks (including mutating sinks)",
  "Tests look for a few fixed substrings in a log file; they never vary metadata, lengths, threads or buffer lifetime, nor compare what several mutating sinks receive.",
  ["src/logcapture.cpp", "src/g3log.cpp", "src/logmessage.cpp", "src/g3log/logcapture.hpp", "src/g3log/loglevels.hpp", "src/logworker.cpp"],
  [("explicit copies of all captured data", "src/g3log.cpp saveMessage"),
   ("per-sink copy construction", "src/logworker.cpp bgSave, src/logmessage.cpp copy constructor"),
   ("file name split", "src/logmessage.cpp splitFileName")],
  ["LogMessage accessors inside the sink receiver"])

P("P06", "Printf-style logging equals snprintf, with truncation always marked",
  "The message produced by LOGF, LOGF_IF and CHECKF is exactly the text the C library's printf formatting produces for the same format and arguments when that text is shorter than the maximum "
  "message size (2048 bytes including the terminator by default). A text that does not fit is cut to its first (maximum - 1) bytes followed by \"[...truncated...]\", so content is never "
  "dropped silently. With the dynamic-size build option the limit set through setMaxMessageSize applies in the same way to every later call, and a format the C library rejects yields an error notice containing the format string instead of a lost entry.",
  ["inputs", "configurations"],
  "all printf formats (flags, width, precision, length modifiers, '*', %%), argument values, result lengths around the limit, and all positive maximum sizes",
  "Tests use one or two formats and one long string well past the limit; the boundary lengths and the product of specifiers and values are never sampled.",
  ["src/logcapture.cpp", "src/g3log/g3log.hpp"],
  [("vsnprintf into a bounded buffer with truncation notice", "src/logcapture.cpp LogCapture::capturef"),
   ("configurable limit", "src/logcapture.cpp setMaxMessageSize")],
  ["message text received by a sink"])

P("P07", "Entry text follows the documented layout for every kind of entry",
  "An ordinary entry formats as \"<time stamp>\\t<LEVEL> [<file>-><function>:<line>]\\t<message>\\n\" with the default details (with the thread id and a space before the file for the full details, or with exactly the output of a custom details function in "
  "their place), where the time stamp is the local time of the log call as YYYY/MM/DD HH:MM:SS uuuuuu. LOG(FATAL), failed CHECK, fatal-signal, fatal-exception and custom fatal-level entries keep the message text and use their distinct documented layouts (FATAL naming the LOG(FATAL) trigger, "
  "CHECK naming the broken expression), and reason() of a fatal entry names its signal. Choosing a details function for one sink or one call never affects the text seen by another sink, by a std::string sink, or by a later default toString().",
  ["inputs", "configurations", "histories"],
  "all levels (default, custom, fatal, internal), messages, details functions and sequences of formatting calls on one entry",
  "Tests compare a few example strings; the full cross product of level kind, details function, sink kind and repeated formatting is not sampled.",
  ["src/logmessage.cpp", "src/g3log/logmessage.hpp", "src/g3log/sink.hpp", "src/filesink.cpp"],
  [("dispatch on level to a layout helper", "src/logmessage.cpp LogMessage::toString"),
   ("std::string sinks get default formatting", "src/g3log/sink.hpp adapter")],
  ["LogMessage::toString", "text received by string sinks", "FileSink output"])

P("P08", "Disabled or unmet log calls evaluate nothing; met ones evaluate once",
  "For LOG, LOG_IF, LOGF and LOGF_IF the message operands are evaluated exactly once when the level is enabled and the condition holds and not at all otherwise, and the condition is evaluated exactly once when the level is enabled and not at all when it is disabled. "
  "CHECK, CHECKF and CHECK_F evaluate their condition exactly once, evaluate message operands only when it is false, and are never suppressed by level settings. Each macro behaves as one statement: nested in unbraced if/else chains or loops it never captures or steals "
  "a branch of the surrounding code, and exceptions thrown by an operand propagate to the caller and leave the logger usable.",
  ["programs", "configurations", "inputs"],
  "all nestings of the macros in if/else/for/while/switch statements, all truth values of conditions, all enable/disable settings, static and dynamic level builds",
  "Tests check a few hand-written call sites; the quantifier is over programs that use the macros.",
  ["src/g3log/g3log.hpp", "src/loglevels.cpp", "src/logcapture.cpp"],
  [("if/else statement macros with the level test first", "src/g3log/g3log.hpp LOG, LOG_IF, LOGF, LOGF_IF, CHECK, CHECKF, CHECK_F")],
  ["side-effect counters in operands and conditions", "entries delivered"])

P("P09", "Run-time level filtering follows the last setting for exactly each level",
  "With dynamic levels built in, a log call is delivered if and only if its level is currently enabled, where the enabled set is the result of all add, set, enable, disable, enable-all, disable-all, set-highest and reset operations so far: set-highest of a known level enables exactly the known levels "
  "at or above it and disables those below, reset restores exactly the four default levels enabled. Levels that were never added are absent and disabled: no operation other than adding them makes them appear or become enabled, and querying or logging a level never changes any setting. "
  "The reported status, snapshot and printed list always agree with that state; without dynamic levels every level is enabled.",
  ["histories", "inputs", "configurations"],
  "all sequences of level operations, queries and log calls over any set of default and custom level values, in both build configurations",
  "Tests run a few fixed sequences; the state space of settings times operations (with unknown levels, equal values, negative values and queries interleaved) is unexplored.",
  ["src/loglevels.cpp", "src/g3log/loglevels.hpp", "src/g3log/atomicbool.hpp", "src/g3log/g3log.hpp"],
  [("map from level value to status", "src/loglevels.cpp g_log_levels"),
   ("query used by the macros", "src/loglevels.cpp logLevel")],
  ["g3::logLevel, log_levels::getStatus/getAll/to_string", "entries delivered"])

P("P10", "A fatal event first delivers everything logged before it to every sink",
  "When an application thread raises a fatal event (LOG or LOGF at FATAL or a custom fatal level, a failed CHECK/CHECKF, or a handled fatal signal) every entry whose log call returned before the event, from any thread, is delivered to every attached sink, the fatal entry (with its message, a stack dump and the name of its cause) is delivered exactly once "
  "as the last entry, and each sink has processed its whole queue and been destroyed (the latter unless the client holds a shared pointer to it or a call through its handle is in progress) before the process dies. File sinks have then written all of it to disk, whatever their flush interval. The call that raised a fatal event never returns to the caller, while other threads may go on logging without affecting this.",
  ["schedules", "fault_sequences", "crash_points", "histories"],
  "all kinds of fatal event raised at any point of any multi-threaded logging history, any number, speed and kind of sinks",
  "Unit tests mock the fatal exit and only check the mocked message; the real flush-then-die path across threads, slow sinks and signals is never executed to the end by a test.",
  ["src/g3log.cpp", "src/logworker.cpp", "src/crashhandler_unix.cpp", "src/logcapture.cpp", "src/filesink.cpp", "src/g3log/sink.hpp"],
  [("fatal message queued behind all earlier ones; sinks cleared synchronously before exit", "src/logworker.cpp bgFatal"),
   ("raising thread blocks until death", "src/g3log.cpp pushFatalMessageToLogger")],
  ["what sinks recorded before process death", "files left on disk"])

P("P11", "After a fatal event the process ends by the signal that caused it",
  "After the flush the process terminates by the very signal that caused the event (SIGABRT for fatal log levels and failed CHECKs), as seen by its parent, or, if the program had installed its own handler for that signal before g3log's, that handler is run; the process never survives and never hangs, and the fatal entry, naming the signal, has been written to stderr as well, so that it is not lost without sinks. "
  "This also holds when logging is not initialized, after the worker is gone, with no sinks, and for signal sets chosen with overrideSetupSignals. Signals outside the handled set keep the disposition the program gave them.",
  ["fault_sequences", "configurations", "histories"],
  "all fatal event kinds times logger states (never initialized, active, shut down, zero sinks) times histories of handler installation, override and restore",
  "The tests never let a process die; exit status per event kind and configuration is not observed at all.",
  ["src/crashhandler_unix.cpp", "src/g3log.cpp", "src/logworker.cpp", "src/g3log/crashhandler.hpp"],
  [("saved dispositions restored, signal re-raised", "src/crashhandler_unix.cpp exitWithDefaultSignalHandler/restoreSignalHandler"),
   ("fatal path without logger", "src/g3log.cpp pushFatalMessageToLogger")],
  ["wait status seen by the parent", "the program's own handlers"])

P("P12", "Signal handler set-up, override and restore follow the requested set",
  "After initialization or installCrashHandler exactly the signals of the active set (by default SIGABRT, SIGFPE, SIGILL, SIGSEGV, SIGTERM) are handled by g3log, after overrideSetupSignals exactly the given set is, and after restoring fatal handling to default exactly the default set is. "
  "Restoring one signal, or overriding the set, gives every signal that stops being handled back the exact disposition (handler, flags, mask) the program had before g3log took it over, however often installation was repeated. No operation changes the disposition of a signal outside the old and new sets.",
  ["histories", "configurations"],
  "all sequences of install, override (any set of catchable signals), restore one, restore default and initialize operations from any initial dispositions",
  "One unit test overrides once and checks one signal; sequences, repeated installs and pre-existing custom handlers are not covered.",
  ["src/crashhandler_unix.cpp", "src/g3log/crashhandler.hpp", "src/g3log.cpp"],
  [("map of saved actions per signal", "src/crashhandler_unix.cpp gSavedSigActions"),
   ("override restores the old set first", "src/crashhandler_unix.cpp overrideSetupSignals")],
  ["sigaction queries after each step", "delivery of raised signals"])

P("P13", "Fatal hooks and custom exit handlers run exactly when documented",
  "On every fatal event the currently set pre-fatal hook runs exactly once, on the thread that raised the event, before the fatal entry is handed over; initializing logging resets the hook to do nothing. If the hook itself raises a fatal event, the hook is not run again, the entry warns about the recursive crash, and everything logged before is still flushed before the process dies. "
  "With a custom exit handler set, the handler (instead of process exit) receives, exactly once per fatal event, the complete fatal message with its level, signal, text and expression; afterwards normal logging continues to work, and forwarding the message to the default handling flushes and exits as usual.",
  ["histories", "fault_sequences", "configurations"],
  "all sequences of hook/handler changes, initializations and fatal events of every kind, and hooks that log, change settings, or raise fatal events themselves",
  "Tests cover a single recursive crash with a mocked exit; sequences of hooks and events, and the unmocked path, are not covered.",
  ["src/g3log.cpp", "src/g3log/g3log.hpp", "src/crashhandler_unix.cpp"],
  [("hook swapped out before it runs; recursion counter", "src/g3log.cpp saveFatalMessage"),
   ("replaceable fatal function", "src/g3log.cpp setFatalExitHandler/fatalCall")],
  ["hook and handler invocations", "fatal message contents"])

P("P14", "Log calls are safe and well defined before, between and after workers",
  "A non-fatal log call while no worker is active never blocks, crashes or ends the process: the first such entry of the process is echoed on stderr and delivered exactly once, before all others and prefixed with \"LOGGER NOT INITIALIZED:\", to the first worker initialized, and later ones are dropped. "
  "A worker can be destroyed and another one created and initialized any number of times, each receiving exactly the entries logged while it was the active one; destroying a worker that is not the active one leaves logging active. Initializing with a null worker or while another worker is active ends the process with a failure status and an explanation on stderr, and an active worker without sinks reports entries on stderr instead of losing them silently.",
  ["histories", "schedules"],
  "all histories of create / initialize / log / shut down / destroy operations over several workers, with logging from any thread",
  "Global once-flags make each process able to test only one history; the unit tests check one message in one process.",
  ["src/g3log.cpp", "src/logworker.cpp", "src/g3log/g3log.hpp"],
  [("first uninitialized entry saved once and flushed on first init", "src/g3log.cpp pushMessageToLogger/initializeLogging"),
   ("shut down only if the active worker", "src/g3log.cpp shutDownLoggingForActiveOnly")],
  ["entries delivered", "stderr", "exit status"])

P("P15", "The log file holds exactly the header, every entry in order and the end mark",
  "After the default file sink is closed its file consists of exactly the log header (once, before the first entry), the formatted text of every delivered entry in order, nothing lost, doubled or altered whatever the entry sizes, bytes and counts, and the shutdown line. "
  "Header and details overrides made through the sink take effect for the header not yet written and for all entries handled after the override. The header states the creation time and the configured header text.",
  ["inputs", "histories", "configurations"],
  "all sequences of entries (any size and NUL-free bytes), flush intervals, header overrides, details overrides and file-name queries",
  "Tests check for the presence of a few substrings in one file; exact content over histories of overrides, sizes and flush intervals is not checked.",
  ["src/filesink.cpp", "src/filesinkhelper.ipp", "src/g3log/filesink.hpp"],
  [("write buffer flushed every N entries and at close", "src/filesink.cpp fileWrite, ~FileSink"),
   ("header on first entry", "src/filesink.cpp addLogFileHeader")],
  ["file content after close"])

P("P16", "The file lags delivery by less than the flush interval at every instant",
  "With flush interval N the file sink has, after handling any number of entries, at least all but the last N-1 of them completely in the file as other processes see it, so a hard kill at any instant loses at most the N-1 most recently handled entries and never an older one. "
  "With N = 1 every handled entry is in the file as soon as its handling finished. The content present at any instant is an exact prefix of the final content (as far as the sink is not redirected), and entries counted for the interval are counted across log file changes.",
  ["crash_points", "histories", "configurations"],
  "all flush intervals, entry sequences and crash points (kill -9 between any two sink operations, or during one)",
  "No test kills a process or reads the file between entries with a non-default interval other than one example.",
  ["src/filesink.cpp", "src/g3log/filesink.hpp"],
  [("flush every Nth entry", "src/filesink.cpp fileWrite")],
  ["file content seen by another process after kill -9 or between sink operations"])

P("P17", "Changing the log file loses and duplicates nothing, and fails safely",
  "Over any history of logging and log-file changes, each entry delivered to the file sink ends up in exactly one of the files it used, and reading the files in order of use gives the entries in delivery order. A successful change returns the new file's path, which names the directory and id asked for, later entries go there, and both files record the other's location; earlier content of the files used is never erased. "
  "A change that cannot open the new file returns an empty string and leaves the sink writing, without loss, to its current file and reporting its current file name.",
  ["histories", "fault_sequences", "inputs"],
  "all sequences of entries, changes to valid, missing, unwritable or repeated locations, and flush intervals",
  "Tests do one or two changes with one entry each; repeated changes within the same second, failures in between and unflushed buffers are not covered.",
  ["src/filesink.cpp", "src/filesinkhelper.ipp"],
  [("new stream opened before the old is dropped", "src/filesink.cpp changeLogFile"),
   ("file opening mode", "src/filesinkhelper.ipp openLogFile")],
  ["contents of all files after close", "returned paths and file names"])

P("P18", "Log file names and locations are derived safely from prefix, id and path",
  "A file sink creates its file in the requested directory (backslashes read as slashes, trailing slashes and spaces ignored, current directory when empty) under the name <prefix>.<id>.<YYYYMMDD-HHMMSS>.log (without the id part when it is empty), with the local creation time and with white space, '/', '\\\\', '.' and ':' removed from the prefix, so the file never lands outside the directory. "
  "A prefix that is empty after this or contains one of the illegal characters ,|<>:#$%{}[]'\"^!?+* is refused by aborting at construction with an explanation, and no file is created; every other prefix is accepted. If the directory cannot be used, the file is created under the same name in the current directory, and the reported file name always is the file actually written.",
  ["inputs", "configurations"],
  "all prefixes, ids and directory spellings (existing, missing, unwritable, with mixed or repeated separators)",
  "Tests try a few prefixes; the character-class and path-shape space is not sampled.",
  ["src/filesinkhelper.ipp", "src/filesink.cpp"],
  [("sanitising and validation", "src/filesinkhelper.ipp prefixSanityFix, isValidFilename, pathSanityFix, createLogFileName"),
   ("fallback to current directory", "src/filesink.cpp FileSink::FileSink")],
  ["files created in a scratch tree", "reported file name", "process abort"])

P("P19", "Time formatting equals the C library's, with correct second fractions",
  "Formatting a time point gives exactly what strftime gives for the local time of that instant, with each %f3, %f6, %f9 and %f replaced by the milli-, micro- or nanosecond fraction of that instant as exactly 3, 6, 9 and 9 digits, rounded down, anywhere and any number of times in the format. "
  "All other text, including multi-byte text and escaped percent signs, is passed through as strftime defines. This holds for every instant (also before 1970 and across daylight-saving changes), time zone and format whose result fits 1023 bytes, and concurrent formatting from many threads gives the same results.",
  ["inputs", "configurations", "schedules"],
  "all time points representable by the system clock, time zones, and formats built from strftime conversions, literals and fraction identifiers",
  "Tests check a few formats at a few instants in one time zone.",
  ["src/time.cpp", "src/g3log/time.hpp"],
  [("fraction substitution before strftime", "src/time.cpp localtime_formatted_fractions, to_string"),
   ("thread-safe local time", "src/time.cpp localtime, put_time")],
  ["g3::localtime_formatted, LogMessage::timestamp"])

P("P20", "The background executor runs every task once, in order, on its one thread",
  "Every task sent to an active object is run exactly once, on the object's single background thread, one at a time and in the order in which the sends happened; destroying the object returns only after all tasks sent before have run, and idle or spurious wake-ups never run or lose anything. Its queue delivers every pushed element exactly once in first-in-first-out order to any number of "
  "consumers, waiting pops wake for every element, non-waiting pops and size/emptiness queries never block and are consistent. A task spawned with a future runs the same way, its future yields the value or exception, and with no active object the future holds an exception instead of hanging.",
  ["schedules", "histories", "inputs"],
  "all interleavings of producers, consumers, spurious wake-ups and destruction; any task mix including tasks that send tasks",
  "Tests use it only indirectly, or with one producer on the OS schedule.",
  ["src/g3log/active.hpp", "src/g3log/shared_queue.hpp", "src/g3log/future.hpp", "src/g3log/moveoncopy.hpp"],
  [("mutex and condition variable queue", "src/g3log/shared_queue.hpp"),
   ("stop token through the queue, join", "src/g3log/active.hpp"),
   ("packaged task in a copyable wrapper", "src/g3log/future.hpp spawn_task, src/g3log/moveoncopy.hpp")],
  ["task side effects", "futures"])

P("P21", "Stack dumps show every frame, demangled where possible, and never crash",
  "A stack dump has one numbered line for each stack frame after its own (up to 49), in order; a frame whose symbol text carries a mangled C++ name and offset shows the demangled name and offset, one with an undemanglable name shows that name and offset, and any other shows its symbol text unchanged. No symbol text, however malformed, makes it crash, throw or lose a frame. "
  "A dump supplied by the caller is used unchanged, and an unavailable symbol table gives an empty dump.",
  ["inputs"],
  "all symbol strings a platform symboliser can return (with or without names, offsets, brackets, odd paths), all frame counts",
  "Tests produce one real stack dump and look for nothing specific in it.",
  ["src/crashhandler_unix.cpp"],
  [("parsing of symbol text and demangling", "src/crashhandler_unix.cpp stackdump")],
  ["returned dump text with a generated symbol table"])

P("P22", "A slow or stuck sink never blocks log calls, the worker or other sinks",
  "A non-fatal log call completes without waiting for any sink to process anything: while sinks are busy or blocked for any length of time, log calls from all threads keep returning, however many entries are pending. Entries keep being delivered to all other sinks, and calls through their handles keep completing, while one sink is blocked; adding another sink, or removing one that is not blocked, completes too. "
  "Once the blocked sink resumes it receives every pending entry in order.",
  ["schedules", "fault_sequences", "histories"],
  "all sets of blocked or slow sinks, any number of pending entries and threads, blocked before, during or between entries",
  "Tests have no blocked sink; a bounded queue or a synchronous hand-off would pass all of them.",
  ["src/logworker.cpp", "src/g3log/sink.hpp", "src/g3log/active.hpp", "src/g3log/shared_queue.hpp"],
  [("unbounded queue per worker and per sink, each with its own thread", "src/g3log/active.hpp, src/g3log/sink.hpp")],
  ["return of log calls", "deliveries to the other sinks"])

P("P23", "Copying, moving, assigning and swapping entries preserves every field",
  "Copy construction, move construction, assignment and swap of log messages transfer every observable field - file, file path, line, function, level, expression, message, thread id, time stamp and formatting function - so the target reads exactly as the source did, swap exchanges the two completely, and copies stay independent of later changes to the original. A fatal message "
  "and the plain message copied from it keep the same fields and signal; levels copy, assign, swap and compare by value and text. Moving an entry through the move-on-copy wrapper transfers it exactly once and unchanged.",
  ["inputs", "histories"],
  "all sequences of copy, move, assign, swap, wrap and modify operations over any set of messages and levels",
  "Tests never assign or swap messages; the algebraic laws are over all field values and operation sequences.",
  ["src/logmessage.cpp", "src/g3log/logmessage.hpp", "src/g3log/loglevels.hpp", "src/g3log/moveoncopy.hpp"],
  [("copy-and-swap", "src/logmessage.cpp operator=, src/g3log/logmessage.hpp swap"),
   ("copy and move constructors", "src/logmessage.cpp")],
  ["LogMessage/FatalMessage/LEVELS accessors"])

P("P24", "Documented concurrent use is free of data races and memory errors",
  "Any program that uses the public interface within its documented threading rules - logging, handle calls, adding and removing sinks, switching log files, querying and toggling known levels, creating and destroying workers after logging threads stopped, and raising a fatal event while others log - has no data race, use after free, leak of entries, or undefined behaviour inside the library. "
  "In particular the teardown of workers and sinks never touches destroyed state, and the objects that carried an entry are all destroyed once the worker is.",
  ["schedules", "histories"],
  "all interleavings of documented-legal multi-threaded histories",
  "The test suite is run without sanitizers on OS schedules; races and lifetime errors usually leave results intact.",
  ["src/g3log/active.hpp", "src/g3log/shared_queue.hpp", "src/g3log/sink.hpp", "src/g3log/sinkhandle.hpp", "src/logworker.cpp", "src/g3log.cpp", "src/loglevels.cpp", "src/filesink.cpp"],
  [("all sink-list access on the worker thread; all sink access on the sink thread", "src/g3log/logworker.hpp, src/g3log/sink.hpp"),
   ("destruction order of queue, thread and sinks", "src/g3log/logworker.hpp LogWorkerImpl, src/logworker.cpp ~LogWorker")],
  ["ThreadSanitizer, AddressSanitizer/LeakSanitizer and UBSan reports over generated histories"])

P("P25", "A log file that cannot be written harms nothing else",
  "While writes to the log file fail for good (no space, quota, file size limit, I/O error), the default file sink neither throws, blocks nor ends the process: log calls return, handle calls on the sink complete, every other sink still gets every entry exactly once and in order, and a fatal event still ends the process by its signal. "
  "The failing file holds an unaltered beginning of what should have been written to it (possibly cut inside an entry), no entry is written twice, and a change of the log file to a writable place succeeds, after which the entries handled from then on are written as usual. "
  "Writes that are merely interrupted or cut short by the system leave no trace in the file.",
  ["fault_sequences", "histories", "inputs"],
  "every byte position and error at which writing a log file begins to fail, every history of entries, handle calls and log file changes before and after, every flush interval, and any end (orderly or fatal)",
  "No test makes a write fail; the bytes at which a disk fills up, and what happens to everything else from then on, are not sampled at all.",
  ["src/filesink.cpp", "src/filesinkhelper.ipp", "src/g3log/sink.hpp"],
  [("stream state after a failed write; buffer cleared after each flush", "src/filesink.cpp FileSink::fileWrite"),
   ("change of the log file with a stream that has failed", "src/filesink.cpp FileSink::changeLogFile"),
   ("exceptions of a receiver or call stay on the sink's own thread", "src/g3log/sink.hpp, src/g3log/active.hpp")],
  ["log files", "other sinks' receivers", "futures of handle calls", "wait status"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    print(len(PROPS), "properties")
