#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and the notes below."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import CHECKS
SCHED = "controlled-scheduler PBT"
T = {
 "P01": ("model-based PBT over multi-thread histories, on a deterministic choice-driven scheduler and natively", "Generated log/sink histories of 1-4 threads and up to 4 sinks judged by obligations derived from real-time intervals of the calls. Scheduler engine controls every interleaving at the granularity of memory accesses of the library code and injects spurious wake-ups (sequentially consistent memory only); native engine adds real parallelism and volume. Bounded sizes; sampled, not exhaustive."),
 "P02": ("model-based PBT over multi-thread histories, on a deterministic choice-driven scheduler and natively", "Order obligations (real-time order, agreement between sinks, no overlap) checked on every pair of entries of generated histories. Sequentially consistent scheduler plus native runs; sampled schedules."),
 "P03": ("model-based PBT over add/remove/log histories, on a deterministic choice-driven scheduler and natively", "Attachment-interval oracle for every sink of generated histories, incl. destruction before removal returns. Overlapping removals of one sink: gone when the last returns. Sampled schedules."),
 "P04": ("model-based PBT over handle-call histories, on a deterministic choice-driven scheduler and natively", "Every handle call's run count, thread, order, argument, result/exception judged; calls racing with removal may either run or report bad_weak_ptr. Sampled schedules."),
 "P05": ("generated log calls against the supplied values, with freed buffers (also under ASan)", "Metadata and text of every delivered entry compared field by field with what was supplied through buffers overwritten and freed right after the call, with mutating, moving and keeping sinks. NUL-free texts."),
 "P06": ("differential PBT against the C library's snprintf", "Generated formats with up to 3 correctly typed variadic arguments and steered result lengths, static and dynamic-size builds, native, ASan and TSan (concurrent calls). %n, %m and embedded NULs excluded."),
 "P07": ("generated entries and formatting histories against a reference layout", "toString of every level kind and details function compared with an independently written layout (time computed with localtime_r/strftime), plus whole pipelines with message, string and file sinks."),
 "P08": ("generated programs: random macro nestings compiled and run against a model of their evaluation trace", "Whole C++ programs generated from an AST, compiled against the tree in static- and dynamic-level builds, evaluation traces and delivered entries compared with an interpreter of the AST."),
 "P09": ("stateful model-based PBT of the level API", "Sequences of level operations compared with a map model after every few steps (snapshot, printed list, status, logLevel, delivered entries), dynamic and static builds. The name shown for a level may be any name given for that value."),
 "P10": ("fault-injection PBT: fatal events raised at generated points of generated histories in child processes", "Every case runs a child process to its death and inspects what its sinks recorded in shared memory and on disk. One fatal event per process (a second concurrent one is a listed finding); asynchronous signals only to threads outside the library."),
 "P11": ("fault-injection PBT: wait status of generated fatal runs", "Event kind x logger state x handler history generated, wait status compared with the causing signal or the program's own handler."),
 "P12": ("stateful model-based PBT of signal dispositions", "Sequences of install/override/restore/initialize compared with a disposition model via sigaction for every catchable signal."),
 "P13": ("stateful PBT of hook/handler/event histories in child processes", "Hook and custom exit handler histories with mocked and real exits; recursion through LOG(FATAL)/CHECK/signal from hooks where supported."),
 "P14": ("stateful PBT of worker life-cycle histories in child processes", "Histories of create/initialize/log/destroy in fresh processes against a life-cycle model, incl. stderr and exit status."),
 "P15": ("model-based PBT of log file content", "File content after close compared byte for byte with a model of header, entries and shutdown mark."),
 "P16": ("crash-point enumeration and generated histories: file content seen by another process", "The file is read between any two sink operations and after kill -9 at generated points; lag bound and prefix property checked. Kernel crash / power loss not modelled."),
 "P17": ("stateful model-based PBT of log file changes with injected failures", "All files read back after close; change histories with valid, missing, unwritable and repeated targets, controlled clock."),
 "P18": ("generated prefixes, ids and directories against a naming model, in scratch directories as an unprivileged user", "Each construction runs in a child confined to its own scratch directory; created files, reported name and aborts compared with the model."),
 "P19": ("differential PBT against strftime and an independent fraction computation", "Generated formats, instants (1677-2262) and zones; native, ASan, TSan with concurrent formatting. Results over 1023 bytes or empty are only run."),
 "P20": ("model-based PBT of executor, queue and futures on a deterministic scheduler and natively", "Task/producer/consumer histories with spurious wake-ups judged by exactly-once and order oracles. Sampled schedules, sequentially consistent."),
 "P21": ("generated symbol tables through interposed backtrace functions, reference parser", "backtrace/backtrace_symbols are interposed, so every malformed symbol text reaches the parser; compared with an independent parser and demangler, also under ASan."),
 "P22": ("PBT with blocked sinks, on a deterministic scheduler (deadlock = violation) and natively", "Sinks blocked at generated points; progress of log calls, other sinks, handle calls and additions while they are blocked; deadlock is detected exactly by the scheduler and by timeout natively."),
 "P23": ("stateful PBT of value operations against a model", "Sequences of copy, move, assign, swap, wrap, modify on messages, fatal messages and levels compared field by field with a model, also under ASan."),
 "P24": ("generated legal histories under ThreadSanitizer and AddressSanitizer", "Generated histories of the public interface run under TSan, ASan+UBSan and with object accounting. Detects what the executed schedules expose."),
 "P25": ("fault-injection PBT: write errors from generated byte positions on, against a model of file content and progress", "write()/writev() stand-ins fail or shorten writes to generated files from generated bytes on; also a real RLIMIT_FSIZE and /dev/full. Oracles: prefix/partition of entries over files, other sinks complete, calls complete, death by the right signal. Transient failures of one file (error, then success on the same file) are not covered: libstdc++ itself then repeats buffered bytes."),
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 -c \"import checks\"", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "technique": T[i][0], "level": CHECKS[i]["level"], "level_note": T[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
