#!/usr/bin/env python3
"""automut.py [--seed N] [--count N] [--files a,b]: random source mutants (deleted statements, changed operators and constants) of
/repo/src (or $MUT_REPO/src) in scratch copies, each judged by the quick checks of its file until one raises an alarm.
A survivor is either equivalent, or a gap: both are printed for reading."""
import argparse, os, random, re, shutil, subprocess, sys, tempfile
ap = argparse.ArgumentParser()
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--count", type=int, default=20)
ap.add_argument("--files", default="")
ap.add_argument("--list", action="store_true")
a = ap.parse_args()
REPO = os.environ.get("MUT_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", "/tmp/mutbuild")
CHECKS = {
    "logworker.cpp": "P01 P14 P10 P03", "g3log.cpp": "P14 P13 P11 P10 P05", "logcapture.cpp": "P06 P05", "logmessage.cpp": "P07 P05 P23",
    "time.cpp": "P19", "filesink.cpp": "P15 P17 P16 P18 P25", "filesinkhelper.ipp": "P18 P15 P17 P25",
    "crashhandler_unix.cpp": "P12 P21 P11 P13 P10 P14", "loglevels.cpp": "P09 P23 P07", "g3log/loglevels.hpp": "P09 P23", "g3log/active.hpp": "P20 P24",
    "g3log/shared_queue.hpp": "P20", "g3log/future.hpp": "P20 P04", "g3log/sink.hpp": "P04 P03 P01 P07", "g3log/sinkhandle.hpp": "P04 P03",
    "g3log/logworker.hpp": "P03 P01 P14", "g3log/moveoncopy.hpp": "P23 P20", "g3log/logmessage.hpp": "P23 P07 P05", "g3log/g3log.hpp": "P08 P05 P06",
    "g3log/atomicbool.hpp": "P09 P23", "g3log/logcapture.hpp": "P05 P06", "g3log/time.hpp": "P19 P07",
}
OPS = [("==", "!="), ("!=", "=="), (" < ", " <= "), (" > ", " >= "), (" >= ", " > "), ("&&", "||"), ("||", "&&"), ("true", "false"), ("false", "true"),
       (" + ", " - "), ("++", "--"), ("while", "if"), (".empty()", ".size()"), ("nullptr == ", "nullptr != "), ("nullptr != ", "nullptr == "), ("if (", "if (!("), ("std::move(", "("),
       ("break;", ""), ("continue;", "break;"), ("return true", "return false"), ("push_back", "size() ? (void)0 : (void)0; (void)(0, "), ("append", "assign"), ("find_last_of", "find_first_of"), ("rfind", "find"), ("+=", "=")]


def mutants():
    out = []
    for f in CHECKS:
        p = os.path.join(REPO, "src", f)
        if not os.path.exists(p) or (a.files and f not in a.files.split(",")):
            continue
        lines = open(p, newline="").read().split("\n")
        incomment = skip = False
        for i, l in enumerate(lines):
            s = l.strip()
            if "/*" in s and "*/" not in s:
                incomment = True
            if incomment:
                incomment = "*/" not in s
                continue
            if re.match(r"#\s*if.*(WIN32|_MSC_VER|__MACH__|__APPLE__)", s):
                skip = not s.startswith("#if !(")
            if re.match(r"#\s*(else|endif)", s):
                skip = False
            if skip or not s or s.startswith(("//", "#", "*", "using", "typedef", "namespace", "template", "friend")) or "@" in s:
                continue
            code = l.split("//")[0]
            if code.rstrip().endswith(";") and code.count("(") == code.count(")") and "(" in code and not re.match(r"\s*(return|auto|const|static|std::\w+[<\w:, >*]* \w+[({=]|int|bool|size_t|virtual|explicit|\w+\(.*\) *(=|;)$|.*= (default|delete))", code):
                out.append((f, i, l, re.sub(r"\S.*;", ";", code, count=1), "delete"))
            for x, y in OPS:
                for m in re.finditer(re.escape(x), code):
                    if code[:m.start()].count('"') % 2 or "<<" in code and x in (" < ", " > "):
                        continue
                    new = code[:m.start()] + y + code[m.end():]
                    if x == "if (":
                        k = new.rfind(")")
                        new = new[:k] + ")" + new[k:]
                    out.append((f, i, l, new, x.strip() + "->" + y.strip()))
            for m in re.finditer(r"(?<![\w.\"%])(\d{1,4})(?![\w.\"])", code):
                if code[:m.start()].count('"') % 2:
                    continue
                out.append((f, i, l, code[:m.start()] + str(int(m.group(1)) + 1) + code[m.end():], m.group(1) + "+1"))
    return out


ms = mutants()
if a.list:
    for m in ms:
        print(m)
    print(len(ms))
    sys.exit()
random.Random(a.seed).shuffle(ms)
# every file in turn, so that small files count
by = {}
for m in ms:
    by.setdefault(m[0], []).append(m)
order = []
while by and len(order) < a.count:
    for f in sorted(by):
        order.append(by[f].pop())
        if not by[f]:
            del by[f]
            break
for f, i, old, new, kind in order[:a.count]:
    d = tempfile.mkdtemp(prefix="amut-", dir="/tmp")
    try:
        shutil.copytree(REPO + "/src", d + "/src")
        p = os.path.join(d, "src", f)
        lines = open(p, newline="").read().split("\n")
        lines[i] = new
        open(p, "w", newline="").write("\n".join(lines))
        verdict = "SURVIVED"
        t = [f2 for f2 in ("logworker.cpp", "g3log.cpp", "filesink.cpp", "logmessage.cpp", "time.cpp", "loglevels.cpp", "logcapture.cpp", "crashhandler_unix.cpp")]
        for c in t if f not in t else [f]:
            r = subprocess.run(["g++", "-std=c++17", "-fsyntax-only", "-w", "-I" + d + "/src", "-I/repo/_build_dynamic/include", "-DG3_DYNAMIC_LOGGING", d + "/src/" + c], capture_output=True)
            if r.returncode:
                verdict = "no build"
                break
        if verdict != "no build":
            for pr in CHECKS[f].split():
                r = subprocess.run(["python3", HERE + "/check.py", pr], env=dict(os.environ, VERIF_REPO=d, VERIF_BUILD=BUILD), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                o = [x for x in r.stdout.decode(errors="replace").splitlines() if x.strip()]
                if r.returncode == 1:
                    why = [x for x in o if x.startswith("engine") or "failure" in x]
                    verdict = "killed by " + pr + " " + (why[0] if why else o[0])[:90]
                    break
                if r.returncode:
                    verdict = "rc %d in %s: %s" % (r.returncode, pr, o[-1][:200] if o else "")
                    break
        print("%s | %s:%d %s | %s => %s" % (verdict, f, i + 1, kind, old.strip(), new.strip()), flush=True)
    finally:
        shutil.rmtree(d)
