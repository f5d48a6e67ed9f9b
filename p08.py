"""P08: what the log and contract macros evaluate, over generated programs.

A case is a random program (an AST) that nests the macros in every kind of statement.  It is printed as a C++ function, many
functions are compiled into one binary together with the library, and each is run in a child process.  The oracle is an
interpreter of the AST: it yields the exact sequence of evaluations (operands, conditions, marker statements), the entries
delivered to a sink and the fatal events.  A failing case is shrunk on the AST."""
import hashlib, json, os, random, re, subprocess, time
import concurrent.futures as cf

LEVELS = {"G3LOG_DEBUG": 100, "INFO": 300, "WARNING": 500, "FATAL": 1000, "LV_LOW": 50, "LV_MID": 400, "LV_FATAL": 1500}
FATALS = {"FATAL", "LV_FATAL"}

# ------------------------------------------------------------------------------------------------------------ generation


class Gen:
    def __init__(self, rng, dynamic):
        self.r, self.dyn, self.n = rng, dynamic, 0
        self.throwing = rng.random() < 0.4      # the custom exit handler throws

    def id(self):
        self.n += 1
        return self.n

    def case(self):
        self.budget = self.r.choice([4, 8, 14, 22])
        body = self.stmts(3, 1 + self.r.randrange(4))
        return {"throwing": self.throwing, "body": body}

    def stmts(self, depth, n):
        return [self.stmt(depth) for _ in range(n)]

    def stmt(self, depth):
        r = self.r
        self.budget -= 1
        if depth <= 0 or self.budget <= 0 or r.random() < 0.35:
            return self.leaf()
        k = r.choice(["if", "if", "ifelse", "ifelse", "ifelse", "for", "while", "do", "range", "switch", "block", "try", "lambda"])
        d = depth - 1
        if k == "if":
            return {"k": "if", "c": self.cond(), "t": self.body(d)}
        if k == "ifelse":
            return {"k": "if", "c": self.cond(), "t": self.body(d), "e": self.body(d)}
        if k in ("for", "while", "do", "range"):
            return {"k": k, "n": r.randrange(0 if k != "do" else 1, 4), "id": self.id(), "b": self.body(d)}
        if k == "switch":
            return {"k": "switch", "id": self.id(), "v": r.randrange(4),
                    "cases": [{"b": self.body(d), "brk": r.random() < 0.8} for _ in range(1 + r.randrange(3))]}
        if k == "block":
            return {"k": "block", "s": self.stmts(d, 1 + r.randrange(3))}
        if k == "try":
            return {"k": "try", "s": self.stmts(d, 1 + r.randrange(2)), "id": self.id()}
        return {"k": "lambda", "s": self.stmts(d, 1 + r.randrange(2))}

    def body(self, depth):
        """a branch: mostly a single statement without braces"""
        return self.stmt(depth) if self.r.random() < 0.75 else {"k": "block", "s": self.stmts(depth, 1 + self.r.randrange(2))}

    def cond(self, d=2):
        r = self.r
        k = r.choice(["c", "c", "c", "i", "and", "or", "not", "tern", "comma", "eq", "assign"]) if d else r.choice(["c", "i"])
        if k == "c":
            return {"k": "c", "id": self.id(), "m": r.choice([0, 15, 15, 5, 10, 1, 14])}
        if k == "i":
            return {"k": "i", "id": self.id(), "v": r.choice([0, 1, 2, -1, 256, 4])}
        if k == "not":
            return {"k": k, "a": self.cond(d - 1)}
        if k == "tern":
            return {"k": k, "a": self.cond(d - 1), "b": self.cond(0), "c": self.cond(0)}
        if k == "comma":
            return {"k": k, "t": self.id(), "a": self.cond(d - 1)}
        if k == "eq":
            return {"k": k, "t": self.id(), "same": r.random() < 0.5}
        if k == "assign":
            return {"k": k, "a": {"k": "c", "id": self.id(), "m": r.choice([0, 15, 6])}}
        return {"k": k, "a": self.cond(d - 1), "b": self.cond(d - 1)}

    def operands(self, fatal, nested):
        r = self.r
        o = []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
            k = r.choice(["t", "t", "s", "l", "ternop", "x", "n"])
            if k == "x" and (r.random() < 0.5 or (fatal and self.throwing)):
                k = "t"
            if k == "n" and (nested or self.budget <= 0):
                k = "s"
            if k == "n":
                # what is raised inside a fatal macro's operand unwinds through it: only with a handler that returns
                no_fatal = self.throwing
                o.append({"k": "n", "m": self.macro(nested=True, calm=fatal and self.throwing, no_fatal=no_fatal), "id": self.id()})
            elif k == "ternop":
                o.append({"k": "ternop", "a": self.cond(0), "t": self.id(), "u": self.id()})
            else:
                o.append({"k": k, "id": self.id()})
        return o

    def fops(self, fatal, calm):
        o = []
        for _ in range(self.r.choice([0, 0, 1, 2, 3])):
            k = self.r.choice(["t", "t", "s", "x"])
            if k == "x" and (self.r.random() < 0.6 or (fatal and self.throwing) or calm):
                k = "t"
            o.append({"k": k, "id": self.id()})
        return o

    def macro(self, nested=False, calm=False, no_fatal=False):
        r = self.r
        k = r.choice(["LOG", "LOG", "LOG_IF", "LOG_IF", "LOGF", "LOGF_IF", "CHECK", "CHECK", "CHECKF", "CHECK_F"])
        if no_fatal and k.startswith("CHECK"):
            k = "LOG_IF"
        m = {"k": "macro", "m": k, "id": self.id()}
        if not k.startswith("CHECK"):
            m["l"] = r.choice([x for x in LEVELS if not (no_fatal and x in FATALS)] + ["INFO", "G3LOG_DEBUG", "WARNING"])
        fatal = k.startswith("CHECK") or m["l"] in FATALS
        if k in ("LOG_IF", "LOGF_IF") or k.startswith("CHECK"):
            m["c"] = self.cond()
        if k in ("LOG", "LOG_IF", "CHECK"):
            m["o"] = self.operands(fatal, nested)
            if calm:
                m["o"] = [x if x["k"] != "x" else {"k": "t", "id": x["id"]} for x in m["o"]]
        else:
            m["f"] = self.fops(fatal, calm)
        return m

    def leaf(self):
        r = self.r
        x = r.random()
        if x < 0.12:
            return {"k": "mark", "id": self.id()}
        if self.dyn and x < 0.27:
            op = r.choice(["disable", "disable", "enable", "disableAll", "enableAll"])
            return {"k": "level", "op": op, "l": r.choice(list(LEVELS))}
        return self.macro()


# ------------------------------------------------------------------------------------------------------------ C++ printer


def cxx_cond(c):
    k = c["k"]
    if k == "c":
        return "C(%d, %d)" % (c["id"], c["m"])
    if k == "i":
        return "I(%d, %d)" % (c["id"], c["v"])
    if k == "not":
        return "!(%s)" % cxx_cond(c["a"])
    if k == "tern":
        return "%s ? %s : %s" % (paren(c["a"]), paren(c["b"]), paren(c["c"]))
    if k == "comma":
        return "(T(%d), %s)" % (c["t"], paren(c["a"]))
    if k == "eq":
        return "T(%d) == %d" % (c["t"], val(c["t"]) + (0 if c["same"] else 1))
    if k == "assign":
        return "v_ = %s" % cxx_cond(c["a"])
    return "%s %s %s" % (paren(c["a"]), "&&" if k == "and" else "||", paren(c["b"]))


def paren(c):
    s = cxx_cond(c)
    return s if c["k"] in ("c", "i", "not", "comma") else "bool(%s)" % s


def val(i):
    return i * 7 % 101


def cxx_macro(m):
    k = m["m"]
    a = []
    if "l" in m:
        a.append(m["l"])
    if "c" in m:
        a.append(cxx_cond(m["c"]))
    if "f" in m:
        f = "m%d" % m["id"]
        args = []
        for o in m["f"]:
            f += {"t": " %d", "s": " %s", "x": " %d"}[o["k"]]
            args.append({"t": "TG(%d, %d)", "s": "SG(%d, %d).c_str()", "x": "XG(%d, %d)"}[o["k"]] % (m["id"], o["id"]))
        return "%s(%s)" % (k, ", ".join(a + ['"%s"' % f] + args))
    s = "%s(%s)" % (k, ", ".join(a))
    s += ' << "m%d"' % m["id"]
    for o in m["o"]:
        s += " << "
        if o["k"] == "t":
            s += "T(%d)" % o["id"]
        elif o["k"] == "s":
            s += "S(%d)" % o["id"]
        elif o["k"] == "l":
            s += '"lit%d"' % o["id"]
        elif o["k"] == "x":
            s += "X(%d)" % o["id"]
        elif o["k"] == "ternop":
            s += "(%s ? T(%d) : T(%d))" % (cxx_cond(o["a"]), o["t"], o["u"])
        else:
            s += "[&] { %s; return T(%d); }()" % (cxx_macro(o["m"]), o["id"])
    return s


def open_if(s):
    """would an else that follows be captured by the statement itself (not by a macro)"""
    k = s["k"]
    if k == "if":
        return "e" not in s or open_if(s["e"])
    if k in ("for", "while", "range"):
        return open_if(s["b"])
    return False


def cxx(s, ind="   "):
    k = s["k"]
    n = ind + "   "
    if k == "macro":
        return ind + cxx_macro(s) + ";\n"
    if k == "mark":
        return ind + "M(%d);\n" % s["id"]
    if k == "level":
        return ind + "g3::log_levels::%s(%s);\n" % (s["op"], "" if s["op"].endswith("All") else s["l"])
    if k == "block":
        return ind + "{\n" + "".join(cxx(x, n) for x in s["s"]) + ind + "}\n"
    if k == "if":
        t = s["t"]
        if "e" in s and open_if(t):
            t = {"k": "block", "s": [t]}
        r = ind + "if (%s)\n" % cxx_cond(s["c"]) + cxx(t, n)
        if "e" in s:
            r += ind + "else\n" + cxx(s["e"], n)
        return r
    if k == "for":
        return ind + "for (int i%d = 0; i%d < %d; ++i%d)\n" % (s["id"], s["id"], s["n"], s["id"]) + cxx(s["b"], n)
    if k == "while":
        return ind + "while (L(%d, %d))\n" % (s["id"], s["n"]) + cxx(s["b"], n)
    if k == "do":
        return ind + "do\n" + cxx(s["b"], n) + ind + "while (L(%d, %d));\n" % (s["id"], s["n"] - 1)
    if k == "range":
        return ind + "for (int x%d : std::vector<int>(%d))\n" % (s["id"], s["n"]) + cxx(s["b"], n)
    if k == "switch":
        r = ind + "switch (V(%d, %d)) {\n" % (s["id"], s["v"])
        for i, c in enumerate(s["cases"]):
            r += ind + ("default:\n" if i + 1 == len(s["cases"]) else "case %d:\n" % i) + cxx(c["b"], n) + (n + "break;\n" if c["brk"] else "")
        return r + ind + "}\n"
    if k == "try":
        return ind + "try {\n" + "".join(cxx(x, n) for x in s["s"]) + ind + "} catch (const Thrown&) { M(%d); }\n" % s["id"]
    if k == "lambda":
        return ind + "[&] {\n" + "".join(cxx(x, n) for x in s["s"]) + ind + "}();\n"
    raise ValueError(k)


PRELUDE = r"""
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <g3log/loglevels.hpp>
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
#include <cstdio>
#include <map>
#include <memory>
#include <string>
#include <vector>
struct Thrown { int id; };
inline std::string trace_;
inline std::map<int, int> visits_, loops_;
inline std::vector<std::string> fatals_;
inline bool throwing_;
inline bool v_;
const LEVELS LV_LOW{50, "LV_LOW"}, LV_MID{400, "LV_MID"}, LV_FATAL{1500, "LV_FATAL"};
inline void tok(const char* k, int id) { trace_ += k + std::to_string(id) + " "; }
inline int T(int id) { tok("t", id); return id * 7 % 101; }
inline std::string S(int id) { tok("s", id); return "s" + std::to_string(id); }
inline int X(int id) { tok("x", id); throw Thrown{id}; }
inline void grp(int g, const char* k, int id) { trace_ += "g" + std::to_string(g) + ":"; tok(k, id); }
inline int TG(int g, int id) { grp(g, "t", id); return id * 7 % 101; }
inline std::string SG(int g, int id) { grp(g, "s", id); return "s" + std::to_string(id); }
inline int XG(int g, int id) { grp(g, "x", id); throw Thrown{id}; }
inline bool C(int id, int mask) { tok("c", id); return (mask >> (visits_[id]++ % 4)) & 1; }
inline int I(int id, int v) { tok("i", id); return v; }
inline int V(int id, int v) { tok("v", id); return v; }
inline void M(int id) { tok("m", id); }
inline bool L(int id, int n) {
   if (loops_[id]++ < n) return true;
   loops_[id] = 0;
   return false;
}
inline std::vector<std::string> got_;
struct Rec {
   void recv(g3::LogMessageMover m) { got_.push_back(m.get().level() + "|" + m.get().message()); }
};
"""

MAIN = r"""
static void line(const char* k, const std::string& s) { dprintf(1, "%s %s\n", k, s.c_str()); }
int main(int argc, char** argv) {
   for (int i = 1; i + 1 <= argc - 1; ++i) (void)i;
   for (size_t i = 0; i < sizeof kCases / sizeof *kCases; ++i) {
      dprintf(1, "CASE %d\n", kCases[i].no);
      pid_t pid = fork();
      if (pid == 0) {
         alarm(20);
         auto worker = g3::LogWorker::createLogWorker();
         worker->addSink(std::make_unique<Rec>(), &Rec::recv);
#ifdef G3_DYNAMIC_LOGGING
         for (auto& l : {LV_LOW, LV_MID, LV_FATAL}) g3::only_change_at_initialization::addLogLevel(l, true);
#endif
         g3::initializeLogging(worker.get());
         throwing_ = kCases[i].throwing;
         g3::setFatalExitHandler([](g3::FatalMessagePtr m) {
            std::string s = m.get()->level() + "|" + m.get()->message();
            fatals_.push_back(s.substr(0, s.find("\n")));
            if (throwing_) throw Thrown{-1};
         });
         try {
            kCases[i].f();
         } catch (const Thrown&) { trace_ += "! "; }
#ifdef G3_DYNAMIC_LOGGING
         g3::log_levels::enableAll();
#endif
         LOG(INFO) << "usable";
         line("TRACE", trace_);
         worker.reset();
         for (auto& s : got_) line("ENTRY", s);
         for (auto& s : fatals_) line("FATAL", s);
         line("DONE", "");
         _exit(0);
      }
      int st;
      waitpid(pid, &st, 0);
      if (st) dprintf(1, "STATUS %x\n", st);
   }
}
"""


# ------------------------------------------------------------------------------------------------------------ interpreter


class Thrown(Exception):
    pass


class Interp:
    def __init__(self, case, dynamic):
        self.case, self.dyn = case, dynamic
        self.on = dict((k, True) for k in LEVELS)
        self.trace, self.entries, self.fatals = [], [], []   # entries: (text, optional)
        self.visits, self.v = {}, 0
        self.suppressed = self.delivered = self.contracts = 0

    def run(self):
        try:
            for s in self.case["body"]:
                self.stmt(s)
        except Thrown:
            self.trace.append("!")
        self.entries.append(("INFO|usable", False))
        return self

    def cond(self, c):
        k = c["k"]
        if k == "c":
            self.trace.append("c%d" % c["id"])
            n = self.visits.get(c["id"], 0)
            self.visits[c["id"]] = n + 1
            return (c["m"] >> (n % 4)) & 1
        if k == "i":
            self.trace.append("i%d" % c["id"])
            return c["v"] != 0
        if k == "not":
            return not self.cond(c["a"])
        if k == "tern":
            return self.cond(c["b"]) if self.cond(c["a"]) else self.cond(c["c"])
        if k == "comma":
            self.trace.append("t%d" % c["t"])
            return self.cond(c["a"])
        if k == "eq":
            self.trace.append("t%d" % c["t"])
            return c["same"]
        if k == "assign":
            return self.cond(c["a"])
        if k == "and":
            return self.cond(c["a"]) and self.cond(c["b"])
        return self.cond(c["a"]) or self.cond(c["b"])

    def macro(self, m):
        lvl = m.get("l")
        if lvl and not self.on[lvl]:
            self.suppressed += 1
            return
        if "c" in m:
            c = self.cond(m["c"])
            if bool(c) == m["m"].startswith("CHECK"):
                self.suppressed += 1
                return
        text = "m%d" % m["id"]
        threw = False
        if "f" in m:
            toks = []
            for o in m["f"]:
                toks.append("g%d:%s%d" % (m["id"], o["k"], o["id"]))
                text += " %d" % val(o["id"]) if o["k"] == "t" else " s%d" % o["id"]
                threw = threw or o["k"] == "x"
            if threw:
                # the order of evaluation is not specified: one operand that throws, any subset of the others
                self.trace.append(("any", m["id"], tuple(toks)))
                text = ""
            else:
                self.trace.extend(toks)
        else:
            try:
                for o in m["o"]:
                    k = o["k"]
                    if k == "t":
                        self.trace.append("t%d" % o["id"])
                        text += str(val(o["id"]))
                    elif k == "s":
                        self.trace.append("s%d" % o["id"])
                        text += "s%d" % o["id"]
                    elif k == "l":
                        text += "lit%d" % o["id"]
                    elif k == "x":
                        self.trace.append("x%d" % o["id"])
                        raise Thrown()
                    elif k == "ternop":
                        t = o["t"] if self.cond(o["a"]) else o["u"]
                        self.trace.append("t%d" % t)
                        text += str(val(t))
                    else:
                        self.macro(o["m"])
                        self.trace.append("t%d" % o["id"])
                        text += str(val(o["id"]))
            except Thrown:
                threw = True
        name = {"G3LOG_DEBUG": "DEBUG"}.get(lvl, lvl) if lvl else "CONTRACT"
        self.delivered += 1
        if not lvl:
            self.contracts += 1
        if not lvl or lvl in FATALS:
            self.fatals.append((name + "|" + text, threw))
            if threw or self.case["throwing"]:
                raise Thrown()
        else:
            self.entries.append((name + "|" + text, threw))
            if threw:
                raise Thrown()

    def stmt(self, s):
        k = s["k"]
        if k == "macro":
            self.macro(s)
        elif k == "mark":
            self.trace.append("m%d" % s["id"])
        elif k == "level":
            for l in (LEVELS if s["op"].endswith("All") else [s["l"]]):
                self.on[l] = s["op"].startswith("enable")
        elif k in ("block", "lambda"):
            for x in s["s"]:
                self.stmt(x)
        elif k == "if":
            if self.cond(s["c"]):
                self.stmt(s["t"])
            elif "e" in s:
                self.stmt(s["e"])
        elif k in ("for", "range", "while", "do"):
            for _ in range(s["n"]):
                self.stmt(s["b"])
        elif k == "switch":
            self.trace.append("v%d" % s["id"])
            i = min(s["v"], len(s["cases"]) - 1)
            while i < len(s["cases"]):
                self.stmt(s["cases"][i]["b"])
                if s["cases"][i]["brk"]:
                    break
                i += 1
        elif k == "try":
            try:
                for x in s["s"]:
                    self.stmt(x)
            except Thrown:
                self.trace.append("m%d" % s["id"])


def uses_loop_state(s):
    """while/do loops keep a counter that an exception leaves behind: they must not throw out and be re-entered"""
    return s["k"] in ("while", "do")


def throws(s):
    t = json.dumps(s)
    return '"x"' in t or '"CHECK' in t or "FATAL" in t


def sane(s):
    """no while/do whose body may throw (its counter would survive)"""
    if isinstance(s, list):
        return all(sane(x) for x in s)
    if isinstance(s, dict):
        if s.get("k") in ("while", "do") and throws(s["b"]):
            return False
        return all(sane(x) for x in s.values())
    return True


def norm(trace):
    """sort runs of tokens of the same printf call"""
    out, run, g = [], [], None

    def flush():
        out.extend(sorted(run))
        run.clear()
    for t in trace:
        tg = t.split(":")[0] if isinstance(t, str) and t.startswith("g") else None
        if tg != g:
            flush()
            g = tg
        if tg:
            run.append(t)
        else:
            out.append(t)
    flush()
    return out


def match_trace(want, got):
    i = 0
    got = norm(got)
    for w in norm(want):
        if isinstance(w, tuple):
            pre = "g%d:" % w[1]
            mine = []
            while i < len(got) and got[i].startswith(pre):
                mine.append(got[i])
                i += 1
            if len(set(mine)) != len(mine) or not set(mine) <= set(w[2]) or sum(t.startswith(pre + "x") for t in mine) != 1:
                return False
        else:
            if i >= len(got) or got[i] != w:
                return False
            i += 1
    return i == len(got)


def match_list(want, got):
    from functools import lru_cache

    @lru_cache(None)
    def go(i, j):
        if i == len(want):
            return j == len(got)
        t, opt = want[i]
        if opt and go(i + 1, j):
            return True
        if j < len(got) and (got[j] == t or (opt and got[j].startswith(t.split("|")[0] + "|"))):
            return go(i + 1, j + 1)
        return False
    return go(0, 0)


def verdict(case, dyn, out):
    it = Interp(case, dyn).run()
    if "DONE" not in out:
        return "the program was killed or did not end (%s)" % out.get("STATUS", "?"), it
    got = out["TRACE"].split()
    if not match_trace(it.trace, got):
        return "evaluated: %s\nexpected:  %s" % (" ".join(got), " ".join(t if isinstance(t, str) else "{%s}" % " ".join(t[2]) for t in it.trace)), it
    if not match_list(tuple(it.entries), tuple(out["ENTRY"])):
        return "entries: %s\nexpected: %s" % (out["ENTRY"], it.entries), it
    if not match_list(tuple(it.fatals), tuple(out["FATAL"])):
        return "fatal events: %s\nexpected: %s" % (out["FATAL"], it.fatals), it
    return None, it


# ------------------------------------------------------------------------------------------------------------- execution


class Builder:
    def __init__(self, check, scratch, gen, cxx):
        self.check, self.gen, self.cxx, self.dir = check, gen, cxx, scratch
        k = check.KINDS["native"]
        inc = ["-I" + os.path.join(check.REPO, "src"), "-I" + check.gen_definitions(gen)]
        self.flags = check.COMMON + ["-O0"] + inc
        jobs, link, _ = check.plan_binary("native", gen, "stackdump.cpp", [])   # for the library's object files
        n = len(check.lib_sources())
        for j in jobs[:n]:
            check.compile_one(j)
        self.objs = [j[3] for j in jobs[:n]]
        # precompiled prelude
        self.pre = os.path.join(scratch, "prelude-%s-%s.hpp" % (cxx, "d" if gen else "s"))
        with open(self.pre, "w") as f:
            f.write("#pragma once\n" + PRELUDE)
        check.run_cmd([cxx] + self.flags + ["-x", "c++-header", self.pre, "-o", self.pre + (".gch" if cxx == "g++" else ".pch")])

    def run(self, name, cases):
        """cases: list of (number, case) -> {number: {TRACE, ENTRY, FATAL, DONE, STATUS}}"""
        src = os.path.join(self.dir, name + ".cpp")
        inc = ["-include", self.pre] if self.cxx == "g++" else ["-include-pch", self.pre + ".pch"]
        with open(src, "w") as f:
            for no, c in cases:
                f.write("static void case_%d() {\n%s}\n" % (no, "".join(cxx(s) for s in c["body"])))
            f.write("static const struct { int no; bool throwing; void (*f)(); } kCases[] = {%s};\n" %
                    ", ".join("{%d, %s, case_%d}" % (no, "true" if c["throwing"] else "false", no) for no, c in cases))
            f.write(MAIN)
        exe = os.path.join(self.dir, name)
        r = subprocess.run([self.cxx] + self.flags + inc + [src] + self.objs + ["-o", exe, "-pthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return None, r.stdout.decode(errors="replace")
        p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=600)
        os.unlink(exe)
        res, cur = {}, None
        for l in p.stdout.decode(errors="replace").splitlines():
            k, _, v = l.partition(" ")
            if k == "CASE":
                cur = res.setdefault(int(v), {"ENTRY": [], "FATAL": []})
            elif k in ("ENTRY", "FATAL"):
                cur[k].append(v)
            elif cur is not None:
                cur[k] = v
        return res, ""


def children(s):
    """simpler versions of an AST node list"""
    if isinstance(s, list):
        for i in range(len(s)):
            yield s[:i] + s[i + 1:]
        for i in range(len(s)):
            x = s[i]
            for sub in ("s",):
                if isinstance(x, dict) and isinstance(x.get(sub), list):
                    yield s[:i] + x[sub] + s[i + 1:]
            if isinstance(x, dict):
                for sub in ("t", "e", "b"):
                    if isinstance(x.get(sub), dict) and x["k"] in ("if", "for", "while", "do", "range"):
                        yield s[:i] + [x[sub]] + s[i + 1:]
                for y in children(x):
                    yield s[:i] + [y] + s[i + 1:]
    elif isinstance(s, dict):
        k = s.get("k")
        if k == "if" and "e" in s:
            yield {a: b for a, b in s.items() if a != "e"}
        if k in ("and", "or", "not", "comma", "tern"):
            yield s["a"]
        for key in ("s", "o", "f", "body"):
            if isinstance(s.get(key), list):
                for y in children(s[key]):
                    yield dict(s, **{key: y})
        for key in ("t", "e", "b", "c", "a", "m"):
            if isinstance(s.get(key), dict):
                for y in children(s[key]):
                    yield dict(s, **{key: y})
        if k == "switch":
            for i, c in enumerate(s["cases"]):
                if len(s["cases"]) > 1:
                    yield dict(s, cases=s["cases"][:i] + s["cases"][i + 1:])
                for y in children(c["b"]):
                    yield dict(s, cases=s["cases"][:i] + [dict(c, b=y)] + s["cases"][i + 1:])


def valid(x):
    """shrinking may empty things that must not be empty"""
    if isinstance(x, dict):
        if x.get("k") in ("lambda", "block", "try") and not x["s"]:
            return True
        return all(valid(y) for y in x.values())
    return True


def shrink(b, case, dyn, deadline):
    best = case
    no = 0
    while time.time() < deadline:
        cand = [c for c in (dict(best, body=y) for y in children(best["body"])) if sane(c["body"])][:160]
        if not cand:
            break
        res, err = b.run("shrink", list(enumerate(cand)))
        if res is None:
            break
        nxt = None
        for i, c in enumerate(cand):
            if verdict(c, dyn, res.get(i, {"ENTRY": [], "FATAL": []}))[0]:
                if nxt is None or len(json.dumps(c)) < len(json.dumps(nxt)):
                    nxt = c
        if nxt is None:
            break
        best = nxt
        no += 1
    return best


def text_of(case):
    return ("// custom exit handler %s\n" % ("throws" if case["throwing"] else "returns")) + "".join(cxx(s) for s in case["body"])


def engine(tier, a, spec, e, scratch, replay=None):
    import check
    dyn = bool(e.get("gen"))
    gen = e.get("gen", [])
    if replay:
        b = Builder(check, scratch, gen, replay.get("compiler", "g++"))
        c = replay["ast"]
        res, err = b.run("replay", [(0, c)])
        print(text_of(c))
        why = "does not compile:\n" + err if res is None else verdict(c, dyn, res.get(0, {"ENTRY": [], "FATAL": []}))[0]
        print("FAIL\n" + why if why else "held")
        return 1 if why else 0
    q = e[tier]
    shards = q.get("shards", 8)
    t0 = time.time()
    builders = {}
    for cx in ("g++", "clang++"):
        builders[cx] = Builder(check, scratch, gen, cx)

    def shard(i):
        rng = random.Random("%d %d %s" % (a.seed, i, e["name"]))
        out = dict(cases=0, nontrivial=0, labels={}, samples=[], bad=None, hashes=set())
        cx = "g++" if i % 2 == 0 else "clang++"
        rounds = 0
        while out["cases"] < q["cases"] and (rounds == 0 or time.time() - t0 < q["time"]):
            rounds += 1
            cases = []
            while len(cases) < q.get("per", 60):
                g = Gen(rng, dyn)
                c = g.case()
                if sane(c["body"]):
                    cases.append((len(cases), c))
            res, err = builders[cx].run("s%d" % i, cases)
            if res is None:
                # which one
                out["bad"] = (None, "the generated program does not compile:\n" + err[:3000], cx)
                for no, c in cases:
                    r1, e1 = builders[cx].run("s%dx" % i, [(0, c)])
                    if r1 is None:
                        out["bad"] = (c, "does not compile:\n" + e1[:2000], cx)
                        break
                return out
            for no, c in cases:
                why, it = verdict(c, dyn, res.get(no, {"ENTRY": [], "FATAL": []}))
                out["cases"] += 1
                if it.suppressed and it.delivered:
                    out["nontrivial"] += 1
                    out["hashes"].add(hashlib.sha1(json.dumps(c).encode()).digest())
                for l, x in (("a contract failed", it.contracts), ("an operand threw", any(isinstance(t, tuple) or t.startswith("x") or ":x" in t for t in it.trace)),
                             ("throwing exit handler", c["throwing"])):
                    if x:
                        out["labels"][l] = out["labels"].get(l, 0) + 1
                if why:
                    out["bad"] = (c, why, cx)
                    return out
                if len(out["samples"]) < 1 and it.suppressed and it.delivered:
                    out["samples"].append(text_of(c)[:1200])
        return out
    with cf.ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(shard, range(shards)))
    r = dict(cases=sum(o["cases"] for o in outs), nontrivial=sum(o["nontrivial"] for o in outs), labels={}, samples=[s for o in outs for s in o["samples"]],
             rule="a generated program nesting the macros in if/else, loops, switch, try, lambdas and operands; non-trivial: >=1 macro suppressed or unmet and >=1 that delivered",
             violated=False, kind="", msg="", desc="", confirmed=0)
    hs = set()
    for o in outs:
        hs |= o["hashes"]
        for l, x in o["labels"].items():
            r["labels"][l] = r["labels"].get(l, 0) + x
    r["distinct"] = len(hs)
    for o in outs:
        if o["bad"]:
            c, why, cx = o["bad"]
            if c is not None and "does not compile" not in why:
                res, _ = builders[cx].run("confirm", [(0, c)])
                again = verdict(c, dyn, (res or {}).get(0, {"ENTRY": [], "FATAL": []}))[0]
                if not again:
                    r["unconfirmed"] = why[:500]
                    r["fail_unconfirmed"] = r.get("fail_unconfirmed", 0) + 1
                    continue
                c = shrink(builders[cx], c, dyn, time.time() + 60)
                res, _ = builders[cx].run("confirm", [(0, c)])
                why = verdict(c, dyn, (res or {}).get(0, {"ENTRY": [], "FATAL": []}))[0] or why
            r.update(violated=True, kind="property failure", msg=why, desc=text_of(c) if c else "", confirmed=1)
            os.makedirs(os.path.join(check.ROOT, "replays"), exist_ok=True)
            p = os.path.join(check.ROOT, "replays", "P08-%s-%s.json" % (e["name"], hashlib.sha1(json.dumps(c).encode()).hexdigest()[:8]))
            with open(p, "w") as f:
                json.dump({"property": "P08", "engine": e["name"], "compiler": cx, "message": why, "case": r["desc"], "ast": c,
                           "how": "python3 check.py P08 --replay " + p}, f, indent=1)
            r["replay"] = p
            break
    return r
