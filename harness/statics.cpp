// Logging from static constructors and destructors: objects that are constructed before the library's own statics and
// destroyed after them (a program linked with the static library), ordinary static objects, atexit handlers, and workers that
// outlive main.  Each case is a plan that a freshly executed copy of this binary carries out.
// PROP: 11 a fatal event ends the process by its signal, 13 custom exit handlers, 14 log calls without an active worker.
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <g3log/filesink.hpp>

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <thread>

#include "pbt.hpp"
using std::string;
using std::vector;

const char* pbt_rule = "a freshly executed program whose static constructors, main, atexit handlers and static destructors log, create, destroy workers by a generated plan; non-trivial: a log call before main or after it";
int pbt_default_batch = 50;
double pbt_hang_s = 60;
bool pbt_hang_is_violation = true;

enum Phase { EARLY_CTOR, CTOR, MAIN, ATEXIT, DTOR, LATE_DTOR, N_PHASES };
static const char* kPhase[] = {"constructor before the library's", "constructor", "main", "atexit", "destructor", "destructor after the library's"};
// l LOG  f LOGF  T LOGF that is cut  i met LOG_IF  n unmet LOG_IF  c CHECK that holds  w create+init worker  d destroy worker
// h set custom exit handler  x fatal event for it  X fatal event
struct Op {
   int phase;
   char what;
   int id;      // level = id % 3; own thread if id % 5 == 4; kind of fatal event
};
static string text_of(int id) { return "<<" + std::to_string(id) + ":" + string(size_t(id * 7 % 60), char('a' + id % 26)) + ">>"; }

// ------------------------------------------------------------------------------------------------------- the program itself
namespace child {
static g3::LogWorker* worker;
static char* done_to;
static void out(const string& s) {
   static int fd = open(getenv("PBT_CHILD_OUT"), O_WRONLY | O_CREAT | O_APPEND, 0600);
   if (write(fd, s.data(), s.size()) < 0) _exit(99);
}
struct Rec {
   int no;
   void recv(g3::LogMessageMover m) { out("\nS" + std::to_string(no) + " " + m.get().toString()); }
};
static void one(const Op& o) {
   LEVELS lv = o.id % 3 == 0 ? LEVELS{g3::kInfoValue, "INFO"} : o.id % 3 == 1 ? LEVELS{g3::kWarningValue, "WARNING"} : LEVELS{g3::kDebugValue, "DEBUG"};
   LEVELS fatal{g3::kFatalValue, "FATAL"};
   string t = text_of(o.id);
   switch (o.what) {
   case 'l': LOG(lv) << t; break;
   case 'f': LOGF(lv, "%s", t.c_str()); break;
   case 'T': LOGF(lv, "%s%s", t.c_str(), string(3000, 'z').c_str()); break;
   case 'i': LOG_IF(lv, o.id >= 0) << t; break;
   case 'n': LOG_IF(lv, o.id < 0) << t; break;
   case 'c': CHECK(o.id >= 0) << t; break;
   case 'w':
      worker = g3::LogWorker::createLogWorker().release();
      worker->addSink(std::make_unique<Rec>(Rec{o.id}), &Rec::recv);
      if (o.id % 2) worker->addSink(std::make_unique<g3::FileSink>("statics", ".", "w" + std::to_string(o.id)), &g3::FileSink::fileWrite);
      g3::initializeLogging(worker);
      break;
   case 'd':
      delete worker;
      worker = nullptr;
      break;
   case 'h': g3::setFatalExitHandler([](g3::FatalMessagePtr m) { out("\nH " + m.get()->toString() + "\n"); }); break;
   case 'x': case 'X':
      switch (o.id % 4) {
      case 0: LOG(fatal) << t; break;
      case 1: CHECK(o.id < 0) << t; break;
      case 2: LOGF(fatal, "%s", t.c_str()); break;
      default:
         if (o.what == 'X') raise(o.id % 8 == 3 ? SIGTERM : SIGSEGV);
         else CHECKF(o.id < 0, "%s", t.c_str());
      }
      out(o.what == 'X' ? "\nRETURNED\n" : "\nBACK\n");
   }
}
static void phase(int p) {
   const char* plan = getenv("PBT_CHILD");
   if (!plan) return;
   out("\nP" + std::to_string(p) + "\n");
   Op o;
   int n;
   for (; sscanf(plan, "%d%c%d,%n", &o.phase, &o.what, &o.id, &n) == 3; plan += n)
      if (o.phase == p) {
         if (o.id % 5 == 4 && o.what != 'w' && o.what != 'd') std::thread([&] { one(o); }).join();
         else one(o);
      }
}
struct Early {
   Early() { phase(EARLY_CTOR); }
   ~Early() { phase(LATE_DTOR); }
};
struct Normal {
   Normal() { phase(CTOR); }
   ~Normal() { phase(DTOR); }
};
static Early early __attribute__((init_priority(200)));
static Normal normal;
}  // namespace child
extern "C" int pbt_child_main() {
   atexit([] { child::phase(ATEXIT); });
   child::phase(MAIN);
   return 0;
}

// ------------------------------------------------------------------------------------------------------------------ the check
static string g_dir;
void pbt_init() {
   g_dir = string(pbt::scratch()) + "/w" + std::to_string(getpid());
   mkdir(g_dir.c_str(), 0755);
   if (chdir(g_dir.c_str())) {}
}
static string slurp(const string& p) {
   std::ifstream f(p, std::ios::binary);
   std::stringstream ss;
   ss << f.rdbuf();
   return ss.str();
}
static size_t count(const string& in, const string& what) {
   size_t n = 0;
   for (size_t p = in.find(what); p != string::npos; p = in.find(what, p + 1)) ++n;
   return n;
}
void pbt_case(pbt::Source& s) {
   vector<Op> ops;
   int id = 0;
   bool alive = false, handler = false, fatal = false;
   for (int p = 0; p < N_PHASES && !fatal; ++p) {
      size_t n = s.below(p == MAIN ? 6 : 4);
      for (size_t i = 0; i < n && !fatal; ++i) {
         static const char kinds[] = "lfTinclfTwdwdhxX";
         char k = kinds[s.below(PROP == 11 ? 16 : PROP == 13 ? 15 : 13)];
         if (k == 'x' && !handler) k = 'h';
         // (workers are created and handlers set while the library's own statics are alive)
         if (p == EARLY_CTOR && (k == 'w' || k == 'd' || k == 'h')) k = 'l';
         if (p == LATE_DTOR && (k == 'w' || k == 'h')) k = alive ? 'd' : 'l';
         if (k == 'w' && alive) k = 'd';
         else if (k == 'd' && !alive) k = p == LATE_DTOR ? 'l' : 'w';
         if (k == 'X' && handler) k = 'x';
         if (PROP == 11 && (k == 'h' || k == 'x')) k = 'X';
         if (k == 'X') fatal = true;
         if (k == 'h') handler = true;
         if (k == 'w') alive = true;
         if (k == 'd') alive = false;
         id += 1 + int(s.below(5));
         ops.push_back({p, k, id});
      }
   }
   if (alive && !fatal) ops.push_back({LATE_DTOR, 'd', ++id});
   string plan;
   for (auto& o : ops) {
      plan += std::to_string(o.phase) + o.what + std::to_string(o.id) + ",";
      pbt::describe("%s: %c%d; ", kPhase[o.phase], o.what, o.id);
   }
   string outf = g_dir + "/out", errf = g_dir + "/err";
   unlink(outf.c_str());
   pid_t pid = fork();
   if (pid == 0) {
      for (int i = 1; i < 32; ++i)
         if (i != SIGKILL && i != SIGSTOP) signal(i, SIG_DFL);
      sigset_t none;
      sigemptyset(&none);
      sigprocmask(SIG_SETMASK, &none, nullptr);
      int fd = open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
      dup2(fd, 2);
      dup2(fd, 1);
      setenv("PBT_CHILD", plan.c_str(), 1);
      setenv("PBT_CHILD_OUT", outf.c_str(), 1);
      execl("/proc/self/exe", "statics", (char*)nullptr);
      _exit(98);
   }
   int st = 0;
   bool hang = false;
   timespec t0, t;
   clock_gettime(CLOCK_MONOTONIC, &t0);
   for (useconds_t nap = 100;; nap += nap < 2000 ? nap / 2 : 0) {
      if (waitpid(pid, &st, WNOHANG) == pid) break;
      usleep(nap);
      pbt::beat();
      clock_gettime(CLOCK_MONOTONIC, &t);
      if (t.tv_sec - t0.tv_sec > 25) {
         kill(pid, SIGKILL);
         waitpid(pid, &st, 0);
         hang = true;
         break;
      }
   }
   string got = slurp(outf), err = slurp(errf);
   char end[60];
   if (WIFSIGNALED(st)) snprintf(end, sizeof end, "killed by signal %d", WTERMSIG(st));
   else snprintf(end, sizeof end, "exit status %d", WEXITSTATUS(st));
   size_t lastp = got.rfind("\nP");
   int at = lastp == string::npos ? 0 : atoi(got.c_str() + lastp + 2);
   if (WIFEXITED(st) && (WEXITSTATUS(st) == 98 || WEXITSTATUS(st) == 99)) pbt::inconclusive("exec");
   PBT_ASSERT(!hang, "the program hangs in phase '%s'", kPhase[at]);
   if (!fatal) PBT_ASSERT(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the program should end normally but: %s in phase '%s': %s", end, kPhase[at], pbt::show(err, 500).c_str());
   else {
      auto& f = ops.back();
      int sig = f.id % 4 == 3 ? (f.id % 8 == 3 ? SIGTERM : SIGSEGV) : SIGABRT;
      PBT_ASSERT(count(got, "RETURNED") == 0, "the fatal call returned in phase '%s'", kPhase[f.phase]);
      PBT_ASSERT(WIFSIGNALED(st) && WTERMSIG(st) == sig, "a fatal event (signal %d) in phase '%s' ended the process by: %s: %s", sig, kPhase[f.phase], end, pbt::show(err, 500).c_str());
      pbt::label(kPhase[f.phase]);
   }
   // reference model
   bool first = true, active = false, any = false;
   int no = -1, handled = 0;
   string pending;
   struct W {
      int no;
      vector<string> due;
   };
   vector<W> ws;
   for (auto& o : ops) {
      string body = text_of(o.id);
      if (o.what == 'T') body = (body + string(3000, 'z')).substr(0, 2047) + "[...truncated...]";
      switch (o.what) {
      case 'w':
         active = true;
         no = o.id;
         ws.push_back({no, {}});
         if (!pending.empty() && ws.size() == 1) ws.back().due.push_back(pending);  // (only the first worker takes it over)
         pending.clear();
         break;
      case 'd': active = false; break;
      case 'l': case 'f': case 'T': case 'i':
         if (o.phase != MAIN) any = true;
         if (active) ws.back().due.push_back("]\t" + body + "\n");
         else if (first) {
            first = false;
            pending = "]\tLOGGER NOT INITIALIZED:\n\t\t" + body + "\n";
            PBT_ASSERT(count(err, "LOGGER NOT INITIALIZED:\n\t\t" + body) == 1, "the first entry of the process (phase '%s') was not echoed once on stderr: %s", kPhase[o.phase], pbt::show(err, 500).c_str());
         }
         break;
      case 'n': case 'c': PBT_ASSERT(count(got, body) + count(err, body) == 0, "an unmet log call or a holding CHECK logged"); break;
      case 'x': ++handled; break;
      case 'X':
         if (active && o.id % 4 != 3) ws.back().due.push_back(body);
         break;
      }
   }
   PBT_ASSERT(count(err, "LOGGER NOT INITIALIZED:") == (first ? 0u : 1u), "entries without a worker were echoed %zu times", count(err, "LOGGER NOT INITIALIZED:"));
   size_t total = 0;
   for (auto& w : ws) {
      string mark = "\nS" + std::to_string(w.no) + " ";
      size_t pos = 0;
      total += w.due.size();
      PBT_ASSERT(count(got, mark) == w.due.size() + (fatal && active && ops.back().id % 4 == 3 && w.no == no), "worker %d received %zu entries instead of %zu: %s", w.no, count(got, mark), w.due.size(), pbt::show(got, 900).c_str());
      for (auto& d : w.due) {
         size_t m = got.find(mark, pos), e = got.find("\nS", m + 1), a = got.find(d, m);
         PBT_ASSERT(m != string::npos && a != string::npos && (e == string::npos || a < e || d.find("LOGGER") != string::npos), "worker %d: %s is missing, altered or out of order: %s", w.no, pbt::show(d, 200).c_str(), pbt::show(m == string::npos ? got : got.substr(m), 600).c_str());
         pos = m + 1;
      }
      if (w.no % 2) {
         string file;
         for (auto& f : std::filesystem::directory_iterator(g_dir))
            if (f.path().filename().string().find(".w" + std::to_string(w.no) + ".") != string::npos) file = slurp(f.path());
         for (auto& d : w.due) PBT_ASSERT(count(file, d) == 1, "worker %d: %s is %zu times in the log file", w.no, pbt::show(d, 200).c_str(), count(file, d));
         PBT_ASSERT(count(file, "g3log g3FileSink shutdown at:") == 1, "worker %d: the log file was not closed", w.no);
      }
   }
   PBT_ASSERT(count(got, "\nH ") == size_t(handled) && count(got, "\nBACK\n") == size_t(handled), "the custom exit handler ran %zu times for %d fatal events and %zu of them returned", count(got, "\nH "), handled, count(got, "\nBACK\n"));
   size_t pos = 0;
   for (auto& o : ops)
      if (o.what == 'x') {
         size_t h = got.find("\nH ", pos), e = got.find("\nBACK\n", h);
         string part = got.substr(h, e - h);
         pos = e;
         PBT_ASSERT(part.find(text_of(o.id)) != string::npos, "the custom handler's entry lost its message: %s", pbt::show(part, 300).c_str());
         PBT_ASSERT(part.find(o.id % 2 ? "EXIT trigger caused by broken Contract: CHECK(o.id < 0)" : "EXIT trigger caused by LOG(FATAL) entry: ") != string::npos, "the custom handler's entry has the wrong text: %s", pbt::show(part, 300).c_str());
         if (o.phase != MAIN) any = true;
         pbt::label("custom exit handler");
      }
   if (any || (fatal && ops.back().phase != MAIN)) pbt::nontrivial();
   if (total) pbt::label("with a worker");
   std::error_code ec;
   for (auto& f : std::filesystem::directory_iterator(g_dir, ec)) std::filesystem::remove(f.path(), ec);
}
