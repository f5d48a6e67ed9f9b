// Fatal events and worker life cycles, each case in a child process whose sinks record into shared memory.
// PROP: 10 flush, 11 how the process ends, 13 hooks and custom exit handlers, 14 logging before/between/after workers.
#include <g3log/crashhandler.hpp>
#include <g3log/filesink.hpp>
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>

#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <thread>

#include "pbt.hpp"
#include "sched.hpp"

#ifndef PROP
#error PROP
#endif
#define NOTS __attribute__((no_sanitize_thread, noinline))
using std::string;
using std::vector;

const char* pbt_rule =
#if PROP == 10
   "a child process with 1..4 sinks (message, string, file; slow or not) and 1..3 logging threads raises one generated fatal event; non-trivial: >=1 entry was logged before the event and >=1 sink attached";
#elif PROP == 11
   "one generated fatal event per child process under generated set-ups (uninitialized, worker gone, no sinks, overridden signal sets, the program's own handlers, blocked signals); non-trivial: anything but the plain initialized default set-up";
#elif PROP == 13
   "generated hooks (recording, logging, failing), re-initialization, custom exit handlers with several fatal events; non-trivial: a hook or a custom handler was in place at a fatal event";
#else
   "generated histories of creating, initializing, destroying workers and logging in every phase, with concurrent loggers; non-trivial: >=1 entry logged without an active worker and >=1 with";
#endif
int pbt_default_batch = 20;
double pbt_hang_s = 60;
bool pbt_hang_is_violation = true;

namespace {
constexpr int kMaxSinks = 14, kMaxEv = 2500, kMaxThreads = 4, kMaxPer = 300;
struct SinkShm {
   std::atomic<uint32_t> n, destroyed, overflow;
   int32_t ev[kMaxEv];
   char fatal_text[6000];
   char odd[300];
};
struct Shm {
   SinkShm sink[kMaxSinks];
   std::atomic<uint32_t> returned[kMaxThreads];  // log calls that have returned
   uint32_t due[kMaxThreads];                    // snapshot just before the event
   std::atomic<uint32_t> event_raised, event_returned, ready, poked;
   std::atomic<uint32_t> hook_runs, hook_tid_ok, hook_after_fatal, hook_other_runs;
   std::atomic<uint32_t> handler_runs, forwarded;
   std::atomic<uint32_t> own_handler_runs, own_handler_sig, sa_bad;
   char file_name[4][512];
   std::atomic<uint32_t> nfiles;
   std::atomic<uint32_t> step;
   char handler_text[8][3000];
   char note[1000];
   // bulk histories: sinks only count
   std::atomic<uint32_t> bulk_next[2][2], bulk_fatal[2], bulk_after[2], bulk_gone[2];
   char bulk_bad[200];
};
static_assert(sizeof(Shm) < sizeof(pbt::shm->user), "shm");
Shm* S;

constexpr int32_t kWritten = 0x40000000;  // the process can die between claiming a place and writing to it
NOTS void push_event(int k, int32_t code) {
   uint32_t i = __atomic_fetch_add((uint32_t*)&S->sink[k].n, 1, __ATOMIC_SEQ_CST);
   if (i < kMaxEv) S->sink[k].ev[i] = code + kWritten;
   else __atomic_store_n((uint32_t*)&S->sink[k].overflow, 1, __ATOMIC_SEQ_CST);
}
NOTS void bump(std::atomic<uint32_t>& a) { __atomic_fetch_add((uint32_t*)&a, 1, __ATOMIC_SEQ_CST); }
NOTS void set(std::atomic<uint32_t>& a, uint32_t v) { __atomic_store_n((uint32_t*)&a, v, __ATOMIC_SEQ_CST); }
NOTS uint32_t get(std::atomic<uint32_t>& a) { return __atomic_load_n((uint32_t*)&a, __ATOMIC_SEQ_CST); }
NOTS void snapshot_due() {
   for (int t = 0; t < kMaxThreads; ++t) S->due[t] = get(S->returned[t]);
   set(S->event_raised, 1);
}

// entry ids: thread * 1000 + n  ->  "<<E id|payload>>"; fatal entries "<<F k|...>>"
string entry_text(int id) { return "<<E" + std::to_string(id) + "|" + string(size_t(id % 61 == 3 ? 300 + id * 37 % (id % 2 ? 1500 : 5000) : id * 13 % 37), char('a' + id % 26)) + ">>"; }
string fatal_text(int k) { return "<<F" + std::to_string(k) + "|fatal message " + string(k < 900 ? size_t(k * 7 % 30) : size_t(k - 900) * 1500, 'x') + ">>"; }
// how a fatal message is recorded: huge ones (900..) in a short form, once found complete
string fatal_mark(int k) { return k < 900 ? fatal_text(k) : "<<F" + std::to_string(k) + "|complete>>"; }
constexpr int kFatal = -1000, kOdd = -1, kWarnNotActive = -2, kPrefixed = 100000;

NOTS void save_text(char* to, size_t cap, const string& s) {
   if (to[0]) return;
   size_t n = std::min(s.size(), cap - 1);
   memcpy(to, s.data(), n);
   to[n] = 0;
}
void classify(int k, const string& text) {
   size_t f = text.find("<<F");
   if (f != string::npos || text.find("Received fatal signal") != string::npos) {
      int no = f == string::npos ? 0 : atoi(text.c_str() + f + 3);
      string t = text;
      size_t at = no >= 900 ? t.find(fatal_text(no)) : string::npos;
      if (at != string::npos) t.replace(at, fatal_text(no).size(), fatal_mark(no));
      save_text(S->sink[k].fatal_text, sizeof S->sink[k].fatal_text, t);
      push_event(k, kFatal - no);
      return;
   }
   size_t e = text.find("<<E");
   if (e != string::npos) {
      int id = atoi(text.c_str() + e + 3);
      string w = entry_text(id);
      if (text.compare(e, w.size(), w) == 0) {
         push_event(k, text.find("LOGGER NOT INITIALIZED:\n\t\t" + w) != string::npos ? id + kPrefixed : id);
         return;
      }
   }
   if (text.find("Attempted to shut down logging") != string::npos) {
      push_event(k, kWarnNotActive);
      return;
   }
   save_text(S->sink[k].odd, sizeof S->sink[k].odd, text);
   push_event(k, kOdd);
}
struct SinkBase {
   int k;
   unsigned delay_us;
   ~SinkBase() { bump(S->sink[k].destroyed); }
   void poke() { bump(S->poked); }
   void slow() {
      if (delay_us == 0) return;
      if (sched::kActive) {
         // virtual time: costs nothing here and outlasts any time limit
         if (delay_us >= 50) std::this_thread::sleep_for(std::chrono::milliseconds(delay_us == 50 ? 700 : 20000));
         for (unsigned i = 0; i < delay_us % 4; ++i) std::this_thread::yield();
      } else
         std::this_thread::sleep_for(std::chrono::microseconds(delay_us));
   }
};
struct MsgSink : SinkBase {
   MsgSink(int i, unsigned d) : SinkBase{i, d} {}
   void recv(g3::LogMessageMover m) {
      slow();
      classify(k, m.get().message());
   }
};
struct StrSink : SinkBase {
   StrSink(int i, unsigned d) : SinkBase{i, d} {}
   void recv(string s) {
      slow();
      classify(k, s);
   }
};

// ---------------------------------------------------------------------------------------------------------- fatal events
enum Kind { K_LOG, K_LOGF, K_CUSTOM, K_LOG_IF, K_CHECK, K_CHECKF, K_CHECK_F, K_RAISE, K_NULL, K_DIV, K_ILL, K_ABORT, K_TERMINATE, K_KILL, K_N };
const char* kKind[] = {"LOG(FATAL)", "LOGF(FATAL)", "LOG(custom fatal)", "LOG_IF(FATAL)", "CHECK", "CHECKF", "CHECK_F", "raise", "null write", "division by zero", "illegal instruction", "abort", "terminate", "kill from outside"};
const int kSigs[] = {SIGABRT, SIGFPE, SIGILL, SIGSEGV, SIGTERM};
const int kOtherSigs[] = {SIGUSR1, SIGHUP, SIGINT, SIGQUIT, SIGBUS, SIGSYS, SIGXCPU, SIGTRAP, SIGALRM};
bool is_signal(Kind k) { return k >= K_RAISE; }
struct Event {
   Kind kind = K_LOG;
   int sig = SIGABRT;  // signal to raise, or that must result
   int custom = 0;
   int no = 0;
};
int signal_of(const Event& e) {
   switch (e.kind) {
   case K_RAISE: case K_KILL: return e.sig;
   case K_NULL: return SIGSEGV;
   case K_DIV: return SIGFPE;
   case K_ILL: return SIGILL;
   default: return SIGABRT;
   }
}
volatile int g_zero = 0;
int* volatile g_null = nullptr;
__attribute__((noinline)) void raise_event(const Event& e) {
   switch (e.kind) {
   case K_LOG: LOG(FATAL) << fatal_text(e.no); break;
   case K_LOGF: LOGF(FATAL, "%s", fatal_text(e.no).c_str()); break;
   case K_CUSTOM: {
      LEVELS lv{FATAL.value + e.custom, "MY_FATAL"};
      LOG(lv) << fatal_text(e.no);
      break;
   }
   case K_LOG_IF: LOG_IF(FATAL, e.no >= 0) << fatal_text(e.no); break;
   case K_CHECK: CHECK(e.no < 0) << fatal_text(e.no); break;
   case K_CHECKF: CHECKF(e.no < 0, "%s", fatal_text(e.no).c_str()); break;
   case K_CHECK_F: CHECK_F(e.no < 0, "%s", fatal_text(e.no).c_str()); break;
   case K_RAISE: raise(e.sig); break;
   case K_NULL: *g_null = 1; break;
   case K_DIV: {
      int lo = 1, hi = 0, by = g_zero;  // (a plain 1 / x need not trap)
      asm volatile("idivl %2" : "+a"(lo), "+d"(hi) : "r"(by) : "cc");
      break;
   }
   case K_ILL: __builtin_trap(); break;
   case K_ABORT: abort(); break;
   case K_TERMINATE: std::terminate(); break;
   default: break;
   }
}
Event gen_event(pbt::Source& s, bool signals = true) {
   Event e;
   int lim = signals ? int(K_N) : int(K_RAISE);
   e.kind = Kind(s.below(uint64_t(lim)));
   if (sched::kActive && (e.kind == K_KILL)) e.kind = K_RAISE;
   if (e.kind == K_RAISE) e.sig = kSigs[s.below(5)];
   if (e.kind == K_KILL) e.sig = SIGTERM;
   if (e.kind == K_CUSTOM) e.custom = s.chance(1, 5) ? int(s.below(2) * 999999) : int(1 + s.below(900));
   return e;
}
string show(const Event& e) {
   string r = kKind[e.kind];
   if (e.kind == K_RAISE) r += "(" + std::to_string(e.sig) + ")";
   if (e.kind == K_CUSTOM) r += "+" + std::to_string(e.custom);
   return r;
}

// ------------------------------------------------------------------------------------------------------------- children
string g_dir;
int g_case = 0;
struct End {
   bool hang = false, failed = false;
   int st = 0;
   string err;
   string text() const {
      if (hang) return "still running";
      if (WIFSIGNALED(st)) return "killed by signal " + std::to_string(WTERMSIG(st));
      return "exit status " + std::to_string(WEXITSTATUS(st));
   }
};
double mono() {
   timespec t;
   clock_gettime(CLOCK_MONOTONIC, &t);
   return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}
string slurp(const string& p) {
   std::ifstream f(p, std::ios::binary);
   std::stringstream ss;
   ss << f.rdbuf();
   return ss.str();
}
// kill_sig: sent from here once the child is ready
End run_child(pbt::Source& s, int kill_sig, const std::function<void()>& body) {
   memset((void*)S, 0, sizeof *S);
   string errf = g_dir + "/stderr";
   pid_t pid = fork();
   if (pid == 0) {
      for (int i = 1; i < 32; ++i)
         if (i != SIGKILL && i != SIGSTOP) signal(i, SIG_DFL);
      sigset_t none;
      sigemptyset(&none);
      sigprocmask(SIG_SETMASK, &none, nullptr);
      int fd = open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
      dup2(fd, 2);
      close(fd);
      sched::begin(s);
      body();
      sched::end();
      _exit(0);
   }
   End r;
   double t0 = mono();
   bool sent = false;
   useconds_t nap = 50;
   for (;;) {
      pid_t w = waitpid(pid, &r.st, WNOHANG);
      if (w == pid) break;
      if (kill_sig && !sent && S->ready) {
         kill(pid, kill_sig);
         sent = true;
      }
      usleep(nap);
      if (nap < 2000) nap += nap / 2;
      pbt::beat();
      if (mono() - t0 > (getenv("PBT_KNOWN") ? 8 : 25)) {
         kill(pid, SIGKILL);
         waitpid(pid, &r.st, 0);
         r.hang = true;
         break;
      }
   }
   if (pbt::shm->failed || pbt::shm->inconclusive) _exit(77);
   for (auto& q : S->sink) {
      uint32_t n = std::min<uint32_t>(q.n, kMaxEv), m = 0;
      for (uint32_t i = 0; i < n; ++i)
         if (q.ev[i]) q.ev[m++] = q.ev[i] - kWritten;
      q.n = m;
   }
   r.err = slurp(errf);
   return r;
}

// the program's own signal handler
int g_own_variant, g_own_other;
NOTS void own_handler(int sig) {
   bump(S->own_handler_runs);
   set(S->own_handler_sig, uint32_t(sig));
   if (g_own_variant == 0) _exit(42);
   if (g_own_variant == 1) {
      signal(sig, SIG_DFL);
      sigset_t m;
      sigemptyset(&m);
      sigaddset(&m, sig);
      pthread_sigmask(SIG_UNBLOCK, &m, nullptr);
      raise(sig);
   }
   if (g_own_variant == 3) {
      sigset_t m;
      sigemptyset(&m);
      sigaddset(&m, g_own_other);
      pthread_sigmask(SIG_UNBLOCK, &m, nullptr);
      raise(g_own_other);
   }
   // variant 2: returns
}
NOTS void own_action(int sig, siginfo_t*, void*) { own_handler(sig); }

struct SinkPlan {
   int type;  // 0 message, 1 string, 2 file
   unsigned delay;
   size_t interval;
};
vector<SinkPlan> gen_sinks(pbt::Source& s, size_t lo, size_t hi, bool files) {
   vector<SinkPlan> v;
   size_t n = lo + s.below(hi - lo + 1);
   int nf = 0;
   for (size_t i = 0; i < n; ++i) {
      SinkPlan p;
      p.type = int(s.below(files && nf < 3 ? 3 : 2));
      nf += p.type == 2;
      static const unsigned d[] = {0, 0, 0, 1, 50, 500};
      p.delay = d[s.below(6)];
      static const size_t iv[] = {1, 100, 2, 7, 1000};
      p.interval = iv[s.below(5)];
      v.push_back(p);
   }
   return v;
}
string show(const vector<SinkPlan>& v) {
   string r;
   for (auto& p : v) r += p.type == 0 ? " msg" : p.type == 1 ? " str" : " file/" + std::to_string(p.interval), r += p.delay ? "(slow " + std::to_string(p.delay) + ")" : "";
   return r.empty() ? " none" : r;
}
vector<std::function<void()>> g_pokes;  // a handle call for each sink that is not a file
template <class T>
void keep(std::unique_ptr<g3::SinkHandle<T>> h) {
   std::shared_ptr<g3::SinkHandle<T>> x = std::move(h);
   g_pokes.push_back([x] { x->call(&T::poke); });
}
void add_sinks(g3::LogWorker& w, const vector<SinkPlan>& v, size_t from, size_t to, int base = 0) {
   for (size_t i = from; i < to; ++i) {
      int k = base + int(i);
      if (v[i].type == 0) keep(w.addSink(std::make_unique<MsgSink>(k, v[i].delay), &MsgSink::recv));
      else if (v[i].type == 1) keep(w.addSink(std::make_unique<StrSink>(k, v[i].delay), &StrSink::recv));
      else {
         auto h = w.addSink(std::make_unique<g3::FileSink>("f" + std::to_string(k), g_dir, "id", v[i].interval), &g3::FileSink::fileWrite);
         string n = h->call(&g3::FileSink::fileName).get();
         uint32_t j = S->nfiles++;
         snprintf(S->file_name[j], 512, "%d %s", k, n.c_str());
      }
   }
}
void log_one(int id) {
   string t = entry_text(id);
   switch (id % 4) {
   case 0: LOG(INFO) << t; break;
   case 1: LOGF(WARNING, "%s", t.c_str()); break;
   case 2: LOG_IF(G3LOG_DEBUG, true) << t; break;
   default: LOGF_IF(INFO, true, "%s", t.c_str());
   }
}
void log_batch(int thread, int from, int to, unsigned pause_us) {
   for (int i = from; i < to; ++i) {
      log_one(thread * 1000 + i);
      bump(S->returned[thread]);
      if (pause_us) {
         if (sched::kActive) std::this_thread::yield();
         else std::this_thread::sleep_for(std::chrono::microseconds(pause_us));
      }
   }
}
void need_prompt_end(const End& r, const char* what) { PBT_ASSERT(!r.hang, "%s: the process hangs", what); }

// one sink's record: due entries present once, per-thread order, fatal once and last
void check_sink(int k, const char* what, bool want_fatal, bool called = false) {
   auto& q = S->sink[k];
   PBT_ASSERT(q.odd[0] == 0, "sink %d received something nobody logged: %s", k, pbt::show(q.odd).c_str());
   vector<int> seen(kMaxThreads * 1000);
   int last[kMaxThreads];
   for (int& l : last) l = -1;
   uint32_t n = std::min<uint32_t>(q.n, kMaxEv);
   int fatals = 0;
   for (uint32_t i = 0; i < n; ++i) {
      int c = q.ev[i];
      if (c <= kFatal) {
         ++fatals;
         PBT_ASSERT(i + 1 == n || q.ev[i + 1] <= kFatal, "%s: sink %d received %u entries after the fatal entry", what, k, n - i - 1);
         continue;
      }
      if (c < 0) continue;
      PBT_ASSERT(c < kMaxThreads * 1000, "sink %d: unexpected entry code %d", k, c);
      PBT_ASSERT(!seen[size_t(c)]++, "%s: sink %d received entry %d twice", what, k, c);
      int t = c / 1000, m = c % 1000;
      PBT_ASSERT(m > last[t], "%s: sink %d received entry %d after entry %d of the same thread", what, k, c, t * 1000 + last[t]);
      last[t] = m;
   }
   for (int t = 0; t < kMaxThreads; ++t)
      for (uint32_t i = 0; i < S->due[t]; ++i)
         PBT_ASSERT(seen[size_t(t) * 1000 + i], "%s: entry %d of thread %d was logged before the fatal event but never reached sink %d (%u received)", what, int(i), t, k, n);
   if (want_fatal) PBT_ASSERT(fatals == 1, "%s: sink %d received %d fatal entries instead of one", what, k, fatals);
   // (a handle call in progress holds on to its sink)
   PBT_ASSERT(q.destroyed == 1 || (called && q.destroyed == 0), "%s: sink %d was destroyed %u times before the process died", what, k, unsigned(q.destroyed));
}
/// what the library calls the cause of a fatal event
string cause_of(int sig) {
   static const std::map<int, string> names = {{SIGABRT, "SIGABRT"}, {SIGFPE, "SIGFPE"}, {SIGILL, "SIGILL"}, {SIGSEGV, "SIGSEGV"}, {SIGTERM, "SIGTERM"}};
   auto it = names.find(sig);
   return it != names.end() ? it->second : "UNKNOWN SIGNAL(" + std::to_string(sig) + ")";
}
/// the line "Exiting after fatal event ... Fatal type: <cause>" that the last entry ends with
bool names_cause(const string& t, int sig) {
   size_t p = t.rfind("Fatal type:");
   if (p == string::npos) return false;
   p = t.find_first_not_of(' ', p + 11);
   return p != string::npos && t.compare(p, cause_of(sig).size(), cause_of(sig)) == 0;
}
void check_file(const char* entry, const char* what, const Event& e, bool fatal_marker) {
   string path = strchr(entry, ' ') + 1;
   string c = slurp(path);
   size_t fpos = is_signal(e.kind) ? c.find("Received fatal signal") : c.find(fatal_text(e.no));
   PBT_ASSERT(!fatal_marker || fpos != string::npos, "%s: the log file has no fatal entry (%zu bytes)", what, c.size());
   for (int t = 0; t < kMaxThreads; ++t)
      for (uint32_t i = 0; i < S->due[t]; ++i) {
         string w = entry_text(t * 1000 + int(i));
         size_t p = c.find(w);
         PBT_ASSERT(p != string::npos, "%s: entry %d of thread %d was logged before the fatal event but is not in the log file (%zu bytes)", what, int(i), t, c.size());
         PBT_ASSERT(!fatal_marker || p < fpos, "%s: entry %d of thread %d is in the file after the fatal entry", what, int(i), t);
         PBT_ASSERT(c.find(w, p + 1) == string::npos, "%s: entry %d of thread %d is twice in the log file", what, int(i), t);
      }
   PBT_ASSERT(c.find("g3log g3FileSink shutdown at:") != string::npos && c.back() == '\n', "%s: the log file was not closed before the process died", what);
}
}  // namespace

void pbt_init() {
   S = reinterpret_cast<Shm*>(pbt::shm->user);
   g_dir = string(pbt::scratch()) + "/w" + std::to_string(getpid());
   mkdir(g_dir.c_str(), 0755);
   if (chdir(g_dir.c_str())) {}
}
static void clean_files() {
   std::error_code ec;
   for (auto& d : std::filesystem::directory_iterator(g_dir, ec)) std::filesystem::remove(d.path(), ec);
}

#if PROP == 10
// ------------------------------------------------------------------------------------------------------------------- P10
// Tens of thousands of entries are pending at stuck sinks when the event happens.
struct BulkSink {
   int k;
   std::atomic<int>* gate;
   BulkSink(int i, std::atomic<int>* g) : k(i), gate(g) {}
   ~BulkSink() { bump(S->bulk_gone[k]); }
   void recv(g3::LogMessageMover m) {
      while (!gate->load()) usleep(500);
      string t = m.get().message();
      if (t.find("<<F") != string::npos || m.get().wasFatal()) {
         bump(S->bulk_fatal[k]);
         return;
      }
      if (S->bulk_fatal[k]) bump(S->bulk_after[k]);
      int th = -1;
      unsigned i = 0;
      if (sscanf(t.c_str(), "B%d.%u", &th, &i) != 2 || th < 0 || th > 1 || i != S->bulk_next[k][th]) save_text(S->bulk_bad, sizeof S->bulk_bad, "sink " + std::to_string(k) + ": " + t);
      else S->bulk_next[k][th] = i + 1;
   }
};
static void bulk(pbt::Source& s) {
   int nsinks = 1 + int(s.below(2)), nt = 1 + int(s.below(2)), per = 1000 + int(s.below(90000 / nt));
   bool with_file = s.boolean(), open_first = s.chance(1, 3), on_main = s.boolean();
   size_t interval = s.boolean() ? 100 : 5000;
   Event e = gen_event(s);
   if (e.kind == K_KILL) e.kind = K_RAISE;
   if (e.kind == K_RAISE && !e.sig) e.sig = SIGTERM;
   pbt::describe("%d stuck sinks%s, %d threads x %d entries pending; event: %s", nsinks, with_file ? " and a file" : "", nt, per, show(e).c_str());
   static std::atomic<int> gate{0};
   End r = run_child(s, 0, [&] {
      auto worker = g3::LogWorker::createLogWorker();
      for (int k = 0; k < nsinks; ++k) worker->addSink(std::make_unique<BulkSink>(k, &gate), &BulkSink::recv);
      if (with_file) add_sinks(*worker, {{2, 0, interval}}, 0, 1);
      g3::initializeLogging(worker.get());
      auto go = [&](int t) {
         for (int i = 0; i < per; ++i) LOG(INFO) << 'B' << t << '.' << i << ".";
      };
      vector<std::thread> th;
      for (int t = 1; t < nt; ++t) th.emplace_back(go, t);
      go(0);
      for (auto& t : th) t.join();
      if (open_first) gate = 1;
      std::thread opener([&] {
         while (!S->event_raised) usleep(200);
         usleep(3000);
         gate = 1;
      });
      opener.detach();
      auto fire = [&] {
         set(S->event_raised, 1);
         raise_event(e);
         bump(S->event_returned);
      };
      if (on_main) fire();
      else std::thread(fire).join();
   });
   string what = show(e);
   need_prompt_end(r, what.c_str());
   PBT_ASSERT(S->event_raised && !S->event_returned, "%s: raised %u, returned to the caller %u: %s", what.c_str(), unsigned(S->event_raised), unsigned(S->event_returned), r.text().c_str());
   PBT_ASSERT(!S->bulk_bad[0], "%s: lost, repeated, reordered or altered: %s", what.c_str(), S->bulk_bad);
   for (int k = 0; k < nsinks; ++k) {
      for (int t = 0; t < nt; ++t) PBT_ASSERT(S->bulk_next[k][t] == unsigned(per), "%s: sink %d received %u of %d entries of thread %d logged before the event", what.c_str(), k, unsigned(S->bulk_next[k][t]), per, t);
      PBT_ASSERT(S->bulk_fatal[k] == 1 && S->bulk_after[k] == 0, "%s: sink %d received %u fatal entries, %u others after it", what.c_str(), k, unsigned(S->bulk_fatal[k]), unsigned(S->bulk_after[k]));
      PBT_ASSERT(S->bulk_gone[k] == 1, "%s: sink %d was destroyed %u times before the process died", what.c_str(), k, unsigned(S->bulk_gone[k]));
   }
   if (with_file) {
      string c = slurp(strchr(S->file_name[0], ' ') + 1);
      size_t fpos = is_signal(e.kind) ? c.find("Received fatal signal") : c.find(fatal_text(e.no));
      PBT_ASSERT(fpos != string::npos, "%s: the log file has no fatal entry (%zu bytes)", what.c_str(), c.size());
      size_t pos[2] = {0, 0};
      for (int t = 0; t < nt; ++t)
         for (int i = 0; i < per; ++i) {
            string w = "]\tB" + std::to_string(t) + "." + std::to_string(i) + ".\n";
            size_t p = c.find(w, pos[t]);
            PBT_ASSERT(p != string::npos && p < fpos, "%s: entry %d of thread %d is not in the log file before the fatal entry", what.c_str(), i, t);
            pos[t] = p + 1;
         }
      PBT_ASSERT(c.find("g3log g3FileSink shutdown at:", fpos) != string::npos, "%s: the log file was not closed before the process died", what.c_str());
   }
   pbt::nontrivial();
   pbt::label("histories with more than 1000 entries pending");
   clean_files();
}

void pbt_case(pbt::Source& s) {
   const char* known = getenv("PBT_KNOWN");
   if (!known && !sched::kActive && s.chance(1, 60)) {
      bulk(s);
      return;
   }
   bool many = s.chance(1, 16);
   auto sinks = gen_sinks(s, many ? 5 : 1, many ? kMaxSinks : 4, !sched::kActive);
   size_t late = s.chance(1, 4) ? 1 : 0;
   int nt = int(1 + s.below(3));
   Event e = gen_event(s);
   if (s.chance(1, 12) && e.kind != K_LOGF && e.kind != K_CHECKF && e.kind != K_CHECK_F) e.no = int(900 + s.below(200));  // up to 300 KB of message
   int per = int(s.size(sched::kActive ? 5 : 60)), noise = s.boolean() ? int(s.below(sched::kActive ? 5 : 80)) : 0;
   unsigned pause = s.boolean() ? unsigned(s.below(40)) : 0;
   bool on_main = s.boolean() || e.kind == K_KILL;
   // two threads receive a handled signal: the second one has to wait for the death of the process (a LOG(FATAL) as one of
   // the two is the known finding "second-fatal")
   bool twin = !known && is_signal(e.kind) && e.kind != K_KILL && s.chance(1, 4);
   Event e2;
   if (twin) {
      e2.kind = Kind(K_RAISE + s.below(K_KILL - K_RAISE));
      e2.sig = kSigs[s.below(5)];
   }
   // threads that call the sinks through their handles meanwhile
   int callers = !known && s.chance(1, 3) ? int(1 + s.below(2)) : 0, ncalls = 0;
   if (callers) ncalls = sched::kActive ? int(1 + s.below(12)) : int(20 + s.below(3000));
   bool second = known && !strcmp(known, "second-fatal");
   if (second) {  // a second thread fails while the first event is being flushed
      sinks = {{0, 2000, 1}};
      late = 0;
      per = 50;
      noise = 0;
   }
   bool ignoring = known && !strcmp(known, "returns-while-exiting");
   if (ignoring) {  // the signal is ignored, so that g3log ends the process by exit() on its worker's thread; an atexit function takes 3 s
      e = Event();
      sinks = {{0, 0, 1}};
      late = 0;
      per = 5, noise = 0;
   }
   pbt::describe("sinks:%s%s; %d threads x %d entries, %d more concurrent; %d x %d handle calls; event: %s on %s%s%s\n", show(sinks).c_str(), late ? " (last one added late)" : "", nt, per, noise, callers, ncalls, show(e).c_str(), on_main ? "the main thread" : "another thread", twin ? ", and on one more thread: " : "", twin ? show(e2).c_str() : "");
   End r = run_child(s, e.kind == K_KILL ? SIGTERM : 0, [&] {
      // a signal sent to the process is to be taken by the main thread (see DESIGN.md: not by one of g3log's own threads)
      sigset_t m;
      sigemptyset(&m);
      sigaddset(&m, SIGTERM);
      if (e.kind == K_KILL) pthread_sigmask(SIG_BLOCK, &m, nullptr);
      if (ignoring) {
         signal(SIGABRT, SIG_IGN);
         atexit([] { ::sleep(3); });
      }
      auto worker = g3::LogWorker::createLogWorker();
      add_sinks(*worker, sinks, 0, sinks.size() - late);
      g3::initializeLogging(worker.get());
      if (late) add_sinks(*worker, sinks, sinks.size() - late, sinks.size());
      // everything joined here happened before the event; the noise goes on concurrently
      vector<std::thread> th, noisy;
      std::thread fatal_thread;
      for (int t = 1; t < nt; ++t) th.emplace_back([&, t] { log_batch(t, 0, per, pause); });
      log_batch(0, 0, per, 0);
      for (auto& t : th) t.join();
      auto rest = [&](int t) { log_batch(t, per, per + noise, pause); };
      auto fire = [&] {
         snapshot_due();
         if (e.kind == K_KILL) {
            pthread_sigmask(SIG_UNBLOCK, &m, nullptr);
            set(S->ready, 1);
            for (;;) ::pause();
         }
         raise_event(e);
         bump(S->event_returned);
      };
      if (noise)
         for (int t = 1; t < nt; ++t) noisy.emplace_back([&, t] { rest(t); });
      for (int t = 0; t < callers && !g_pokes.empty(); ++t) noisy.emplace_back([&, t] {
         for (int i = 0; i < ncalls; ++i) {
            g_pokes[size_t(i + t) % g_pokes.size()]();
            if (i % 4 == t) std::this_thread::yield();
         }
      });
      if (twin) noisy.emplace_back([&] {
         while (!get(S->event_raised)) std::this_thread::yield();
         raise_event(e2);
         bump(S->event_returned);
      });
      if (second) noisy.emplace_back([] {
         while (!get(S->event_raised)) std::this_thread::yield();
         std::this_thread::sleep_for(std::chrono::milliseconds(5));
         Event f;
         f.no = 1;
         raise_event(f);
      });
      if (on_main) fire();
      else {
         std::thread f(fire);
         f.join();
      }
      for (auto& t : noisy) t.join();
   });
   string what = show(e);
   need_prompt_end(r, what.c_str());
   PBT_ASSERT(S->event_raised, "%s: the process ended before the event (%s): %s", what.c_str(), r.text().c_str(), pbt::show(r.err, 400).c_str());
   PBT_ASSERT(S->event_returned == 0, "%s: the call that raised the fatal event returned to its caller", what.c_str());
   for (size_t k = 0; k < sinks.size(); ++k) {
      if (sinks[k].type == 2) continue;
      check_sink(int(k), what.c_str(), true, callers > 0);
      string ft = S->sink[k].fatal_text;
      if (is_signal(e.kind)) {
         static const std::map<int, string> names = {{SIGABRT, "SIGABRT"}, {SIGFPE, "SIGFPE"}, {SIGILL, "SIGILL"}, {SIGSEGV, "SIGSEGV"}, {SIGTERM, "SIGTERM"}};
         string nm = names.at(signal_of(e));
         PBT_ASSERT(ft.find(nm) != string::npos || (twin && ft.find(names.at(signal_of(e2))) != string::npos), "%s: the fatal entry does not name the signal %s: %s", what.c_str(), nm.c_str(), pbt::show(ft, 400).c_str());
      } else
         PBT_ASSERT(ft.find(fatal_mark(e.no)) != string::npos, "%s: the fatal entry lost its message: %s", what.c_str(), pbt::show(ft, 400).c_str());
      PBT_ASSERT(names_cause(ft, signal_of(e)) || (twin && names_cause(ft, signal_of(e2))), "%s: the fatal entry does not end by naming the cause, signal %d: %s", what.c_str(), signal_of(e), pbt::show(ft, 600).c_str());
      PBT_ASSERT(ft.find("stack dump [1]") != string::npos, "%s: the fatal entry has no stack dump: %s", what.c_str(), pbt::show(ft, 400).c_str());
   }
   for (uint32_t i = 0; i < S->nfiles; ++i) check_file(S->file_name[i], what.c_str(), e, true);
   if (per && !sinks.empty()) pbt::nontrivial();
   pbt::label(kKind[e.kind]);
   if (noise && nt > 1) pbt::label("with concurrent logging");
   if (S->nfiles) pbt::label("with a file sink");
   if (twin) pbt::label("signals on two threads");
   if (callers) pbt::label("with concurrent handle calls");
   clean_files();
}

#elif PROP == 11
// ------------------------------------------------------------------------------------------------------------------- P11
static std::unique_ptr<g3::LogWorker>& static_worker() {
   static std::unique_ptr<g3::LogWorker> w;
   return w;
}
void pbt_case(pbt::Source& s) {
   static const char* setups[] = {"initialized with sinks", "no worker, crash handler installed", "worker gone", "no sinks", "crash handler installed twice", "nothing installed (only non-signal events)"};
   unsigned setup = unsigned(s.below(6));
   Event e = gen_event(s, setup != 5);
   // the set of handled signals
   int set_kind = int(s.below(4));  // 0 default, 1 subset/other set, 2 other set then default again, 3 restore one
   if (setup == 5) set_kind = 0;
   std::map<int, string> over;
   if (set_kind == 1 || set_kind == 2) {
      for (int x : kSigs)
         if (s.boolean()) over[x] = "s" + std::to_string(x);
      for (int x : kOtherSigs)
         if (s.chance(1, 4)) over[x] = "s" + std::to_string(x);
   }
   int restore_one = set_kind == 3 ? kSigs[s.below(5)] : 0;
   if (e.kind == K_RAISE && s.chance(1, 3)) e.sig = kOtherSigs[s.below(9)];
   int sig = signal_of(e);
   auto handled = [&](int x) {
      if (setup == 5) return false;
      if (set_kind == 1) return over.count(x) > 0;
      if (x == restore_one) return false;
      for (int k : kSigs)
         if (k == x) return true;
      return false;
   };
   // the program's own disposition of the signal that will end it
   int own = int(s.below(5));  // 0,1 none; 2 handler; 3 SA_SIGINFO handler with mask; 4 ignored
   int variant = int(s.below(4));
   int other = kSigs[s.below(5)];  // variant 3: the program's own handler ends the process by another signal, one g3log handled as well
   bool raised = !is_signal(e.kind) || handled(sig);
   if (variant == 3 && (!raised || other == sig)) variant = 1;
   if (own < 2) own = 0;
   if ((e.kind == K_ABORT || e.kind == K_TERMINATE || e.kind == K_NULL || e.kind == K_DIV || e.kind == K_ILL) && variant == 2) variant = 0;
   if (e.kind == K_NULL || e.kind == K_DIV || e.kind == K_ILL)
      if (own == 4) own = 0;
   if ((e.kind == K_ABORT || e.kind == K_TERMINATE) && own == 4) own = 0;
   bool block = s.chance(1, 5) && setup != 1 && setup != 5 && e.kind != K_KILL;  // blocked while g3log creates its threads
   bool static_w = s.chance(1, 4);
   const char* known = getenv("PBT_KNOWN");
   // Known finding: with a worker of static storage, a disposition that survives the signal leaves the process running.
   if (known && !strcmp(known, "static-worker-survives")) static_w = true, own = 4;
   else if (static_w && (own == 4 || (own && variant == 2))) static_w = false;
   bool on_main = s.boolean() || e.kind == K_KILL;
   // not handled by g3log and ignored or handled by a returning handler: the process rightly survives a raise
   bool survives_ok = is_signal(e.kind) && !handled(sig) && (own == 4 || (own >= 2 && variant == 2));
   if (e.kind == K_KILL && survives_ok) {
      e.kind = K_RAISE;
   }
   if (e.kind == K_RAISE && !handled(sig) && own == 0 && false) return;
   bool exits = raised && (own == 4 || (own && variant == 2));
   string st = setups[setup];
   static const char* sets[] = {"default set", "overridden set", "overridden set, then default again", "one signal restored"};
   static const char* owns[] = {"none", "none", "handler", "SA_SIGINFO handler", "ignored"};
   static const char* vars[] = {"exits 42", "dies by the signal", "returns", "raises another signal"};
   pbt::describe("%s%s; %s", st.c_str(), static_w ? " (static worker)" : "", sets[set_kind]);
   for (auto& o : over) pbt::describe(" %d", o.first);
   if (restore_one) pbt::describe(" %d", restore_one);
   pbt::describe("; own disposition of %d: %s%s%s; %s; event %s\n", sig, owns[own], own == 2 || own == 3 ? " that " : "", own == 2 || own == 3 ? vars[variant] : "", block ? "signal blocked while the worker was created" : "not blocked", show(e).c_str());

   bool on_sink_thread = known && !strcmp(known, "fatal-on-sink-thread");
   End r = run_child(s, e.kind == K_KILL ? e.sig : 0, [&] {
      if (on_sink_thread) {
         struct Fails {
            void recv(g3::LogMessageMover) {
               set(S->event_raised, 1);
               LOG(FATAL) << "raised by a receiver";
            }
         };
         auto worker = g3::LogWorker::createLogWorker();
         worker->addSink(std::make_unique<Fails>(), &Fails::recv);
         g3::initializeLogging(worker.get());
         LOG(INFO) << "x";
         for (;;) ::pause();
      }
      g_own_variant = variant;
      g_own_other = other;
      if (own) {
         struct sigaction a;
         memset(&a, 0, sizeof a);
         if (own == 4) a.sa_handler = SIG_IGN;
         else if (own == 2) a.sa_handler = own_handler;
         else {
            a.sa_sigaction = own_action;
            a.sa_flags = SA_SIGINFO;
            sigaddset(&a.sa_mask, SIGUSR2);
         }
         sigaction(sig, &a, nullptr);
      }
      sigset_t m;
      sigemptyset(&m);
      sigaddset(&m, sig);
      // (a signal sent to the process is to be taken by the main thread, see DESIGN.md)
      if (block || e.kind == K_KILL) pthread_sigmask(SIG_BLOCK, &m, nullptr);
      std::unique_ptr<g3::LogWorker> local;
      auto& worker = static_w ? static_worker() : local;
      if (setup == 0 || setup == 2 || setup == 3 || setup == 4) {
         if (setup == 4) g3::installCrashHandler();
         worker = g3::LogWorker::createLogWorker();
         if (setup != 3) add_sinks(*worker, {{0, 0, 1}, {1, 50, 1}}, 0, 2);
         g3::initializeLogging(worker.get());
         if (setup == 4) g3::installCrashHandler();
      }
      if (setup == 1) g3::installCrashHandler();
      if (set_kind == 1 || set_kind == 2) g3::overrideSetupSignals(over);
      if (set_kind == 2) g3::internal::restoreFatalHandlingToDefault();
      if (set_kind == 3) g3::restoreSignalHandler(restore_one);
      if (block) pthread_sigmask(SIG_UNBLOCK, &m, nullptr);
      if (setup != 1 && setup != 5) {
         for (int i = 0; i < 5; ++i) {
            log_one(i);
            bump(S->returned[0]);
         }
      }
      if (setup == 2) worker.reset();
      auto fire = [&] {
         snapshot_due();
         if (e.kind == K_KILL) {
            pthread_sigmask(SIG_UNBLOCK, &m, nullptr);
            set(S->ready, 1);
            for (;;) ::pause();
         }
         raise_event(e);
         bump(S->event_returned);
         // A disposition that survives the signal: g3log lets the caller go and calls exit() on its worker (see P10's known finding).
         if (exits) ::sleep(5);
      };
      if (on_main) fire();
      else {
         std::thread t(fire);
         t.join();
      }
      _exit(90);  // survived
   });
   string what = show(e) + " (" + st + ")";
   need_prompt_end(r, what.c_str());
   PBT_ASSERT(S->event_raised, "%s: the process ended before the event (%s): %s", what.c_str(), r.text().c_str(), pbt::show(r.err, 400).c_str());
   bool fatal_raised = !is_signal(e.kind) || handled(sig);
   bool has_own = own == 2 || own == 3;
   if (survives_ok) {
      PBT_ASSERT(WIFEXITED(r.st) && WEXITSTATUS(r.st) == 90, "%s: signal %d is not handled by g3log, the program's own disposition (%s) should have let it survive, but: %s", what.c_str(), sig, owns[own], r.text().c_str());
      if (has_own) PBT_ASSERT(S->own_handler_runs == 1, "%s: the program's own handler ran %u times", what.c_str(), unsigned(S->own_handler_runs));
      for (int k = 0; k < 2; ++k) PBT_ASSERT(S->sink[k].fatal_text[0] == 0, "%s: signal %d outside the handled set was logged as fatal", what.c_str(), sig);
   } else {
      PBT_ASSERT(!(WIFEXITED(r.st) && WEXITSTATUS(r.st) == 90) && (S->event_returned == 0 || exits), "%s: the process survived the event", what.c_str());
      if (has_own) {
         PBT_ASSERT(S->own_handler_runs == 1 && S->own_handler_sig == uint32_t(sig), "%s: the program's own handler for signal %d ran %u times (%s)", what.c_str(), sig, unsigned(S->own_handler_runs), r.text().c_str());
         if (variant == 0) PBT_ASSERT(WIFEXITED(r.st) && WEXITSTATUS(r.st) == 42, "%s: the program's own handler exits with 42, but: %s", what.c_str(), r.text().c_str());
         if (variant == 1) PBT_ASSERT(WIFSIGNALED(r.st) && WTERMSIG(r.st) == sig, "%s: should have died by signal %d, but: %s", what.c_str(), sig, r.text().c_str());
         if (variant == 3) PBT_ASSERT(WIFSIGNALED(r.st) && WTERMSIG(r.st) == other, "%s: the program's own handler raises signal %d, whose disposition was the default, but: %s", what.c_str(), other, r.text().c_str());
         if (variant == 3) pbt::label("own handler that raises another signal");
      } else if (own == 4) {
         // an ignored signal cannot kill; it only has to end
      } else
         PBT_ASSERT(WIFSIGNALED(r.st) && WTERMSIG(r.st) == sig, "%s: should have died by signal %d, but: %s", what.c_str(), sig, r.text().c_str());
      if (fatal_raised && (setup == 0 || setup == 4))
         for (int k = 0; k < 2; ++k) check_sink(k, what.c_str(), true);
      if (!fatal_raised)
         for (int k = 0; k < 2; ++k) PBT_ASSERT(S->sink[k].fatal_text[0] == 0, "%s: signal %d outside the handled set was logged as fatal", what.c_str(), sig);
   }
   if (fatal_raised)
      PBT_ASSERT(r.err.find(is_signal(e.kind) ? "atal signal" : fatal_text(e.no)) != string::npos && (!is_signal(e.kind) || r.err.find(std::to_string(sig)) != string::npos), "%s: the fatal entry is not reported on stderr: %s", what.c_str(), pbt::show(r.err, 400).c_str());
   if (fatal_raised)
      PBT_ASSERT(names_cause(r.err, sig) || r.err.find("CAUSE: " + cause_of(sig)) != string::npos, "%s: the report on stderr does not name the cause (signal %d): %s", what.c_str(), sig, pbt::show(r.err, 400).c_str());
   if (setup || set_kind || own || block) pbt::nontrivial();
   pbt::label(setups[setup]);
   if (own) pbt::label("with an own disposition");
   if (set_kind) pbt::label(sets[set_kind]);
   if (!handled(sig) && is_signal(e.kind)) pbt::label("signal outside the set");
   clean_files();
}

#elif PROP == 13
// ------------------------------------------------------------------------------------------------------------------- P13
static std::atomic<unsigned long> g_fatal_tid;
NOTS static void hook_seen(bool other) {
   bump(other ? S->hook_other_runs : S->hook_runs);
   if (!other && g_fatal_tid.load() == (unsigned long)pthread_self()) bump(S->hook_tid_ok);
   if (!other)
      for (int k = 0; k < 2; ++k)
         if (S->sink[k].fatal_text[0]) bump(S->hook_after_fatal);
}
static void hooks(pbt::Source& s) {
   Event e = gen_event(s);
   if (e.kind == K_KILL) e.kind = K_RAISE;
   int action = int(s.below(6));  // 0,1 record; 2 logs an entry; 3 LOG(FATAL); 4 failed CHECK; 5 signal
   if (e.kind == K_RAISE && false) return;
   int hook_sig = kSigs[s.below(5)];
   bool hook_fault = s.boolean();
   // A signal raised in the hook of an event that itself is a signal is outside the domain (see DESIGN.md).
   if (action == 5 && is_signal(e.kind)) action = 4;
   bool reinit = s.chance(1, 4), reset_to_nothing = s.chance(1, 6), replaced = s.chance(1, 3), from_thread = s.chance(1, 3), on_main = s.boolean();
   bool none = reinit || reset_to_nothing;
   int earlier = s.chance(1, 4) ? int(1 + s.below(3)) : 0;  // fatal events taken by a custom handler before logging was initialized anew
   auto sinks = gen_sinks(s, 2, 3, false);
   int per = int(s.size(10));
   static const char* acts[] = {"records", "records", "logs an entry", "raises LOG(FATAL)", "fails a CHECK", "raises a signal"};
   pbt::describe("hook that %s%s%s%s%s; sinks:%s; %d entries; event %s on %s\n", acts[action], replaced ? ", replacing another one" : "", from_thread ? ", set from another thread" : "", reinit ? ", then logging re-initialized" : "", reset_to_nothing ? ", then set to do nothing" : "", show(sinks).c_str(), per, show(e).c_str(), on_main ? "main" : "a thread");
   if (earlier) pbt::describe("   after %d fatal events taken by a custom exit handler in an earlier worker's life\n", earlier);
   End r = run_child(s, 0, [&] {
      if (earlier) {
         auto before = g3::LogWorker::createLogWorker();
         g3::initializeLogging(before.get());
         g3::setFatalExitHandler([](g3::FatalMessagePtr) {});
         for (int i = 0; i < earlier; ++i) {
            Event x;
            x.kind = i % 2 ? K_CHECK : K_LOG;
            raise_event(x);
         }
         g3::setFatalExitHandler(g3::internal::pushFatalMessageToLogger);
      }
      auto worker = g3::LogWorker::createLogWorker();
      add_sinks(*worker, sinks, 0, sinks.size());
      if (s.chance(1, 4)) g3::setFatalPreLoggingHook([] { hook_seen(true); });  // initializeLogging resets it
      if (reinit) {
         auto first = g3::LogWorker::createLogWorker();
         g3::initializeLogging(first.get());
      } else
         g3::initializeLogging(worker.get());
      if (reinit) {
         // (the first worker above is destroyed at the end of its scope)
      }
      auto hook = [action, hook_sig, hook_fault] {
         hook_seen(false);
         Event n;
         n.no = 7;
         if (action == 2) {
            log_one(3 * 1000);
            bump(S->returned[3]);
            S->due[3] = 1;
         }
         if (action == 3) raise_event(n);
         if (action == 4) {
            n.kind = K_CHECK;
            raise_event(n);
         }
         if (action == 5) {
            n.kind = hook_fault ? (hook_sig == SIGFPE ? K_DIV : hook_sig == SIGILL ? K_ILL : hook_sig == SIGABRT ? K_ABORT : K_NULL) : K_RAISE;
            n.sig = hook_sig;
            raise_event(n);
         }
      };
      auto install = [&] {
         if (replaced) g3::setFatalPreLoggingHook([] { hook_seen(true); });
         g3::setFatalPreLoggingHook(hook);
         if (reset_to_nothing) g3::setFatalPreLoggingHook([] {});
      };
      if (from_thread) std::thread(install).join();
      else install();
      if (reinit) g3::initializeLogging(worker.get());
      log_batch(0, 0, per, 0);
      auto fire = [&] {
         g_fatal_tid = (unsigned long)pthread_self();
         snapshot_due();
         raise_event(e);
         bump(S->event_returned);
      };
      if (on_main) fire();
      else std::thread(fire).join();
      _exit(90);
   });
   string what = string("hook that ") + acts[action] + ", event " + show(e);
   need_prompt_end(r, what.c_str());
   PBT_ASSERT(S->event_raised, "the process ended before the event (%s): %s", r.text().c_str(), pbt::show(r.err, 400).c_str());
   PBT_ASSERT(S->event_returned == 0 && !(WIFEXITED(r.st) && WEXITSTATUS(r.st) == 90), "%s: the call returned", what.c_str());
   PBT_ASSERT(S->hook_other_runs == 0, "%s: a hook that had been replaced or reset was run", what.c_str());
   PBT_ASSERT(S->hook_runs == (none ? 0u : 1u), "%s: the hook ran %u times, expected %d", what.c_str(), unsigned(S->hook_runs), none ? 0 : 1);
   bool recursive = !none && action >= 3;
   if (!none) {
      PBT_ASSERT(S->hook_tid_ok == 1, "%s: the hook did not run on the thread that raised the event", what.c_str());
      PBT_ASSERT(S->hook_after_fatal == 0, "%s: the hook ran after the fatal entry was handed over", what.c_str());
   }
   for (size_t k = 0; k < sinks.size(); ++k) {
      check_sink(int(k), what.c_str(), !recursive);
      string ft = S->sink[k].fatal_text;
      bool warned = ft.find("recursive crash") != string::npos;
      if (recursive) {
         PBT_ASSERT(!ft.empty(), "%s: no fatal entry reached sink %zu", what.c_str(), k);
         PBT_ASSERT(warned, "%s: the entry of the recursive crash does not warn about it: %s", what.c_str(), pbt::show(ft, 600).c_str());
      } else {
         PBT_ASSERT(!warned, "%s: the entry warns about a recursive crash that did not happen", what.c_str());
         if (!is_signal(e.kind)) PBT_ASSERT(ft.find(fatal_text(e.no)) != string::npos, "%s: the fatal entry lost its message: %s", what.c_str(), pbt::show(ft, 400).c_str());
      }
   }
   int want_sig = recursive && action == 5 ? 0 : recursive ? SIGABRT : signal_of(e);
   PBT_ASSERT(WIFSIGNALED(r.st), "%s: the process should have died by a signal, but: %s", what.c_str(), r.text().c_str());
   if (want_sig) PBT_ASSERT(WTERMSIG(r.st) == want_sig, "%s: the process should have died by signal %d, but: %s", what.c_str(), want_sig, r.text().c_str());
   if (!none) pbt::nontrivial();
   pbt::label(none ? "hook reset" : acts[action]);
}

struct HandlerSeen {
   string level, message, expression;
   int value, sig;
};
static vector<HandlerSeen>* g_seen;
static void custom(pbt::Source& s) {
   const char* known = getenv("PBT_KNOWN");
   bool second_signal = known && !strcmp(known, "second-signal-custom");
   int nev = second_signal ? 2 : int(1 + s.below(4));
   vector<Event> ev;
   vector<int> throws_;
   bool had_signal = false;
   for (int i = 0; i < nev; ++i) {
      Event e = gen_event(s, !had_signal);
      if (second_signal) e.kind = K_RAISE;
      if (is_signal(e.kind)) {
         // a handler that returns makes only a raised signal survivable; at most one (see DESIGN.md)
         e.kind = K_RAISE;
         e.sig = kSigs[s.below(5)];
         had_signal = true;
      }
      e.no = i;
      ev.push_back(e);
      throws_.push_back(!is_signal(e.kind) && s.chance(1, 3));
   }
   bool forward = s.boolean(), hook = s.boolean(), on_thread = s.chance(1, 3);
   int per = int(s.size(8));
   auto sinks = gen_sinks(s, 1, 3, false);
   pbt::describe("custom exit handler%s%s; sinks:%s; events:", hook ? " and hook" : "", forward ? ", the last event forwarded" : "", show(sinks).c_str());
   for (int i = 0; i < nev; ++i) pbt::describe(" %s%s", show(ev[size_t(i)]).c_str(), throws_[size_t(i)] ? "(handler throws)" : "");
   pbt::describe("\n");
   End r = run_child(s, 0, [&] {
      auto worker = g3::LogWorker::createLogWorker();
      add_sinks(*worker, sinks, 0, sinks.size());
      g3::initializeLogging(worker.get());
      vector<HandlerSeen> seen;
      g_seen = &seen;
      int current = 0;
      g3::setFatalExitHandler([&](g3::FatalMessagePtr m) {
         auto& f = *m.get();
         bump(S->handler_runs);
         seen.push_back({f.level(), f.message(), f.expression(), f._level.value, int(f._signal_id)});
         if (forward && current == nev - 1) {
            snapshot_due();
            set(S->forwarded, 1);
            g3::internal::pushFatalMessageToLogger(m);
            bump(S->event_returned);
         }
         if (throws_[size_t(current)]) throw std::runtime_error("from the custom handler");
      });
      auto play = [&] {
         for (current = 0; current < nev; ++current) {
            auto& e = ev[size_t(current)];
            log_batch(0, current * per, (current + 1) * per, 0);
            uint32_t hooks_before = get(S->hook_runs);
            g_fatal_tid = (unsigned long)pthread_self();
            if (hook) g3::setFatalPreLoggingHook([] { hook_seen(false); });
            set(S->event_raised, uint32_t(current + 1));
            bool threw = false;
            try {
               raise_event(e);
            } catch (const std::runtime_error& x) { threw = string(x.what()) == "from the custom handler"; }
            if (threw != !!throws_[size_t(current)]) pbt::fail("%s: the exception of the custom handler did not reach the caller", show(e).c_str());
            if (seen.size() != size_t(current + 1)) pbt::fail("%s: the custom handler ran %zu times for %d fatal events", show(e).c_str(), seen.size(), current + 1);
            if (hook && get(S->hook_runs) != hooks_before + 1) pbt::fail("%s: the hook ran %u times for one fatal event", show(e).c_str(), get(S->hook_runs) - hooks_before);
            auto& h = seen.back();
            string nm = show(e);
            int want = signal_of(e);
            if (h.sig != want) pbt::fail("%s: the handler got signal %d instead of %d", nm.c_str(), h.sig, want);
            if (is_signal(e.kind)) {
               if (h.message.find("Received fatal signal") == string::npos) pbt::fail("%s: handler got message %s", nm.c_str(), pbt::show(h.message).c_str());
            } else if (h.message.find(fatal_text(e.no)) == string::npos)
               pbt::fail("%s: the handler's message lacks the logged text: %s", nm.c_str(), pbt::show(h.message).c_str());
            if (h.message.find("stack dump [1]") == string::npos) pbt::fail("%s: the handler's message has no stack dump", nm.c_str());
            string lv = is_signal(e.kind) ? "FATAL_SIGNAL" : e.kind == K_CUSTOM ? "MY_FATAL" : e.kind >= K_CHECK ? "CONTRACT" : "FATAL";
            if (h.level != lv) pbt::fail("%s: the handler got level %s instead of %s", nm.c_str(), h.level.c_str(), lv.c_str());
            if (e.kind == K_CUSTOM && h.value != FATAL.value + e.custom) pbt::fail("%s: the handler got level value %d", nm.c_str(), h.value);
            string ex = e.kind >= K_CHECK && e.kind < K_RAISE ? "e.no < 0" : "";
            if (h.expression != ex) pbt::fail("%s: the handler got expression '%s' instead of '%s'", nm.c_str(), h.expression.c_str(), ex.c_str());
         }
         log_batch(0, nev * per, (nev + 1) * per, 0);
      };
      if (on_thread) std::thread(play).join();
      else play();
      snapshot_due();
      worker.reset();
      _exit(91);
   });
   need_prompt_end(r, "custom exit handler");
   PBT_ASSERT(S->event_returned == 0, "forwarding the fatal message returned");
   for (size_t k = 0; k < sinks.size(); ++k) check_sink(int(k), "custom exit handler", forward);
   PBT_ASSERT(S->handler_runs == uint32_t(nev), "the custom handler ran %u times for %d fatal events (%s)", unsigned(S->handler_runs), nev, r.text().c_str());
   if (forward) {
      int want = signal_of(ev.back());
      PBT_ASSERT(WIFSIGNALED(r.st) && WTERMSIG(r.st) == want, "after forwarding the process should have died by signal %d, but: %s", want, r.text().c_str());
      for (size_t k = 0; k < sinks.size(); ++k)
         if (!is_signal(ev.back().kind)) PBT_ASSERT(string(S->sink[k].fatal_text).find(fatal_text(nev - 1)) != string::npos, "the forwarded entry lost its message");
   } else {
      PBT_ASSERT(WIFEXITED(r.st) && WEXITSTATUS(r.st) == 91, "with a custom exit handler the process should have gone on, but: %s %s", r.text().c_str(), pbt::show(r.err, 300).c_str());
      for (size_t k = 0; k < sinks.size(); ++k) PBT_ASSERT(S->sink[k].fatal_text[0] == 0, "a fatal entry kept back by the custom handler reached sink %zu", k);
   }
   pbt::nontrivial();
   pbt::label("custom exit handler");
   if (had_signal) pbt::label("custom exit handler with a signal");
}
void pbt_case(pbt::Source& s) {
   if (s.chance(2, 5) || getenv("PBT_KNOWN")) custom(s);
   else hooks(s);
   clean_files();
}

#else
// ------------------------------------------------------------------------------------------------------------------- P14
namespace {
enum W { W_LOG, W_CREATE, W_INIT, W_DESTROY, W_ADD, W_BURST, W_RACE_INIT, W_NULL, W_SECOND };
struct WOp {
   W k;
   int slot = 0, n = 0, sinks = 0;
};
struct Model {  // what a sink must have received
   vector<int> must;              // in this order (codes), only ids of thread 0
   bool tolerant = false;
};
}
static std::unique_ptr<g3::LogWorker>& static_slot() {
   static std::unique_ptr<g3::LogWorker> w;
   return w;
}
void pbt_case(pbt::Source& s) {
   // generate a valid history while keeping the model
   vector<WOp> ops;
   constexpr int kSlots = 4;
   bool exists[kSlots] = {}, used[kSlots] = {};
   vector<int> sink_of[kSlots];
   int active = -1, nsinks = 0, next_id = 0, next_thread = 1;
   bool have_first = false, first_saved = false, ever_init = false;
   int first_id = -1;
   std::map<int, vector<int>> want;        // sink -> ids of thread 0, in order (kPrefixed added for the saved one)
   vector<int> on_stderr;                   // ids that must be echoed on stderr
   vector<int> nowhere;                     // ids that must not be delivered
   struct Race { int thread, n, slot; vector<int> sinks; };
   vector<Race> races;                      // RACE_INIT threads: at most once
   std::map<int, vector<std::pair<int, int>>> bursts;  // sink -> (thread, n) all due
   bool without = false, with = false;
   int terminal = 0;
   string txt;
   int warn_ok = 0;
   size_t nops = 4 + s.size(20);
   bool use_static = s.chance(1, 5);
   for (size_t i = 0; i < nops && !terminal; ++i) {
      WOp o;
      o.k = W(s.below(9));
      {
         bool any = false, fresh = false;
         for (int k = 0; k < kSlots; ++k) any |= exists[k], fresh |= !used[k];
         if ((o.k == W_NULL || o.k == W_SECOND) && i + 1 < nops) o.k = active >= 0 ? W_DESTROY : any ? W_INIT : W_CREATE;
         if ((o.k == W_INIT || o.k == W_RACE_INIT || o.k == W_ADD || o.k == W_DESTROY) && !any && fresh) o.k = W_CREATE;
         // a slot for which the operation is possible; if there is none, log
         vector<int> can;
         for (int k = 0; k < kSlots; ++k)
            if (o.k == W_CREATE ? !used[k] : bool(exists[k])) can.push_back(k);
         if ((o.k == W_INIT || o.k == W_RACE_INIT) && active >= 0) can.clear();
         if ((o.k == W_NULL || o.k == W_SECOND) && i + 1 < nops) can.clear();
         if (can.empty()) o.k = o.k == W_NULL && i + 1 == nops ? W_NULL : W_LOG;
         else o.slot = can[s.below(can.size())];
      }
      switch (o.k) {
      case W_CREATE:
         o.sinks = int(s.below(3));
         if (nsinks + o.sinks > kMaxSinks) o.sinks = 0;
         exists[o.slot] = used[o.slot] = true;
         for (int k = 0; k < o.sinks; ++k) sink_of[o.slot].push_back(nsinks++);
         txt += " create(" + std::to_string(o.slot) + "," + std::to_string(o.sinks) + " sinks)";
         break;
      case W_ADD:
         if (nsinks >= kMaxSinks) continue;
         sink_of[o.slot].push_back(nsinks++);
         txt += " addSink(" + std::to_string(o.slot) + ")";
         break;
      case W_INIT:
      case W_RACE_INIT:
         if (o.k == W_RACE_INIT && next_thread >= kMaxThreads) o.k = W_INIT;
         if (o.k == W_RACE_INIT) {
            o.n = int(1 + s.below(sched::kActive ? 3 : 20));
            races.push_back({next_thread++, o.n, o.slot, sink_of[o.slot]});
            txt += " initialize(" + std::to_string(o.slot) + ") while another thread logs " + std::to_string(o.n);
            have_first = true;  // the racing thread may take the first-entry slot
         } else
            txt += " initialize(" + std::to_string(o.slot) + ")";
         active = o.slot;
         if (first_id >= 0 && !first_saved && !ever_init) {
            for (int k : sink_of[o.slot]) want[k].push_back(first_id + kPrefixed);
            if (sink_of[o.slot].empty()) on_stderr.push_back(first_id);
         }
         if (first_id >= 0) first_saved = true;
         ever_init = true;
         break;
      case W_DESTROY:
         exists[o.slot] = false;
         txt += " destroy(" + std::to_string(o.slot) + ")";
         if (o.slot == active) active = -1;
         else if (active >= 0) ++warn_ok;
         break;
      case W_LOG:
      case W_BURST: {
         int n = int(1 + s.below(o.k == W_LOG ? 2 : 4));
         o.n = n;
         if (o.k == W_BURST && (next_thread >= kMaxThreads || active < 0)) o.k = W_LOG;
         if (o.k == W_BURST) {
            int t = next_thread++;
            for (int k : sink_of[active]) bursts[k].push_back({t, n});
            txt += " thread logs " + std::to_string(n);
            with = true;
            o.slot = t;
            break;
         }
         txt += " log x" + std::to_string(n);
         o.slot = next_id;
         for (int j = 0; j < n; ++j) {
            int id = next_id++;
            if (active >= 0) {
               with = true;
               for (int k : sink_of[active]) want[k].push_back(id);
               if (sink_of[active].empty()) on_stderr.push_back(id);
            } else {
               without = true;
               if (!have_first) {
                  have_first = true;
                  first_id = id;
                  on_stderr.push_back(id);
                  if (ever_init) first_saved = true;  // nobody left to deliver it to: echoed only
               } else
                  nowhere.push_back(id);
            }
         }
         break;
      }
      case W_NULL:
         if (!s.boolean()) continue;
         terminal = 1;
         txt += " initialize(null)";
         break;
      case W_SECOND:
         if (active < 0 || i + 1 < nops) continue;
         o.slot = -1;
         for (int k = 0; k < kSlots; ++k)
            if (exists[k] && (o.slot < 0 || k != active)) o.slot = k;
         terminal = 2;
         txt += " initialize(" + std::to_string(o.slot) + ") while " + std::to_string(active) + " is active";
         break;
      }
      ops.push_back(o);
   }
   if (terminal && use_static && exists[0] && active != 0) ++warn_ok;  // destroyed by exit
   if (!terminal)  // the child destroys what is left in this order
      for (int k = 0, a = active; k < kSlots; ++k) {
         if (!exists[k]) continue;
         if (k == a) a = -1;
         else if (a >= 0) ++warn_ok;
      }
   pbt::describe("%s%s\n", use_static ? "[worker 0 has static storage]" : "", txt.c_str());
   End r = run_child(s, 0, [&] {
      // not destroyed by leaving this scope in terminal cases: std::exit runs with them alive
      static std::unique_ptr<g3::LogWorker> w1, w2;
      auto* lw0 = new std::unique_ptr<g3::LogWorker>;
      std::unique_ptr<g3::LogWorker>* w[kSlots] = {use_static ? &static_slot() : lw0, new std::unique_ptr<g3::LogWorker>, new std::unique_ptr<g3::LogWorker>, new std::unique_ptr<g3::LogWorker>};
      int sk = 0, th = 1;
      auto add = [&](g3::LogWorker& x) {
         int k = sk++;
         if (k % 2) x.addSink(std::make_unique<StrSink>(k, k % 3 ? 30 : 0), &StrSink::recv);
         else x.addSink(std::make_unique<MsgSink>(k, 0), &MsgSink::recv);
      };
      for (auto& o : ops) {
         bump(S->step);
         switch (o.k) {
         case W_CREATE:
            *w[o.slot] = g3::LogWorker::createLogWorker();
            for (int k = 0; k < o.sinks; ++k) add(**w[o.slot]);
            break;
         case W_ADD: add(**w[o.slot]); break;
         case W_INIT: g3::initializeLogging(w[o.slot]->get()); break;
         case W_RACE_INIT: {
            int t = th++;
            std::thread x([t, &o] { log_batch(t, 0, o.n, 0); });
            if (!sched::kActive && o.n % 3 == 0) usleep(30);
            g3::initializeLogging(w[o.slot]->get());
            snapshot_due();
            x.join();
            break;
         }
         case W_DESTROY: w[o.slot]->reset(); break;
         case W_LOG:
            for (int j = 0; j < o.n; ++j) log_one(o.slot + j);
            break;
         case W_BURST: {
            int t = o.slot;
            th = t + 1;
            std::thread x([t, &o] { log_batch(t, 0, o.n, 0); });
            x.join();
            break;
         }
         case W_NULL: g3::initializeLogging(nullptr); break;
         case W_SECOND: g3::initializeLogging(w[o.slot]->get()); break;
         }
      }
      for (int k = 0; k < kSlots; ++k) w[k]->reset();
      _exit(93);
   });
   need_prompt_end(r, "worker history");
   if (terminal) {
      PBT_ASSERT(WIFEXITED(r.st) && WEXITSTATUS(r.st) == EXIT_FAILURE, "an illegal initialization should end the process with a failure status, but: %s", r.text().c_str());
      PBT_ASSERT(r.err.find("nitializ") != string::npos, "no explanation on stderr: %s", pbt::show(r.err, 300).c_str());
   } else
      PBT_ASSERT(WIFEXITED(r.st) && WEXITSTATUS(r.st) == 93, "the history should end normally, but: %s at step %u of %zu: %s", r.text().c_str(), unsigned(S->step), ops.size(), pbt::show(r.err, 300).c_str());
   for (int id : on_stderr) {
      if (terminal && id != first_id) continue;  // the worker's thread may not have come to it
      PBT_ASSERT(r.err.find(entry_text(id)) != string::npos, "entry %d should have been reported on stderr: %s", id, pbt::show(r.err, 400).c_str());
   }
   int first_seen_race = 0;
   for (int k = 0; k < nsinks; ++k) {
      auto& q = S->sink[k];
      PBT_ASSERT(q.odd[0] == 0, "sink %d received something nobody logged: %s", k, pbt::show(q.odd).c_str());
      vector<int> mine;
      std::map<int, vector<int>> per;
      for (uint32_t i = 0; i < std::min<uint32_t>(q.n, kMaxEv); ++i) {
         int c = q.ev[i];
         if (c == kWarnNotActive) {
            PBT_ASSERT(warn_ok > 0, "sink %d received a warning about shutting down a worker that is not active", k);
            continue;
         }
         bool pref = c >= kPrefixed;
         int id = pref ? c - kPrefixed : c;
         if (pref) PBT_ASSERT(i == 0, "sink %d received the entry logged before initialization after %u others", k, i);
         if (id / 1000 == 0) mine.push_back(c);
         else {
            if (pref) ++first_seen_race;
            per[id / 1000].push_back(id % 1000);
         }
      }
      auto& m = want[k];
      if (terminal) {
         PBT_ASSERT(mine.size() <= m.size() && std::equal(mine.begin(), mine.end(), m.begin()), "sink %d received entries out of order or not meant for it", k);
      } else {
         string g, x;
         for (int c : mine) g += " " + std::to_string(c);
         for (int c : m) x += " " + std::to_string(c);
         PBT_ASSERT(mine == m, "sink %d received%s, expected%s (100000 added: prefixed)", k, g.c_str(), x.c_str());
         PBT_ASSERT(q.destroyed == 1, "sink %d was destroyed %u times", k, unsigned(q.destroyed));
      }
      for (auto& p : per) {
         for (size_t i = 1; i < p.second.size(); ++i) PBT_ASSERT(p.second[i] > p.second[i - 1], "sink %d: entries of thread %d out of order or twice", k, p.first);
         bool known_thread = false;
         for (auto& b : bursts[k])
            if (b.first == p.first) known_thread = true;
         for (auto& b : races)
            if (b.thread == p.first)
               for (int x : b.sinks) known_thread |= x == k;
         PBT_ASSERT(known_thread, "sink %d received entries of thread %d which logged while another worker or none was active", k, p.first);
      }
      if (!terminal) {
         for (auto& b : bursts[k]) PBT_ASSERT(int(per[b.first].size()) == b.second, "sink %d received %zu of %d entries of thread %d", k, per[b.first].size(), b.second, b.first);
         for (auto& b : races) {
            bool here = false;
            for (int x : b.sinks) here |= x == k;
            // everything logged after initializeLogging had returned is due
            if (here && races.size() == 1)
               for (uint32_t i = S->due[b.thread] + 1; i < uint32_t(b.n); ++i)
                  PBT_ASSERT(std::find(per[b.thread].begin(), per[b.thread].end(), int(i)) != per[b.thread].end(), "entry %u of thread %d was logged after initializeLogging returned but not delivered to sink %d", i, b.thread, k);
         }
      }
   }
   if (without && with) pbt::nontrivial();
   if (terminal) pbt::label(terminal == 1 ? "initialize(null)" : "initialize while active");
   if (!races.empty()) pbt::label("logging concurrent with initialize");
   if (first_seen_race) pbt::label("first entry from the racing thread");
   if (first_id >= 0) pbt::label("entry before initialization");
   clean_files();
}
#endif
