// P24: legal concurrent use of the whole public interface, run under race and memory-error detection.
// A case is a plan: lives of a worker; in each, threads run operation lists (logging in every form, handle calls, adding and
// removing sinks, file changes, level changes, hooks, fatal events with a custom exit handler), the worker is destroyed after
// the logging threads ended.  Some plans end in a real fatal event in a child process, some log before and while logging is
// initialized.  The oracle is the detector of the engine (ThreadSanitizer, AddressSanitizer + UBSan, the scheduler's
// happens-before and freed-memory detector, or the balance of allocations over repeated runs) and the count of live objects.
#include <g3log/filesink.hpp>
#include <g3log/g3log.hpp>
#include <g3log/loglevels.hpp>
#include <g3log/logmessage.hpp>
#include <g3log/logworker.hpp>

#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <future>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

#include "pbt.hpp"
#include "sched.hpp"

#define NOTS __attribute__((no_sanitize_thread, noinline))

const char* pbt_rule =
   "random plans of worker lives with 1-4 threads using logging, sinks, handles, files, levels, hooks and fatal events; "
   "non-trivial: >=2 threads logged or called the library concurrently and >=1 of them did something other than logging";
int pbt_default_batch = 10;
double pbt_hang_s = 60;
bool pbt_hang_is_violation = false;

#ifdef LEAK
// live blocks and bytes, over all threads
static std::atomic<long> g_blocks{0}, g_bytes{0};
void* operator new(size_t n) {
   void* p = malloc(n ? n : 1);
   if (!p) throw std::bad_alloc();
   g_blocks.fetch_add(1, std::memory_order_relaxed);
   g_bytes.fetch_add(long(malloc_usable_size(p)), std::memory_order_relaxed);
   return p;
}
void operator delete(void* p) noexcept {
   if (!p) return;
   g_blocks.fetch_sub(1, std::memory_order_relaxed);
   g_bytes.fetch_sub(long(malloc_usable_size(p)), std::memory_order_relaxed);
   free(p);
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }
#endif

namespace {
using std::string;

enum Op {
   O_LOG, O_LOGF, O_LOG_IF, O_LONG, O_CHECK_OK, O_CALL, O_CALL_GET, O_CALL_THROW, O_CALL_OBJ, O_ADD, O_REMOVE, O_REMOVE_ALL, O_FILE_CHANGE,
   O_FILE_NAME, O_FILE_DETAILS, O_FILE_HEADER, O_LEVEL_SET, O_LEVEL_ALL, O_LEVEL_HIGHEST, O_LEVEL_GET, O_LEVEL_LIST, O_LEVEL_PRINT, O_MSG, O_QUERY,
   O_LOCK_SINK, O_WORKER, O_YIELD, O_HOOK, O_FATAL, O_CONTRACT, O_SAVE, O_COUNT
};
const char* kOpName[] = {"log", "logf", "log_if", "long", "check(true)", "call", "call.get", "call(throws)", "call(object)", "add", "remove", "removeAll",
                         "changeLogFile", "fileName", "details", "header", "level-set", "levels-all", "levels-highest", "level-get", "levels-list", "levels-print", "copy-message",
                         "isInitialized", "lock-sink", "second-worker", "yield", "set-hook", "LOG(FATAL)", "CHECK(false)", "saveMessage"};

struct Step {
   Op op;
   int a, b;
};
struct Life {
   std::vector<int> sinks;               // kind of each initial sink
   std::vector<std::vector<Step>> thr;   // thr[0] runs on the main thread
   std::vector<std::vector<Step>> late;  // handle calls that go on while the worker is destroyed
   bool drop_handles = false;            // before the worker
};
enum Flavour { F_LIVES, F_MOCK, F_REAL, F_EARLY };
struct Plan {
   Flavour fl = F_LIVES;
   int mock_throws = 0, event = 0, fatal_thread = 0;
   std::vector<Life> lives;
   std::vector<std::vector<Step>> early;
};

string g_dir;
int g_serial;
Plan* g_plan;

std::atomic<long> g_objs{0};
struct Obj {  // carried by value through handle calls and sinks
   std::unique_ptr<int> v;
   explicit Obj(int x) : v(new int(x)) { g_objs.fetch_add(1, std::memory_order_relaxed); }
   Obj(const Obj& o) : v(new int(*o.v)) { g_objs.fetch_add(1, std::memory_order_relaxed); }
   Obj(Obj&& o) noexcept : v(std::move(o.v)) { g_objs.fetch_add(1, std::memory_order_relaxed); }
   ~Obj() { g_objs.fetch_sub(1, std::memory_order_relaxed); }
};

struct Rec {
   int slow;
   long n = 0;
   size_t bytes = 0;
   string last, level;
   Obj obj{7};
   explicit Rec(int s) : slow(s) {}
   ~Rec() {
      n += long(last.size());
      last.assign("gone");
      *obj.v = 0;
   }
   void recv(g3::LogMessageMover m) {
      for (int i = 0; i < slow; ++i) std::this_thread::yield();
      ++n;
      g3::LogMessage& e = m.get();
      last = e.message();
      level = e.level();
      bytes += e.toString().size() + e.line().size() + e.function().size() + e.file().size() + e.timestamp().size();
   }
   int poke(int x) {
      n += x;
      last = std::to_string(x);
      return x + 1;
   }
   void quiet(int x) { n -= x; }
   long throws(int x) {
      n++;
      throw x;
   }
   Obj take(Obj o) {
      *obj.v += *o.v;
      return o;
   }
   string text() { return last; }
};
struct Str {
   string all;
   Obj obj{3};
   ~Str() { all += "end"; }
   void recv(string s) {
      all += s.substr(0, 40);
      if (all.size() > 4000) all.clear();
   }
   size_t size() { return all.size(); }
};

using RecH = g3::SinkHandle<Rec>;
using StrH = g3::SinkHandle<Str>;
using FileH = g3::SinkHandle<g3::FileSink>;

struct Handles {
   std::vector<std::unique_ptr<RecH>> rec;
   std::vector<std::unique_ptr<StrH>> str;
   std::vector<std::unique_ptr<FileH>> file;
};

std::unique_ptr<g3::FileSink> make_file_sink(int x) {
   int k = __atomic_add_fetch(&g_serial, 1, __ATOMIC_RELAXED);
   return std::make_unique<g3::FileSink>("p" + std::to_string(k), g_dir, "id" + std::to_string(x), size_t(1 + x % 4));
}

struct Thrown {};

#ifdef G3_DYNAMIC_LOGGING
const LEVELS kLevels[] = {G3LOG_DEBUG, INFO, WARNING, {400, "MID"}};
#endif

void step(g3::LogWorker* w, Handles& shared, Handles& own, std::vector<std::shared_future<int>>& fut, const Step& s, int id) {
   const Plan& p = *g_plan;
   switch (s.op) {
   case O_LOG: LOG(INFO) << "m" << id << " " << s.a << " " << 3.5 << " " << string(size_t(s.b), 'x'); break;
   case O_LOGF: LOGF(WARNING, "f%d %s %5.2f", id, "text", 1.25 * s.a); break;
   case O_LOG_IF: LOG_IF(G3LOG_DEBUG, s.a % 2 == 0) << "if" << id; break;
   case O_LONG: LOG(INFO) << string(size_t(s.b) * 200, char('a' + s.a % 26)); break;
   case O_CHECK_OK: CHECK(s.a >= 0) << "never"; break;
   case O_CALL:
      if (!shared.rec.empty()) shared.rec[size_t(s.a) % shared.rec.size()]->call(&Rec::quiet, s.b);
      break;
   case O_CALL_GET:
      if (!shared.rec.empty()) {
         auto f = shared.rec[size_t(s.a) % shared.rec.size()]->call(&Rec::poke, s.b);
         if (s.b % 3 == 0) fut.push_back(f.share());
         else try {
            int v = f.get();
            if (v != s.b + 1) pbt::fail("a handle call returned %d instead of %d", v, s.b + 1);
         } catch (const std::bad_weak_ptr&) {}
      } else if (!shared.str.empty()) {
         try {
            shared.str[size_t(s.a) % shared.str.size()]->call(&Str::size).get();
         } catch (const std::bad_weak_ptr&) {}
      }
      break;
   case O_CALL_THROW:
      if (!shared.rec.empty()) {
         auto f = shared.rec[size_t(s.a) % shared.rec.size()]->call(&Rec::throws, s.b);
         if (s.b % 2) try {
               f.get();
            } catch (int) {
            } catch (const std::bad_weak_ptr&) {}
      }
      break;
   case O_CALL_OBJ:
      if (!shared.rec.empty()) {
         auto f = shared.rec[size_t(s.a) % shared.rec.size()]->call(&Rec::take, Obj(s.b));
         if (s.b % 2) try {
               Obj o = f.get();
               if (*o.v != s.b) pbt::fail("a handle call changed its argument");
            } catch (const std::bad_weak_ptr&) {}
      }
      break;
   case O_ADD:
      if (s.a % 3 == 0) own.rec.push_back(w->addSink(std::make_unique<Rec>(s.b % 3), &Rec::recv));
      else if (s.a % 3 == 1) own.str.push_back(w->addSink(std::make_unique<Str>(), &Str::recv));
      else own.file.push_back(w->addSink(make_file_sink(s.b), &g3::FileSink::fileWrite));
      break;
   case O_REMOVE:
      if (s.a % 4 == 3) {
         if (!shared.rec.empty()) w->removeSink(std::make_unique<RecH>(*shared.rec[size_t(s.b) % shared.rec.size()]));
      } else if (!own.rec.empty()) {
         w->removeSink(std::move(own.rec.back()));
         own.rec.pop_back();
      } else if (!own.file.empty()) {
         w->removeSink(std::move(own.file.back()));
         own.file.pop_back();
      } else if (!own.str.empty()) {
         w->removeSink(std::move(own.str.back()));
         own.str.pop_back();
      }
      break;
   case O_REMOVE_ALL: w->removeAllSinks(); break;
   case O_FILE_CHANGE:
      if (!shared.file.empty()) {
         auto f = shared.file[size_t(s.a) % shared.file.size()]->call(&g3::FileSink::changeLogFile, g_dir + (s.b % 5 == 4 ? "/absent/x" : ""), "n" + std::to_string(s.b));
         if (s.b % 2) try {
               f.get();
            } catch (const std::bad_weak_ptr&) {}
      }
      break;
   case O_FILE_NAME:
      if (!shared.file.empty()) try {
            shared.file[size_t(s.a) % shared.file.size()]->call(&g3::FileSink::fileName).get();
         } catch (const std::bad_weak_ptr&) {}
      break;
   case O_FILE_DETAILS:
      if (!shared.file.empty())
         shared.file[size_t(s.a) % shared.file.size()]->call(&g3::FileSink::overrideLogDetails, s.b % 2 ? g3::LogMessage::FullLogDetailsToString : g3::LogMessage::DefaultLogDetailsToString);
      break;
   case O_FILE_HEADER:
      if (!shared.file.empty()) shared.file[size_t(s.a) % shared.file.size()]->call(&g3::FileSink::overrideLogHeader, string("header\n"));
      break;
#ifdef G3_DYNAMIC_LOGGING
   case O_LEVEL_SET: g3::log_levels::set(kLevels[s.a % 4], s.b % 2); break;
   case O_LEVEL_ALL:
      if (s.a % 2 && p.fl != F_REAL) g3::log_levels::disableAll();  // this disables fatal entries, too
      else g3::log_levels::enableAll();
      break;
   case O_LEVEL_HIGHEST: g3::log_levels::setHighest(kLevels[s.a % 4]); break;
   case O_LEVEL_GET:
      if (int(g3::log_levels::getStatus(kLevels[s.a % 4])) == int(g3::log_levels::status::Absent) && s.a % 4 != 3) pbt::fail("a known level was reported absent");
      g3::logLevel(kLevels[s.b % 4]);
      break;
   case O_LEVEL_LIST: {
      auto m = g3::log_levels::getAll();
      if (m.size() < 4) pbt::fail("levels are missing from the snapshot");
      break;
   }
   case O_LEVEL_PRINT:
      if (g3::log_levels::to_string().find("WARNING") == string::npos) pbt::fail("a level is missing from the printed list");
      break;
#else
   case O_LEVEL_SET:
   case O_LEVEL_ALL:
   case O_LEVEL_HIGHEST:
   case O_LEVEL_GET:
   case O_LEVEL_LIST:
   case O_LEVEL_PRINT:
#endif
   case O_MSG: {
      g3::LogMessage m("dir/file.cpp", s.a, "fun", s.b % 2 ? INFO : WARNING);
      m.write().append("copy");
      g3::LogMessage c(m);
      string t = c.toString(g3::LogMessage::FullLogDetailsToString) + c.timestamp(g3::internal::time_formatted);
      if (t.find("copy") == string::npos) pbt::fail("a copied message lost its text");
      break;
   }
   case O_QUERY: g3::internal::isLoggingInitialized(); break;
   case O_LOCK_SINK:
      if (!shared.rec.empty()) {
         auto l = shared.rec[size_t(s.a) % shared.rec.size()]->sink().lock();
         if (s.b % 2) std::this_thread::yield();
      }
      break;
   case O_WORKER: {
      auto w2 = g3::LogWorker::createLogWorker();
      auto h = w2->addSink(std::make_unique<Rec>(0), &Rec::recv);
      h->call(&Rec::quiet, 1);
      if (s.b % 2) w2->removeSink(std::move(h));
      break;
   }
   case O_HOOK: {
      int* hits = nullptr;
      auto obj = std::make_shared<Obj>(s.a);
      g3::setFatalPreLoggingHook([obj, hits] { (void)*obj->v; });
      break;
   }
   case O_FATAL:
      if (p.fl == F_MOCK) try {
            LOG(FATAL) << "fatal" << id;
         } catch (const Thrown&) {}
      break;
   case O_CONTRACT:
      if (p.fl == F_MOCK) try {
            CHECK(s.a < 0) << "contract" << id;
         } catch (const Thrown&) {}
      break;
   case O_SAVE: g3::internal::saveMessage("saved", "file.cpp", s.a, "f", INFO, "", 0, ""); break;
   default: std::this_thread::yield();
   }
}

void run_thread(g3::LogWorker* w, Handles& shared, const std::vector<Step>& steps, int no) {
   Handles own;
   std::vector<std::shared_future<int>> fut;
   int id = no * 1000;
   for (const Step& s : steps) step(w, shared, own, fut, s, id++);
   for (auto& f : fut) try {
         f.get();
      } catch (const std::bad_weak_ptr&) {}
}

void fire(int event) {
   switch (event) {
   case 0: LOG(FATAL) << "the end"; break;
   case 1: CHECK(event != 1) << "the end"; break;
   case 2: abort();
   case 3: raise(SIGFPE); break;
   case 4: LOGF(FATAL, "the end %d", 1); break;
   case 5: *(volatile int*)8 = 1; break;
   default: std::terminate();
   }
}
int event_signal(int e) { return e == 3 ? SIGFPE : e == 5 ? SIGSEGV : SIGABRT; }

void run_life(const Plan& p, const Life& l, bool last) {
   auto w = g3::LogWorker::createLogWorker();
   Handles shared;
   for (int k : l.sinks) {
      if (k % 4 <= 1) shared.rec.push_back(w->addSink(std::make_unique<Rec>(k / 4), &Rec::recv));
      else if (k % 4 == 2) shared.str.push_back(w->addSink(std::make_unique<Str>(), &Str::recv));
      else shared.file.push_back(w->addSink(make_file_sink(k), &g3::FileSink::fileWrite));
   }
   g3::initializeLogging(w.get());
   bool real = p.fl == F_REAL && last;
   std::vector<std::thread> ts;
   for (size_t i = 1; i < l.thr.size(); ++i)
      ts.emplace_back([&, i] {
         run_thread(w.get(), shared, l.thr[i], int(i));
         if (real && size_t(p.fatal_thread) == i) fire(p.event);
      });
   run_thread(w.get(), shared, l.thr[0], 0);
   if (real && p.fatal_thread == 0) fire(p.event);
   for (auto& t : ts) t.join();
   if (real) _exit(99);
   ts.clear();
   for (size_t i = 0; i < l.late.size(); ++i) ts.emplace_back([&, i] { run_thread(nullptr, shared, l.late[i], 50 + int(i)); });
   w.reset();
   for (auto& t : ts) t.join();
   for (auto& h : shared.rec) {
      if (h->sink().lock()) pbt::fail("a sink is still alive after its worker was destroyed");
      try {
         h->call(&Rec::poke, 1).get();
         pbt::fail("a call through a handle ran after the worker was destroyed");
      } catch (const std::bad_weak_ptr&) {}
   }
}

void run_plan(const Plan& p) {
   long before = g_objs.load();
   if (p.fl == F_MOCK) {
      int throws = p.mock_throws;
      g3::setFatalExitHandler([throws](g3::FatalMessagePtr m) {
         string t = m.get()->toString() + m.get()->reason();
         if (t.empty()) pbt::fail("empty fatal message");
         if (throws) throw Thrown();
      });
   }
#ifdef G3_DYNAMIC_LOGGING
   g3::only_change_at_initialization::reset();
   g3::only_change_at_initialization::addLogLevel(kLevels[3], true);
#endif
   std::vector<std::thread> ts;
   for (size_t i = 0; i < p.early.size(); ++i)
      ts.emplace_back([&, i] {
         Handles none;
         run_thread(nullptr, none, p.early[i], 20 + int(i));
      });
   for (size_t i = 0; i < p.lives.size(); ++i) {
      run_life(p, p.lives[i], i + 1 == p.lives.size());
   }
   for (auto& t : ts) t.join();
   g3::setFatalPreLoggingHook([] {});
   if (p.fl == F_MOCK) g3::setFatalExitHandler(g3::internal::pushFatalMessageToLogger);
   if (g_objs.load() != before) pbt::fail("%ld objects owned by sinks, calls or hooks are still alive after the worker was destroyed", g_objs.load() - before);
}

Step gen_step(pbt::Source& s, Flavour fl, bool handles_only, bool early) {
   static const Op normal[] = {O_LOG, O_LOG, O_LOG, O_LOG, O_LOGF, O_LOG_IF, O_LONG, O_CHECK_OK, O_CALL, O_CALL_GET, O_CALL_THROW, O_CALL_OBJ, O_ADD, O_ADD, O_REMOVE, O_REMOVE,
                               O_REMOVE_ALL, O_FILE_CHANGE, O_FILE_CHANGE, O_FILE_NAME, O_FILE_DETAILS, O_FILE_HEADER, O_LEVEL_SET, O_LEVEL_SET, O_LEVEL_ALL, O_LEVEL_HIGHEST, O_LEVEL_GET, O_LEVEL_LIST,
                               O_LEVEL_PRINT, O_MSG, O_QUERY, O_LOCK_SINK, O_WORKER, O_YIELD, O_HOOK, O_SAVE};
   static const Op handles[] = {O_CALL, O_CALL_GET, O_CALL_THROW, O_CALL_OBJ, O_FILE_NAME, O_LOCK_SINK, O_FILE_CHANGE, O_YIELD, O_MSG};
   static const Op earlies[] = {O_LOG, O_LOG, O_LOGF, O_LOG_IF, O_LONG, O_MSG, O_QUERY, O_YIELD, O_SAVE};
   Step st;
   if (early) st.op = earlies[s.below(sizeof earlies / sizeof *earlies)];
   else if (handles_only) st.op = handles[s.below(sizeof handles / sizeof *handles)];
   else if (fl == F_MOCK && s.chance(1, 4)) st.op = s.boolean() ? O_FATAL : s.boolean() ? O_CONTRACT : O_HOOK;
   else st.op = normal[s.below(sizeof normal / sizeof *normal)];
   st.a = int(s.below(8));
   st.b = int(s.below(8));
   return st;
}

Plan gen(pbt::Source& s) {
   Plan p;
   uint64_t f = s.below(8);
   p.fl = f < 4 ? F_LIVES : f < 6 ? F_MOCK : f == 6 ? F_REAL : F_EARLY;
#ifdef LEAK
   if (p.fl == F_REAL || p.fl == F_EARLY) p.fl = F_MOCK;
#endif
   p.mock_throws = p.fl == F_MOCK ? int(s.below(2)) : 0;
   size_t nl = p.fl == F_REAL ? 1 + s.below(2) : 1 + s.size(2);
   for (size_t i = 0; i < nl; ++i) {
      Life l;
      size_t ns = s.below(5);
      for (size_t k = 0; k < ns; ++k) l.sinks.push_back(int(s.below(12)));
      size_t nt = 2 + s.below(3);
      for (size_t t = 0; t < nt; ++t) {
         std::vector<Step> v;
         size_t n = s.below(10);
         for (size_t k = 0; k < n; ++k) v.push_back(gen_step(s, p.fl, false, false));
         l.thr.push_back(v);
      }
      if (p.fl != F_REAL && s.chance(1, 3)) {
         size_t n = 1 + s.below(2);
         for (size_t t = 0; t < n; ++t) {
            std::vector<Step> v;
            size_t m = 1 + s.below(6);
            for (size_t k = 0; k < m; ++k) v.push_back(gen_step(s, p.fl, true, false));
            l.late.push_back(v);
         }
      }
      p.lives.push_back(l);
   }
   if (p.fl == F_REAL) {
      p.event = int(s.below(7));
      p.fatal_thread = int(s.below(p.lives.back().thr.size()));
      // asynchronous: only the thread that fails uses signals
   }
   if (p.fl == F_EARLY) {
      p.lives.resize(1);  // they may log for as long as there is a worker: they must have ended before it does
      size_t n = 1 + s.below(3);
      for (size_t t = 0; t < n; ++t) {
         std::vector<Step> v;
         size_t m = 1 + s.below(5);
         for (size_t k = 0; k < m; ++k) v.push_back(gen_step(s, p.fl, false, true));
         p.early.push_back(v);
      }
   }
   return p;
}

void show(const Plan& p) {
   static const char* fl[] = {"lives", "custom exit handler", "real fatal event", "logging before initialization"};
   pbt::describe("%s", fl[p.fl]);
   if (p.mock_throws) pbt::describe(" (throws)");
   if (p.fl == F_REAL) pbt::describe(" (event %d on thread %d)", p.event, p.fatal_thread);
   pbt::describe("\n");
   auto list = [](const char* what, const std::vector<Step>& v) {
      pbt::describe("  %s:", what);
      for (auto& s : v) pbt::describe(" %s[%d,%d]", kOpName[s.op], s.a, s.b);
      pbt::describe("\n");
   };
   for (auto& v : p.early) list("early", v);
   for (auto& l : p.lives) {
      pbt::describe(" life: sinks");
      for (int k : l.sinks) pbt::describe(" %s/%d", k % 4 <= 1 ? "message" : k % 4 == 2 ? "string" : "file", k / 4);
      pbt::describe("\n");
      for (auto& v : l.thr) list("thread", v);
      for (auto& v : l.late) list("late caller", v);
   }
}

double mono() {
   timespec t;
   clock_gettime(CLOCK_MONOTONIC, &t);
   return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}

// the early threads must end before the only worker does
void run_early(Plan& p) {
   std::vector<std::thread> ts;
   for (size_t i = 0; i < p.early.size(); ++i)
      ts.emplace_back([&p, i] {
         Handles none;
         run_thread(nullptr, none, p.early[i], 20 + int(i));
      });
   const Life& l = p.lives[0];
   auto w = g3::LogWorker::createLogWorker();
   Handles shared;
   for (int k : l.sinks) shared.rec.push_back(w->addSink(std::make_unique<Rec>(k / 4), &Rec::recv));
   g3::initializeLogging(w.get());
   run_thread(w.get(), shared, l.thr[0], 0);
   for (auto& t : ts) t.join();
   w.reset();
}

void in_child(pbt::Source& s, Plan& p) {
   pid_t pid = fork();
   if (pid == 0) {
      for (int i = 1; i < 32; ++i)
         if (i != SIGKILL && i != SIGSTOP) signal(i, SIG_DFL);
      sigset_t none;
      sigemptyset(&none);
      sigprocmask(SIG_SETMASK, &none, nullptr);
      sched::begin(s);
      if (p.fl == F_EARLY) run_early(p);
      else run_plan(p);
      sched::end();
      _exit(0);
   }
   int st = 0;
   double t0 = mono();
   useconds_t nap = 100;
   for (;;) {
      if (waitpid(pid, &st, WNOHANG) == pid) break;
      usleep(nap);
      if (nap < 3000) nap += nap / 2;
      pbt::beat();
      if (mono() - t0 > 40) {
         kill(pid, SIGKILL);
         waitpid(pid, &st, 0);
         pbt::inconclusive("no end within 40 s");
      }
   }
   if (pbt::shm->failed || pbt::shm->inconclusive) _exit(77);
   if (WIFEXITED(st) && (WEXITSTATUS(st) == 66 || WEXITSTATUS(st) == 67)) _exit(WEXITSTATUS(st));  // a sanitizer's report
   if (p.fl == F_REAL) {
      if (!WIFSIGNALED(st) || WTERMSIG(st) != event_signal(p.event))
         pbt::fail("the process should have been ended by signal %d, but its wait status is 0x%x", event_signal(p.event), st);
   } else if (st != 0)
      pbt::fail("the process should have ended normally, but its wait status is 0x%x", st);
}
}  // namespace

void pbt_init() {
   g_dir = string(pbt::scratch()) + "/c" + std::to_string(getpid());
   mkdir(g_dir.c_str(), 0755);
}

static void clean_dir() {
   string cmd = "find '" + g_dir + "' -type f -delete";
   if (g_dir.size() > 8 && system(cmd.c_str())) {}
}

void pbt_case(pbt::Source& s) {
   sched::detect_races(true);
   Plan p = gen(s);
   g_plan = &p;
   g_serial = int(pbt::case_index() % 100000) * 100;
   show(p);
   int active = 0, other = 0;
   for (auto& l : p.lives) {
      int a = 0;
      for (auto& t : l.thr) {
         a += !t.empty();
         for (auto& st : t) {
            other += st.op > O_CHECK_OK && st.op != O_YIELD && st.op != O_QUERY;
            pbt::label(kOpName[st.op]);
         }
      }
      for (auto& t : l.late) a += !t.empty();
      active = std::max(active, a + int(p.early.size()));
   }
   static const char* fl[] = {"lives", "custom exit handler", "real fatal event", "logging before initialization"};
   pbt::label(fl[p.fl]);
   if (active >= 2 && other) pbt::nontrivial();
#ifdef LEAK
   long blocks[5], bytes[5];
   for (int i = 0; i < 5; ++i) {
      run_plan(p);
      clean_dir();
      blocks[i] = g_blocks.load();
      bytes[i] = g_bytes.load();
   }
   bool grows = true;
   for (int i = 2; i < 5; ++i) grows = grows && blocks[i] > blocks[i - 1];
   PBT_ASSERT(!grows, "every run of the same history leaves memory behind: live blocks %ld %ld %ld %ld %ld, bytes %ld ... %ld", blocks[0], blocks[1], blocks[2], blocks[3], blocks[4], bytes[0], bytes[4]);
#else
   if (p.fl == F_REAL || p.fl == F_EARLY) {
      in_child(s, p);
   } else {
      sched::begin(s);
      run_plan(p);
      sched::end();
   }
   clean_dir();
#endif
   if (sched::kActive) sched::label_stats();
}
