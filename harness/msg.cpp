// Entry content (P05), entry text (P07) and value semantics of entries (P23).    -DPROP=5|7|23
#include <g3log/filesink.hpp>
#include <g3log/crashhandler.hpp>
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>

#include <sys/stat.h>
#include <unistd.h>
#include <csignal>
#include <cstring>
#include <condition_variable>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <list>
#include <memory>
#include <mutex>
#include <sstream>
#include <thread>

#include "pbt.hpp"
#include "sched.hpp"

const char* pbt_rule =
#if PROP == 5
   "log calls with generated metadata and text through 1..4 sinks; non-trivial: >=1 entry reached >=1 sink with a non-empty text or path, from generated buffers freed right after the call";
#elif PROP == 7
   "entries of every level kind formatted with generated details functions; non-trivial: >=1 formatting of an entry with non-empty text";
#else
   "sequences of copy/move/assign/swap/modify on messages, fatal messages, levels, wrappers; non-trivial: >=2 transfers between distinct slots";
#endif
int pbt_default_batch = PROP == 5 ? 100 : 300;
double pbt_hang_s = 40;
bool pbt_hang_is_violation = !sched::kActive;

using std::string;

// ------------------------------------------------------------------------------------------------------- generators
static string gen_text(pbt::Source& s, size_t max) {
   // NUL-free bytes; a mixture of alphabets
   size_t n = s.size(max);
   int mode = int(s.below(4));
   string r;
   r.reserve(n);
   static const char* special = "/\\(){}[]<>:%\n\t\r \"'->.#\x1b\xc3\xa9~";
   for (size_t i = 0; i < n; ++i) {
      if (mode == 0) r += char('a' + s.below(26));
      else if (mode == 1) r += special[s.below(strlen(special))];
      else if (mode == 2) r += char(1 + s.below(255));
      else r += s.chance(1, 4) ? special[s.below(strlen(special))] : char('A' + s.below(26));
   }
   return r;
}
// mostly short; now and then longer than any plausible fixed-size buffer
static string gen_name(pbt::Source& s, size_t max) { return gen_text(s, !sched::kActive && s.chance(1, 24) ? 5000 : max); }
static string gen_path(pbt::Source& s) {
   switch (s.below(6)) {
   case 0: return "file.cpp";
   case 1: return "/usr/src/" + gen_name(s, 12);
   case 2: return "C:\\dir\\" + gen_name(s, 12);
   case 3: {
      string r;
      size_t n = s.below(6);
      for (size_t i = 0; i < n; ++i) {
         r += gen_text(s, 6);
         r += "/\\"[s.below(2)];
      }
      return r + gen_text(s, 10);
   }
   case 4: return "";
   default: return gen_text(s, 40);
   }
}
static string base_of(const string& p) {
   size_t i = p.size();
   while (i > 0 && p[i - 1] != '/' && p[i - 1] != '\\') --i;
   return p.substr(i);
}
static int gen_line(pbt::Source& s) {
   switch (s.below(4)) {
   case 0: return int(s.below(100));
   case 1: return int(s.below(2000000));
   case 2: return 2147483647 - int(s.below(3));
   default: return -int(s.below(5));
   }
}
static LEVELS gen_level(pbt::Source& s, bool fatal_too) {
   switch (s.below(fatal_too ? 10 : 5)) {
   case 0: return INFO;
   case 1: return G3LOG_DEBUG;
   case 2: return WARNING;
   case 3: return LEVELS(int(s.range(-2000, 999)), gen_text(s, 12));
   case 4: return LEVELS(s.boolean() ? 999 : 500, "CUSTOM_" + gen_name(s, 8));
   case 5: return FATAL;
   case 6: return g3::internal::CONTRACT;
   case 7: return g3::internal::FATAL_SIGNAL;
   case 8: return g3::internal::FATAL_EXCEPTION;
   default: return LEVELS(s.boolean() ? 1000 + int(s.below(1003)) : 2003 + int(s.below(100)), "F" + gen_text(s, 8));
   }
}
static string show(const string& s) { return pbt::show(s); }

// independent rendering of the time of an entry
static string ref_time(const g3::LogMessage& m) {
   auto sys = g3::to_system_time(m._timestamp);
   long long ns = std::chrono::duration_cast<std::chrono::nanoseconds>(sys.time_since_epoch()).count();
   long long raw = std::chrono::duration_cast<std::chrono::nanoseconds>(m._timestamp.time_since_epoch()).count();
   if (ns - raw > 2000000000LL || raw - ns > 2000000000LL) pbt::fail("time stamp conversion is off by %lld ns", ns - raw);
   time_t t = ns / 1000000000;
   struct tm tmv;
   localtime_r(&t, &tmv);
   char b[64], r[96];
   strftime(b, sizeof b, "%Y/%m/%d %H:%M:%S", &tmv);
   snprintf(r, sizeof r, "%s %06lld", b, ns % 1000000000 / 1000);
   return r;
}

#if PROP == 5
// ------------------------------------------------------------------------------------------------------------- P05
namespace {
struct Expect {
   string file, function, text, expr, level_text;
   int line = 0, level_value = 0;
   string tid;
   long long t0 = 0, t1 = 0;
   bool macro = false;
};
struct Got {
   string path, file, line, function, level, text, expr, tid;
   int level_value;
   long long ts;
};
struct Recs {
   std::vector<Got> got;
   std::list<g3::LogMessageMover> kept;
};
Got take(const g3::LogMessage& m) {
   Got g;
   g.path = m.file_path();
   g.file = m.file();
   g.line = m.line();
   g.function = m.function();
   g.level = m.level();
   g.level_value = m._level.value;
   g.text = m.message();
   g.expr = m.expression();
   g.tid = m.threadID();
   g.ts = std::chrono::duration_cast<std::chrono::nanoseconds>(m._timestamp.time_since_epoch()).count();
   return g;
}
struct Sink {
   Recs* r;
   int kind;
   Sink(Recs* q, int k) : r(q), kind(k) {}
   void recv(g3::LogMessageMover mm) {
      g3::LogMessage& m = mm.get();
      r->got.push_back(take(m));
      switch (kind) {
      case 1:  // rewrites everything it can reach
         for (auto& c : m.write()) c = '#';
         m.write() += "MUTATED";
         m.setExpression("mutated");
         for (auto& c : m._file) c = '#';
         for (auto& c : m._file_path) c = '#';
         for (auto& c : m._function) c = '#';
         for (auto& c : m._level.text) c = '#';
         m._level.value = 77;
         m._line = -1;
         m.overrideLogDetailsFunc(g3::LogMessage::FullLogDetailsToString);
         break;
      case 2: {  // moves out of it
         g3::LogMessage stolen(std::move(m));
         stolen.write().clear();
         break;
      }
      case 3:  // keeps it
         r->kept.push_back(mm);
         break;
      default: break;
      }
   }
};
long long now_ns() { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::high_resolution_clock::now().time_since_epoch()).count(); }
string my_tid() {
   std::ostringstream o;
   o << std::this_thread::get_id();
   return o.str();
}
// a heap copy that is overwritten and freed when it goes out of scope
struct Doomed {
   char* p;
   size_t n;
   explicit Doomed(const string& s) : p(new char[s.size() + 1]), n(s.size()) { memcpy(p, s.c_str(), n + 1); }
   ~Doomed() {
      memset(p, '!', n);
      delete[] p;
   }
};
std::mutex g_fatal_m;
std::vector<Got> g_fatal;

struct Item {
   string a;
   int kind;
   long long i;
   double d;
};
struct Plan {
   int how;
   string file, function, expr;
   int line;
   LEVELS level = INFO;
   std::vector<Item> items;
   bool fatal = false;
};
struct Nested;
Expect* log_nested(const string& text, std::vector<Expect>& out);
// nest: entries logged by an operand while it is being streamed (0: do not log)
void stream_items(std::ostream& o, const std::vector<Item>& v, std::vector<Expect>* nest = nullptr) {
   for (auto& it : v) switch (it.kind) {
      case 6: o << std::hex << std::showbase << std::uppercase << it.i; break;   // formatting state that is left behind
      case 7: o << std::setprecision(3) << std::fixed << it.d << std::setfill('*') << std::setw(7); break;
      case 8: o << std::left << std::setw(int(it.i & 15)) << std::noskipws << std::boolalpha << true << std::endl; break;
      case 9:
         if (nest) log_nested(it.a, *nest);
         o << "<nested>";
         break;
      case 10: o.setstate(std::ios::failbit); o << "dropped"; break;   // as a null pointer or a throwing operator would leave it
      case 11: o << std::flush << std::string(size_t(it.i & 0xfffff), 'x') << it.a; break;
      case 0: o << it.a; break;
      case 1: o << it.i; break;
      case 2: o << it.d; break;
      case 3: o << it.a.c_str(); break;
      case 4: o << std::hex << it.i << std::dec; break;
      default: o << std::boolalpha << (it.i & 1) << ' ' << char('a' + (it.i & 15)); break;
      }
}
Expect* log_nested(const string& text, std::vector<Expect>& out) {
   Expect e;
   e.macro = true, e.file = __FILE__, e.function = __FUNCTION__;
   e.level_text = "NESTED", e.level_value = 7;
   e.text = text, e.tid = my_tid();
   e.t0 = now_ns();
   e.line = __LINE__; LOG(LEVELS(7, "NESTED")) << text;
   e.t1 = now_ns();
   out.push_back(e);
   return &out.back();
}
const LEVELS kCustomFatal{1500, "CUSTOM FATAL"};
Plan gen_plan(pbt::Source& s) {
   Plan p;
   p.how = int(s.below(8));
   p.file = gen_path(s);
   p.function = gen_name(s, 20);
   p.line = gen_line(s);
   p.level = gen_level(s, false);
   size_t n = s.below(5);
   for (size_t i = 0; i < n; ++i) {
      Item it;
      it.kind = int(s.below(10));
      if (!sched::kActive && s.chance(1, 60)) it.kind = 10 + int(s.chance(1, 3));
      it.a = gen_text(s, sched::kActive ? 20 : s.chance(1, 8) ? 9000 : 60);
      it.i = (long long)s.below(0) >> s.below(63);
      it.d = double(it.i) / 1024;
      p.items.push_back(it);
   }
   if (p.how >= 6) {
      p.fatal = true;
      p.expr = gen_name(s, 30);
   }
   return p;
}
Expect run_plan(const Plan& p, bool& ok, std::vector<Expect>& nest) {
   Expect e;
   std::ostringstream ref;
   stream_items(ref, p.items);
   e.text = ref.str();
   e.tid = my_tid();
   ok = true;
   switch (p.how) {
   case 0: case 1: {  // the object behind the macro, with call-site data of our choice
      e.file = p.file, e.function = p.function, e.line = p.line;
      e.level_text = p.level.text, e.level_value = p.level.value;
      Doomed f(p.file), fn(p.function);
      LEVELS* lv = new LEVELS(p.level);
      e.t0 = now_ns();
      { LogCapture c(f.p, p.line, fn.p, *lv); stream_items(c.stream(), p.items, &nest); }
      e.t1 = now_ns();
      lv->text.assign(lv->text.size(), '!');
      lv->value = 12345;
      delete lv;
      break;
   }
   case 2: {
      e.macro = true, e.file = __FILE__, e.function = __FUNCTION__;
      e.level_text = p.level.text, e.level_value = p.level.value;
      LEVELS* lv = new LEVELS(p.level);
      Doomed t(e.text);
      e.t0 = now_ns();
      e.line = __LINE__; LOG(*lv) << t.p;
      e.t1 = now_ns();
      lv->text = "gone";
      delete lv;
      break;
   }
   case 3: {
      e.macro = true, e.file = __FILE__, e.function = __FUNCTION__;
      e.level_text = p.level.text, e.level_value = p.level.value;
      Doomed t(e.text);
      e.t0 = now_ns();
      e.line = __LINE__; LOG_IF(p.level, p.line == p.line) << t.p;
      e.t1 = now_ns();
      break;
   }
   case 4: case 5: {
      e.macro = true, e.file = __FILE__, e.function = __FUNCTION__;
      e.level_text = p.level.text, e.level_value = p.level.value;
      if (e.text.size() > 2047) e.text.resize(2047);
      Doomed t(e.text);
      e.t0 = now_ns();
      if (p.how == 4) { e.line = __LINE__; LOGF(p.level, "%s", t.p); }
      else { e.line = __LINE__; LOGF_IF(p.level, true, "%s", t.p); }
      e.t1 = now_ns();
      break;
   }
   default: {  // failed CHECK and fatal log level, seen through a custom fatal exit handler
      bool check = p.how == 6 || p.line % 2 == 0;
      const LEVELS& lvl = check ? g3::internal::CONTRACT : p.line % 3 == 0 ? kCustomFatal : FATAL;
      e.level_text = lvl.text, e.level_value = lvl.value;
      if (p.how == 6) {
         e.file = p.file, e.function = p.function, e.line = p.line, e.expr = p.expr;
         Doomed f(p.file), fn(p.function), ex(p.expr);
         e.t0 = now_ns();
         { LogCapture c(f.p, p.line, fn.p, lvl, ex.p, SIGABRT, "DUMP"); stream_items(c.stream(), p.items, &nest); }
         e.t1 = now_ns();
      } else {
         e.macro = true, e.file = __FILE__, e.function = __FUNCTION__;
         Doomed t(e.text);
         int never = 0;
         e.t0 = now_ns();
         if (check) {
            e.expr = "never == 1 || (never > 2 && \"quoted\\n\")";
            e.line = __LINE__; CHECK(never == 1 || (never > 2 && "quoted\n")) << t.p;
         } else {
            e.line = __LINE__; LOG(lvl) << t.p;
         }
         e.t1 = now_ns();
      }
   }
   }
   return e;
}
void compare(const char* who, const Expect& e, const Got& g) {
#define CMP(what, a, b) \
   if ((a) != (b)) pbt::fail("%s: %s is \"%s\", expected \"%s\"", who, what, show(a).c_str(), show(b).c_str())
   CMP("file path", g.path, e.file);
#ifdef G3_LOG_FULL_FILENAME
   CMP("file name", g.file, e.file);
#else
   CMP("file name", g.file, base_of(e.file));
#endif
   CMP("line", g.line, std::to_string(e.line));
   CMP("function", g.function, e.function);
   CMP("level text", g.level, e.level_text);
   CMP("level value", std::to_string(g.level_value), std::to_string(e.level_value));
   CMP("expression", g.expr, e.expr);
   CMP("thread id", g.tid, e.tid);
   if (g.ts < e.t0 || g.ts > e.t1) {
      if (e.t1 >= e.t0) pbt::fail("%s: time stamp outside the log call (%lld not in [%lld,%lld])", who, g.ts, e.t0, e.t1);
   }
}
}  // namespace

// the same as the call before, apart from a few bytes (what a cache would take for the same)
static void alter(pbt::Source& s, string& t) {
   if (t.empty()) return;
   switch (s.below(4)) {
   case 0: break;
   case 1: t[s.below(t.size())] = '/'; break;
   case 2: t[s.below(t.size())] = char('a' + s.below(26)); break;
   default: std::rotate(t.begin(), t.begin() + long(s.below(t.size())), t.end());
   }
}
static void near_duplicate(pbt::Source& s, Plan& p, const Plan& q) {
   p.file = q.file;
   alter(s, p.file);
   if (s.boolean()) {
      p.function = q.function;
      alter(s, p.function);
   }
   if (s.boolean()) p.line = q.line;
   if (s.boolean()) {
      p.level = q.level;
      alter(s, p.level.text);
   }
   if (s.boolean()) p.items = q.items;
   if (s.boolean() && q.how < 6 && p.how < 6) p.how = q.how;
}
void pbt_init() {}

void pbt_case(pbt::Source& s) {
   int nsinks = 1 + int(s.below(sched::kActive ? 2 : 4));
   int nthreads = sched::kActive ? 2 + int(s.below(2)) : 1 + int(s.chance(1, 3) ? s.below(3) : 0);
   std::vector<Recs> recs(nsinks);
   std::vector<int> kinds;
   for (int i = 0; i < nsinks; ++i) kinds.push_back(int(s.below(4)));
   std::vector<std::vector<Plan>> plans(nthreads);
   size_t total = 0;
   for (auto& v : plans) {
      size_t n = 1 + (sched::kActive ? s.below(3) : s.size(8));
      for (size_t i = 0; i < n; ++i) {
         v.push_back(gen_plan(s));
         if (i && s.chance(1, 4)) near_duplicate(s, v[i], v[i - 1]);
      }
      total += n;
   }
   pbt::describe("%d sinks, %d threads, %zu calls", nsinks, nthreads, total);
   for (auto& v : plans)
      for (auto& p : v) {
         std::ostringstream o;
         stream_items(o, p.items);
         pbt::describe("; how %d file '%s' fn '%s' line %d level %d '%s' text '%s'", p.how, show(p.file).c_str(), show(p.function).c_str(), p.line, p.level.value, show(p.level.text).c_str(), pbt::show(o.str(), 60).c_str());
      }
   sched::begin(s);
   auto worker = g3::LogWorker::createLogWorker();
   for (int i = 0; i < nsinks; ++i) worker->addSink(std::make_unique<Sink>(&recs[i], kinds[i]), &Sink::recv);
   g_fatal.clear();
   g3::initializeLogging(worker.get());
   g3::setFatalExitHandler([](g3::FatalMessagePtr m) {
      std::lock_guard<std::mutex> l(g_fatal_m);
      g_fatal.push_back(take(*m.get()));
   });
   std::vector<std::vector<std::pair<Expect, bool>>> expects(nthreads);  // with the plan's fatality
   std::vector<std::thread> ths;
   auto run = [&](int t) {
      for (auto& p : plans[t]) {
         bool ok;
         std::vector<Expect> nest;
         Expect e = run_plan(p, ok, nest);
         for (auto& x : nest) expects[t].push_back({x, false});
         expects[t].push_back({e, p.fatal});
         // the fatal exit handler is global: with several threads fatal events are matched by thread id
      }
   };
   for (int t = 1; t < nthreads; ++t) ths.emplace_back(run, t);
   run(0);
   for (auto& t : ths) t.join();
   worker.reset();
   sched::label_stats();
   sched::end();
   bool nt = false;
   // fatal ones
   for (int t = 0; t < nthreads; ++t) {
      size_t k = 0;
      std::vector<Got> mine;
      for (auto& g : g_fatal)
         if (!expects[t].empty() && g.tid == expects[t][0].first.tid) mine.push_back(g);
      for (auto& ef : expects[t]) {
         if (!ef.second) continue;
         if (k >= mine.size()) pbt::fail("a fatal entry never reached the fatal exit handler");
         compare("fatal exit handler", ef.first, mine[k]);
         // the text is followed by the stack dump section
         string head = ef.first.text + "\n*******\tSTACKDUMP *******\n";
         if (mine[k].text.compare(0, head.size(), head) != 0) pbt::fail("fatal entry text \"%s\" does not start with the message \"%s\" and the stack dump header", show(mine[k].text).c_str(), show(ef.first.text).c_str());
         ++k;
         pbt::label("fatal entries checked");
         nt = true;
      }
      if (k != mine.size()) pbt::fail("%zu fatal entries delivered, %zu raised", mine.size(), k);
   }
   for (int i = 0; i < nsinks; ++i) {
      string who = "sink " + std::to_string(i) + " of " + std::to_string(nsinks);
      std::vector<size_t> next(nthreads, 0);
      size_t seen = 0;
      for (auto& g : recs[i].got) {
         int t = -1;
         for (int k = 0; k < nthreads; ++k)
            if (!expects[k].empty() && expects[k][0].first.tid == g.tid) t = k;
         if (t < 0) pbt::fail("%s: entry from thread id %s, which logged nothing", who.c_str(), g.tid.c_str());
         while (next[t] < expects[t].size() && expects[t][next[t]].second) ++next[t];
         if (next[t] >= expects[t].size()) pbt::fail("%s: received more entries than were logged", who.c_str());
         const Expect& e = expects[t][next[t]++].first;
         compare(who.c_str(), e, g);
         if (g.text != e.text) pbt::fail("%s: text is \"%s\", expected \"%s\"", who.c_str(), show(g.text).c_str(), show(e.text).c_str());
         if (!e.text.empty() || !e.file.empty()) nt = true;
         ++seen;
      }
      size_t due = 0;
      for (auto& v : expects)
         for (auto& e : v) due += !e.second;
      if (seen != due) pbt::fail("%s: received %zu of %zu entries", who.c_str(), seen, due);
      pbt::label("entries checked", seen);
      if (kinds[i] == 1) pbt::label("mutating sinks");
      if (kinds[i] == 2) pbt::label("moving sinks");
      // what a sink kept is still what it received
      if (kinds[i] == 3) {
         size_t k = 0;
         for (auto& m : recs[i].kept) {
            Got g = take(m.get()), &o = recs[i].got[k++];
            if (g.text != o.text || g.path != o.path || g.level != o.level || g.function != o.function) pbt::fail("%s: an entry it kept changed after delivery", who.c_str());
         }
      }
   }
   if (nthreads > 1) pbt::label("cases with several logging threads");
   if (nt) pbt::nontrivial();
}
#endif

#if PROP == 7
// ------------------------------------------------------------------------------------------------------------- P07
namespace {
string custom1(const g3::LogMessage& m) { return "<<" + m.level() + "|" + m.line() + ">>"; }
string custom2(const g3::LogMessage&) { return ""; }
string custom3(const g3::LogMessage& m) { return m.message() + "\t%s%n{}"; }
typedef g3::LogMessage::LogDetailsFunc F;
const F kFuncs[] = {g3::LogMessage::DefaultLogDetailsToString, g3::LogMessage::FullLogDetailsToString, custom1, custom2, custom3};
const int kNF = 5;

string ref_details(const g3::LogMessage& m, int f) {
   std::ostringstream tid;
   tid << m._call_thread_id;
   string head = ref_time(m) + "\t" + m._level.text + " [";
   string tail = m._file + "->" + m._function + ":" + std::to_string(m._line) + "]\t";
   switch (f) {
   case 0: return head + tail;
   case 1: return head + tid.str() + " " + tail;
   case 2: return "<<" + m._level.text + "|" + std::to_string(m._line) + ">>";
   case 3: return "";
   default: return m._message + "\t%s%n{}";
   }
}
string ref_text(const g3::LogMessage& m, int f) {
   int v = m._level.value;
   if (v < 1000) return ref_details(m, f) + m._message + "\n";
   if (v == 2001) return ref_time(m) + "\n\n***** FATAL SIGNAL RECEIVED ******* \n" + m._message + "\n";
   if (v == 2002) return ref_time(m) + "\n\n***** FATAL EXCEPTION RECEIVED ******* \n" + m._message + "\n";
   if (v == 1000) return ref_details(m, f) + "\n\t*******\t EXIT trigger caused by LOG(FATAL) entry: \n\t\"" + m._message + "\"";
   if (v == 2000) return ref_details(m, f) + "\n\t*******\t EXIT trigger caused by broken Contract: CHECK(" + m._expression + ")\n\t\"" + m._message + "\"";
   return ref_details(m, f) + "\t*******UNKNOWN or Custom made Log Message Type\n\t" + m._message + "\n";
}
struct StrSink {
   std::vector<string>* out;
   explicit StrSink(std::vector<string>* o) : out(o) {}
   void recv(string s) { out->push_back(s); }
};
struct MsgSink {
   std::vector<string>* out;
   std::vector<g3::LogMessage>* msgs;
   std::vector<int> seq;
   MsgSink(std::vector<string>* o, std::vector<g3::LogMessage>* m, std::vector<int> q) : out(o), msgs(m), seq(q) {}
   void recv(g3::LogMessageMover m) {
      msgs->push_back(m.get());
      for (int f : seq) out->push_back(f < 0 ? m.get().toString() : m.get().toString(kFuncs[f]));
   }
};
string slurp(const string& p) {
   std::ifstream f(p, std::ios::binary);
   std::stringstream b;
   b << f.rdbuf();
   return b.str();
}
}  // namespace
void pbt_init() {
   static std::ostringstream sink;
   std::cout.rdbuf(sink.rdbuf());
}

static const char* const kZones[] = {"UTC0", "EST5EDT,M3.2.0,M11.1.0", "<+0545>-5:45", "CET-1CEST,M3.5.0,M10.5.0/3", "<-12>12"};
static void direct(pbt::Source& s) {
   setenv("TZ", kZones[s.below(5)], 1);
   tzset();
   LEVELS lv = gen_level(s, true);
   g3::LogMessage m(gen_path(s), gen_line(s), gen_name(s, 20), lv);
   m.write() = gen_text(s, s.chance(1, 10) ? 5000 : 80);
   if (s.boolean()) m._timestamp = g3::high_resolution_time_point(std::chrono::nanoseconds((long long)s.below(4000000000000000000ull)));
   if (m.wasFatal() != (lv.value >= 1000)) pbt::fail("wasFatal() of a level-%d entry is %d", lv.value, m.wasFatal());
   if (s.boolean()) m.setExpression(gen_name(s, 20));
   std::unique_ptr<g3::FatalMessage> fm;
   const g3::LogMessage* pm = &m;
   if (s.chance(1, 4)) {
      int sig = s.chance(1, 2) ? std::vector<int>{6, 8, 4, 11, 15}[s.below(5)] : int(s.below(80));
      fm.reset(new g3::FatalMessage(m, sig));
      pm = fm.get();
      string reason = sig == 6 ? "SIGABRT" : sig == 8 ? "SIGFPE" : sig == 4 ? "SIGILL" : sig == 11 ? "SIGSEGV" : sig == 15 ? "SIGTERM" : "UNKNOWN SIGNAL(" + std::to_string(sig) + ") for " + lv.text;
      if (fm->reason() != reason) pbt::fail("reason() of a fatal entry of signal %d is \"%s\", expected \"%s\"", sig, show(fm->reason()).c_str(), show(reason).c_str());
      const string system = strsignal(sig);
      if (g3::signalToStr(sig) != system) pbt::fail("signalToStr(%d) is \"%s\", expected \"%s\"", sig, show(g3::signalToStr(sig)).c_str(), show(system).c_str());
      pbt::label("FatalMessage objects");
   }
   pbt::describe("level %d '%s' text '%s'; formats", lv.value, show(lv.text).c_str(), show(m.message()).c_str());
   size_t n = 1 + s.below(6);
   std::vector<g3::LogMessage> copies;
   for (size_t i = 0; i < n; ++i) {
      int op = int(s.below(8));
      if (op <= kNF) {
         int f = op - 1;  // -1 = default argument
         string got = f < 0 ? pm->toString() : pm->toString(kFuncs[f]);
         string want = ref_text(*pm, f < 0 ? 0 : f);
         pbt::describe(" %d", f);
         if (got != want) pbt::fail("toString(%s) of a level-%d entry (step %zu) gives \"%s\", expected \"%s\"", f < 0 ? "" : ("function " + std::to_string(f)).c_str(), lv.value, i, show(got).c_str(), show(want).c_str());
         pbt::label(lv.value < 1000 ? "ordinary" : lv.value == 1000 ? "FATAL" : lv.value == 2000 ? "CONTRACT" : lv.value == 2001 ? "FATAL_SIGNAL" : lv.value == 2002 ? "FATAL_EXCEPTION" : "custom fatal");
      } else if (op == 6) {
         pm->overrideLogDetailsFunc(kFuncs[s.below(kNF)]);
      } else {
         copies.push_back(*pm);
         string got = copies.back().toString(kFuncs[1]);
         if (got != ref_text(*pm, 1)) pbt::fail("toString(full details) of a copy gives \"%s\", expected \"%s\"", show(got).c_str(), show(ref_text(*pm, 1)).c_str());
      }
   }
   if (pm->timestamp() != ref_time(*pm)) pbt::fail("timestamp() is \"%s\", expected \"%s\"", pm->timestamp().c_str(), ref_time(*pm).c_str());
   if (m.message().size()) pbt::nontrivial();
}

static void pipeline(pbt::Source& s) {
   setenv("TZ", kZones[s.below(5)], 1);
   tzset();
   // several sinks formatting the same entries in different ways, plus a file sink
   int nmsg = 1 + int(s.below(3)), nstr = 1 + int(s.below(2));
   std::vector<std::vector<string>> outs(nmsg + nstr);
   std::vector<std::vector<g3::LogMessage>> msgs(nmsg);
   std::vector<std::vector<int>> seqs;
   bool with_file = s.boolean();
   string dir = string(pbt::scratch()) + "/p" + std::to_string(pbt::case_index());
   string path;
   std::vector<int> file_f;
   std::vector<g3::LogMessage> ref;
   auto worker = g3::LogWorker::createLogWorker();
   std::vector<std::unique_ptr<g3::SinkHandle<StrSink>>> keep;
   for (int i = 0; i < nmsg; ++i) {
      std::vector<int> q;
      size_t n = 1 + s.below(3);
      for (size_t k = 0; k < n; ++k) q.push_back(int(s.below(kNF + 1)) - 1);
      seqs.push_back(q);
      worker->addSink(std::make_unique<MsgSink>(&outs[i], &msgs[i], q), &MsgSink::recv);
   }
   for (int i = 0; i < nstr; ++i) worker->addSink(std::make_unique<StrSink>(&outs[nmsg + i]), &StrSink::recv);
   std::unique_ptr<g3::FileSinkHandle> fh;
   if (with_file) {
      mkdir(dir.c_str(), 0755);
      fh = worker->addDefaultLogger("p", dir);
      path = fh->call(&g3::FileSink::fileName).get();
      fh->call(&g3::FileSink::overrideLogHeader, string("HEADER\n")).get();
   }
   g3::initializeLogging(worker.get());
   int cur = 0;
   size_t n = 1 + s.size(8);
   for (size_t i = 0; i < n; ++i) {
      if (with_file && s.chance(1, 4)) {
         cur = int(s.below(kNF));
         static std::vector<string> none;
         worker->removeSink(worker->addSink(std::make_unique<StrSink>(&none), &StrSink::recv));  // entries so far are at the file sink
         fh->call(&g3::FileSink::overrideLogDetails, kFuncs[cur]).get();
      }
      string f = gen_path(s), fn = gen_text(s, 10), txt = gen_text(s, 50);
      LEVELS lv = gen_level(s, false);
      int line = gen_line(s);
      { LogCapture c(f.c_str(), line, fn.c_str(), lv); c.stream() << txt; }
      file_f.push_back(cur);
   }
   pbt::describe("pipeline: %d message sinks, %d string sinks, file %d, %zu entries", nmsg, nstr, with_file, n);
   worker.reset();
   for (int i = 0; i < nmsg; ++i) {
      if (msgs[i].size() != n) pbt::fail("sink %d received %zu of %zu entries", i, msgs[i].size(), n);
      size_t o = 0;
      for (auto& m : msgs[i])
         for (int f : seqs[i]) {
            string want = ref_text(m, f < 0 ? 0 : f);
            if (outs[i][o] != want) pbt::fail("sink %d formatted an entry as \"%s\", expected \"%s\"", i, show(outs[i][o]).c_str(), show(want).c_str());
            ++o;
         }
   }
   for (int i = 0; i < nstr; ++i) {
      auto& v = outs[nmsg + i];
      if (v.size() != n) pbt::fail("string sink received %zu of %zu entries", v.size(), n);
      for (size_t k = 0; k < n; ++k)
         if (v[k] != ref_text(msgs[0][k], 0)) pbt::fail("string sink received \"%s\", expected \"%s\"", show(v[k]).c_str(), show(ref_text(msgs[0][k], 0)).c_str());
   }
   if (with_file) {
      string c = slurp(path), want;
      for (size_t k = 0; k < n; ++k) want += ref_text(msgs[0][k], file_f[k]);
      if (c.find(want) == string::npos) pbt::fail("the log file does not hold the entries formatted with the details functions in force; file: \"%s\" expected entries: \"%s\"", pbt::show(c, 1500).c_str(), pbt::show(want, 1500).c_str());
      unlink(path.c_str());
      rmdir(dir.c_str());
      pbt::label("pipelines with a file sink");
   }
   pbt::label("pipelines");
   pbt::nontrivial();
}
void pbt_case(pbt::Source& s) {
   if (s.chance(1, 12)) pipeline(s);
   else direct(s);
}
#endif

#if PROP == 23
// ------------------------------------------------------------------------------------------------------------- P23
namespace {
string det1(const g3::LogMessage& m) { return "D1" + m.level(); }
string det2(const g3::LogMessage&) { return "D2"; }
const g3::LogMessage::LogDetailsFunc kF[] = {g3::LogMessage::DefaultLogDetailsToString, g3::LogMessage::FullLogDetailsToString, det1, det2};
struct Model {
   bool known = true;  // false after being moved from
   string file, path, function, expr, msg, ltext;
   int line = 0, lvalue = 0, fn = 0, sig = 0;
   long long ts = 0;
   std::thread::id tid;
};
string dump(const g3::LogMessage& m) {
   std::ostringstream o;
   int fn = -1;
   for (int i = 0; i < 4; ++i)
      if (m._logDetailsToStringFunc == kF[i]) fn = i;
   o << "file=" << show(m.file()) << " path=" << show(m.file_path()) << " line=" << m.line() << " function=" << show(m.function()) << " level=" << m._level.value << "/" << show(m.level()) << " expr=" << show(m.expression())
     << " msg=" << show(m.message()) << " tid=" << m.threadID() << " ts=" << m._timestamp.time_since_epoch().count() << " details=" << fn;
   return o.str();
}
string dump(const Model& m) {
   std::ostringstream o;
   o << "file=" << show(m.file) << " path=" << show(m.path) << " line=" << m.line << " function=" << show(m.function) << " level=" << m.lvalue << "/" << show(m.ltext) << " expr=" << show(m.expr) << " msg=" << show(m.msg) << " tid=";
   o << m.tid << " ts=" << m.ts << " details=" << m.fn;
   return o.str();
}
void verify(const char* op, int slot, const g3::LogMessage& a, const Model& m) {
   if (!m.known) return;
   if (dump(a) != dump(m)) pbt::fail("after %s: slot %d reads\n  %s\nexpected\n  %s", op, slot, dump(a).c_str(), dump(m).c_str());
   // what formatting shows
   string got = g3::LogMessage::normalToString(a), want = kF[m.fn](a) + m.msg + "\n";
   if (got != want) pbt::fail("after %s: slot %d formats as %s, expected %s", op, slot, show(got).c_str(), show(want).c_str());
}
std::thread::id other_thread() {
   std::thread::id r;
   std::thread t([&] { r = std::this_thread::get_id(); });
   t.join();
   return r;
}
}  // namespace
void pbt_init() {}

static std::unique_ptr<g3::LogMessage> fresh(pbt::Source& s, Model& m) {
   m = Model();
   m.path = gen_path(s);
   m.file = base_of(m.path);
   m.function = gen_text(s, 30);
   m.line = gen_line(s);
   LEVELS lv = gen_level(s, true);
   m.lvalue = lv.value, m.ltext = lv.text;
   m.msg = gen_text(s, s.chance(1, 8) ? 3000 : 40);
   auto p = std::make_unique<g3::LogMessage>(m.path, m.line, m.function, lv);
   p->write() = m.msg;
   if (s.boolean()) p->setExpression(m.expr = gen_text(s, 30));
   m.fn = int(s.below(4));
   p->overrideLogDetailsFunc(kF[m.fn]);
   p->_timestamp = g3::high_resolution_time_point(std::chrono::nanoseconds(m.ts = (long long)s.below(4000000000000000000ull)));
   static std::thread::id ids[3] = {std::this_thread::get_id(), other_thread(), std::thread::id()};
   p->_call_thread_id = m.tid = ids[s.below(3)];
   return p;
}

static void messages(pbt::Source& s) {
   const int N = 3;
   std::unique_ptr<g3::LogMessage> v[N];
   Model m[N];
   for (int i = 0; i < N; ++i) v[i] = fresh(s, m[i]);
   int transfers = 0;
   size_t n = 1 + s.size(14);
   for (size_t k = 0; k < n; ++k) {
      int i = int(s.below(N)), j = int(s.below(N));
      const char* name = "";
      switch (s.below(11)) {
      case 0:
         name = "copy assignment";
         pbt::describe("v%d=v%d; ", i, j);
         if (!m[j].known) break;
         *v[i] = *v[j];
         m[i] = m[j];
         transfers += i != j;
         break;
      case 1:
         name = "copy construction";
         pbt::describe("v%d=new(v%d); ", i, j);
         if (!m[j].known) break;
         v[i] = std::make_unique<g3::LogMessage>(*v[j]);
         m[i] = m[j];
         transfers += i != j;
         break;
      case 2: {
         name = "move construction";
         pbt::describe("v%d=new(move(v%d)); ", i, j);
         if (i == j || !m[j].known) break;
         v[i] = std::make_unique<g3::LogMessage>(std::move(*v[j]));
         m[i] = m[j];
         m[j].known = false;
         ++transfers;
         break;
      }
      case 3:
         name = "move assignment";
         pbt::describe("v%d=move(v%d); ", i, j);
         if (i == j || !m[j].known) break;
         *v[i] = std::move(*v[j]);
         m[i] = m[j];
         m[j].known = false;
         ++transfers;
         break;
      case 4: {
         name = "swap";
         pbt::describe("swap(v%d,v%d); ", i, j);
         using std::swap;
         swap(*v[i], *v[j]);
         std::swap(m[i], m[j]);
         transfers += i != j;
         break;
      }
      case 5: {
         name = "modification";
         int what = int(s.below(4));
         pbt::describe("modify(v%d); ", i);
         string t = gen_text(s, 20);
         if (!m[i].known) break;
         if (what == 0) v[i]->write() += t, m[i].msg += t;
         if (what == 1) v[i]->setExpression(t), m[i].expr = t;
         if (what == 2) v[i]->_level = LEVELS(m[i].lvalue = int(s.below(3000)), m[i].ltext = t);
         if (what == 3) v[i]->overrideLogDetailsFunc(kF[m[i].fn = int(s.below(4))]);
         break;
      }
      case 6: {
         name = "fatal copy";
         if (!m[j].known) break;
         int sig = int(s.below(64));
         pbt::describe("v%d=Fatal(v%d,%d).copy; ", i, j, sig);
         g3::FatalMessage f(*v[j], sig);
         verify("FatalMessage construction", j, f, m[j]);
         g3::FatalMessage f2(f);
         verify("FatalMessage copy", j, f2, m[j]);
         if (f._signal_id != sig || f2._signal_id != sig) pbt::fail("FatalMessage signal is %d / %d, expected %d", f._signal_id, f2._signal_id, sig);
         if (f.reason() != f2.reason()) pbt::fail("FatalMessage copy has another reason");
         g3::LogMessage back = f2.copyToLogMessage();
         verify("copyToLogMessage", j, back, m[j]);
         f2.write() += "x";
         verify("modifying a fatal copy", j, f, m[j]);
         v[i] = std::make_unique<g3::LogMessage>(back);
         m[i] = m[j];
         transfers += i != j;
         break;
      }
      case 7: {
         name = "LogMessageMover";
         pbt::describe("v%d=mover(v%d); ", i, j);
         if (i == j || !m[j].known) break;
         g3::LogMessageMover a(g3::LogMessage(*v[j]));
         g3::LogMessageMover b(a);   // moves
         verify("move-on-copy copy", j, b.get(), m[j]);
         g3::LogMessageMover c(std::move(b));
         verify("move-on-copy move", j, c.get(), m[j]);
         g3::LogMessageMover d(g3::LogMessage("x", 1, "y", INFO));
         if (s.boolean()) d = c;
         else d = std::move(c);
         verify("move-on-copy assignment", j, d.get(), m[j]);
         v[i] = std::make_unique<g3::LogMessage>(d.release());
         m[i] = m[j];
         ++transfers;
         break;
      }
      case 8: {
         name = "LogMessagePtr";
         pbt::describe("v%d=ptr(v%d); ", i, j);
         if (i == j || !m[j].known) break;
         g3::LogMessagePtr a{std::move(v[j])};
         const g3::LogMessage* raw = a.get().get();
         g3::LogMessagePtr b(a);
         if (a.get()) pbt::fail("the wrapper copied from still owns the message");
         g3::LogMessagePtr c{std::make_unique<g3::LogMessage>("x", 1, "y", INFO)};
         c = b;
         if (b.get()) pbt::fail("the wrapper assigned from still owns the message");
         if (c.get().get() != raw) pbt::fail("the message changed identity in the wrapper");
         v[i] = c.release();
         if (c.get()) pbt::fail("release leaves the message in the wrapper");
         m[i] = m[j];
         m[j] = Model();
         v[j] = fresh(s, m[j]);
         ++transfers;
         break;
      }
      case 9: {
         name = "fresh value";
         v[i] = fresh(s, m[i]);
         break;
      }
      default: {
         name = "vector growth";
         pbt::describe("vector(v%d); ", j);
         if (!m[j].known) break;
         std::vector<g3::LogMessage> q;
         for (int t = 0; t < 5; ++t) q.push_back(*v[j]);
         q.erase(q.begin());
         for (auto& e : q) verify("vector growth and erase", j, e, m[j]);
         v[i] = std::make_unique<g3::LogMessage>(q[s.below(4)]);
         m[i] = m[j];
         transfers += i != j;
      }
      }
      for (int t = 0; t < N; ++t) verify(name, t, *v[t], m[t]);
   }
   pbt::label("transfers", transfers);
   if (transfers >= 2) pbt::nontrivial();
}

static void levels(pbt::Source& s) {
   const int N = 3;
   std::unique_ptr<LEVELS> v[N];
   std::pair<int, string> m[N];
   for (int i = 0; i < N; ++i) {
      m[i] = {int(s.range(-3, 3)), gen_text(s, 3)};
      v[i] = std::make_unique<LEVELS>(m[i].first, m[i].second);
   }
   size_t n = 1 + s.size(12);
   int transfers = 0;
   for (size_t k = 0; k < n; ++k) {
      int i = int(s.below(N)), j = int(s.below(N));
      switch (s.below(5)) {
      case 0: *v[i] = *v[j]; m[i] = m[j]; break;
      case 1: v[i] = std::make_unique<LEVELS>(LEVELS(*v[j])); m[i] = m[j]; break;
      case 2: { using std::swap; swap(*v[i], *v[j]); std::swap(m[i], m[j]); break; }
      case 3: { string t = m[j].second; v[i]->value = m[i].first = int(s.range(-3, 3)); v[i]->text = m[i].second = t; break; }
      default: {
         g3::LoggingLevel a(*v[j], s.boolean()), b;
         b = a;
         g3::LoggingLevel c(b);
         if (!(c == a) || !(b == a)) pbt::fail("LoggingLevel copy differs from its source");
         if (c.level.value != m[j].first || c.level.text != m[j].second) pbt::fail("LoggingLevel copy has another level");
         *v[i] = c.level;
         m[i] = m[j];
      }
      }
      transfers += i != j;
      for (int a = 0; a < N; ++a) {
         if (v[a]->value != m[a].first || v[a]->text != m[a].second) pbt::fail("level slot %d reads %d/%s, expected %d/%s", a, v[a]->value, show(v[a]->text).c_str(), m[a].first, show(m[a].second).c_str());
         for (int b = 0; b < N; ++b) {
            bool eq = m[a] == m[b];
            if ((*v[a] == *v[b]) != eq || (*v[a] != *v[b]) == eq) pbt::fail("level comparison of %d/%s and %d/%s is wrong", m[a].first, show(m[a].second).c_str(), m[b].first, show(m[b].second).c_str());
         }
      }
   }
   pbt::describe("levels: %zu ops", n);
   pbt::label("level sequences");
   if (transfers >= 2) pbt::nontrivial();
}
void pbt_case(pbt::Source& s) {
   if (s.chance(1, 5)) levels(s);
   else messages(s);
}
#endif
