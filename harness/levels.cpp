// P09: level settings against a reference model (built with and without G3_DYNAMIC_LOGGING).
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>

#include <atomic>
#include <condition_variable>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <thread>

#include "pbt.hpp"
#include "sched.hpp"

const char* pbt_rule = "sequences of add/set/enable/disable/all/set-highest/reset, queries and log calls over default, custom and unknown levels; non-trivial: >=2 changes of settings and >=1 query or log call that saw a disabled or absent level (dynamic build), >=2 log calls (static build)";
int pbt_default_batch = 400;
double pbt_hang_s = 40;
bool pbt_hang_is_violation = true;
using std::string;

namespace {
std::mutex g_m;
std::condition_variable g_cv;
std::vector<std::pair<string, int>> g_got;  // message, level value
std::vector<std::pair<string, int>> g_fatal;
struct Sink {
   int ping() { return 1; }
   void recv(g3::LogMessageMover m) {
      std::lock_guard<std::mutex> l(g_m);
      g_got.push_back({m.get().message(), m.get()._level.value});
      g_cv.notify_all();
   }
};
struct Nop {
   void recv(g3::LogMessageMover) {}
};
std::unique_ptr<g3::LogWorker> g_worker;
std::unique_ptr<g3::SinkHandle<Sink>> g_sink;
}  // namespace

void pbt_init() {
   if (sched::kActive) {
      LOG(INFO) << "first";  // kept for the first worker: get that over with
      auto w = g3::LogWorker::createLogWorker();
      g3::initializeLogging(w.get());
      return;
   }
   g_worker = g3::LogWorker::createLogWorker();
   g_sink = g_worker->addSink(std::make_unique<Sink>(), &Sink::recv);
   g3::initializeLogging(g_worker.get());
   g3::setFatalExitHandler([](g3::FatalMessagePtr m) {
      std::lock_guard<std::mutex> l(g_m);
      string t = m.get()->message();
      g_fatal.push_back({t.substr(0, t.find('\n')), m.get()->_level.value});
   });
}
static void drain() {
   g_worker->removeSink(g_worker->addSink(std::make_unique<Nop>(), &Nop::recv));  // through the worker's queue
   g_sink->call(&Sink::ping).get();  // through the sink's queue
}

namespace {
struct Entry {
   bool enabled;
   std::set<string> names;  // any name given for this value is acceptable
};
typedef std::map<int, Entry> Model;
Model defaults() {
   Model m;
   m[100] = {true, {"DEBUG"}};
   m[300] = {true, {"INFO"}};
   m[500] = {true, {"WARNING"}};
   m[1000] = {true, {"FATAL"}};
   return m;
}
LEVELS gen_level(pbt::Source& s) {
   switch (s.below(8)) {
   case 0: return INFO;
   case 1: return G3LOG_DEBUG;
   case 2: return WARNING;
   case 3: return FATAL;
   case 4: return LEVELS(s.boolean() ? 301 : 299, "NEAR");
   case 5: return LEVELS(int(s.range(-3, 3)), "small");
   case 6: {
      static const int v[] = {300, 100, 500, 1000, 999, 1001, 2000, 2001, 2147483647, -2147483647 - 1};
      return LEVELS(v[s.below(10)], "other");
   }
   default: return LEVELS(int(s.below(8)) * 200 + 100 + int(s.below(2)), s.boolean() ? "custom" : "a rather long custom level name, beyond small strings");
   }
}

#ifdef G3_DYNAMIC_LOGGING
// Threads switch levels of their own on and off while all of them log and query: each level follows its owner's operations,
// and levels nobody touches keep their setting.
struct COp {
   int k, level;  // index into the levels
};
void concurrent(pbt::Source& s) {
   using namespace g3;
   only_change_at_initialization::reset();
   const bool small = sched::kActive;
   int nt = 2 + int(s.below(small ? 2 : 4)), per_level = 1 + int(s.below(3)), nfixed = 1 + int(s.below(4));
   static const int defs[] = {100, 300, 500};
   std::vector<LEVELS> lv;
   std::vector<int> owner, init;
   int base = int(s.below(3));
   for (int i = 0; i < nt * per_level + nfixed; ++i) {
      int v = i < 3 && base ? defs[i] : base == 2 ? 301 + i : 10 + i * 37 % 900 + 1;
      if (v == 100 || v == 300 || v == 500) v = i < 3 && base ? v : v + 1;
      bool used = false;
      for (auto& l : lv) used |= l.value == v;
      if (used) v = 5000 - i - 4999 - 200;
      lv.push_back(LEVELS(v, "L" + std::to_string(i)));
      owner.push_back(i < nt * per_level ? i % nt : -1);
      init.push_back(int(s.below(2)));
   }
   std::vector<std::vector<COp>> script(size_t(nt) + 0);
   size_t total = 0;
   for (int t = 0; t < nt; ++t) {
      int n = small ? 1 + int(s.below(5)) : 1 + int(s.size(300));
      for (int i = 0; i < n; ++i) {
         COp o;
         unsigned r = unsigned(s.below(10));
         o.k = r < 5 ? int(r % 3) : r < 8 ? 3 : r == 8 ? 4 : 5;  // enable, disable, set; log; getStatus; getAll
         if (o.k < 3 || s.below(2)) o.level = t + nt * int(s.below(uint64_t(per_level)));
         else o.level = nt * per_level + int(s.below(uint64_t(nfixed)));
         if (o.k == 2) o.k += 100 * int(s.below(2));
         script[size_t(t)].push_back(o);
      }
      total += size_t(n);
   }
   pbt::describe("%d threads switch %d of %zu levels, %zu operations", nt, nt * per_level, lv.size(), total);
   sched::begin(s);
   std::unique_ptr<g3::LogWorker> worker;
   if (small) {
      worker = g3::LogWorker::createLogWorker();
      worker->addSink(std::make_unique<Sink>(), &Sink::recv);
      g3::initializeLogging(worker.get());
   }
   for (size_t i = 0; i < lv.size(); ++i) only_change_at_initialization::addLogLevel(lv[i], init[i]);
   std::vector<std::vector<string>> want(size_t(nt) + 0), wrong(size_t(nt) + 0);
   std::vector<int> last(init);
   std::vector<std::thread> th;
   for (int t = 0; t < nt; ++t)
      th.emplace_back([&, t] {
         std::map<int, int> mine;
         for (size_t i = 0; i < lv.size(); ++i)
            if (owner[i] == t || owner[i] < 0) mine[int(i)] = init[i];
         auto bad = [&](size_t i, int l, const char* what, int got) { wrong[size_t(t)].push_back("operation " + std::to_string(i) + " of thread " + std::to_string(t) + ": level " + std::to_string(lv[size_t(l)].value) + " " + what + " " + std::to_string(got) + ", expected " + std::to_string(mine[l])); };
         for (size_t i = 0; i < script[size_t(t)].size(); ++i) {
            COp o = script[size_t(t)][i];
            const LEVELS& l = lv[size_t(o.level)];
            switch (o.k) {
            case 0: log_levels::enable(l); mine[o.level] = 1; break;
            case 1: log_levels::disable(l); mine[o.level] = 0; break;
            case 2: log_levels::set(l, false); mine[o.level] = 0; break;
            case 102: log_levels::set(l, true); mine[o.level] = 1; break;
            case 3: {
               string x = "t" + std::to_string(t) + "." + std::to_string(i);
               if (i % 2) LOG(l) << x;
               else LOGF(l, "%s", x.c_str());
               if (mine[o.level]) want[size_t(t)].push_back(x);
               break;
            }
            case 4: {
               int st = log_levels::getStatus(l) == log_levels::status::Enabled;
               if (st != mine[o.level]) bad(i, o.level, "has status", st);
               if (g3::logLevel(l) != (mine[o.level] != 0)) bad(i, o.level, "is enabled:", !mine[o.level]);
               break;
            }
            case 5: {
               auto all = log_levels::getAll();
               for (auto& m : mine) {
                  auto it = all.find(lv[size_t(m.first)].value);
                  int v = it == all.end() ? -1 : int(it->second.status.value());
                  if (v != m.second) bad(i, m.first, "is in the snapshot as", v);
               }
            }
            }
         }
         for (auto& m : mine)
            if (owner[size_t(m.first)] == t) last[size_t(m.first)] = m.second;
      });
   for (auto& t : th) t.join();
   auto snap = log_levels::getAll();
   if (small) worker.reset();
   else drain();
   sched::end();
   only_change_at_initialization::reset();
   for (auto& w : wrong)
      for (auto& x : w) pbt::fail("%s", x.c_str());
   for (size_t i = 0; i < lv.size(); ++i) {
      auto it = snap.find(lv[i].value);
      PBT_ASSERT(it != snap.end(), "level %d vanished", lv[i].value);
      PBT_ASSERT(int(it->second.status.value()) == last[i], "level %d is %s at the end, its last setting was %d", lv[i].value, it->second.status.value() ? "enabled" : "disabled", last[i]);
   }
   std::lock_guard<std::mutex> l(g_m);
   std::vector<size_t> next(want.size());
   size_t n = 0;
   for (auto& g : g_got) {
      size_t t = size_t(atoi(g.first.c_str() + 1));
      PBT_ASSERT(t < want.size() && next[t] < want[t].size() && want[t][next[t]] == g.first, "delivered: %s, expected next of that thread: %s", g.first.c_str(), t < want.size() && next[t] < want[t].size() ? want[t][next[t]].c_str() : "none");
      ++next[t];
      ++n;
   }
   for (size_t t = 0; t < want.size(); ++t) PBT_ASSERT(next[t] == want[t].size(), "entry %s was never delivered", want[t][next[t]].c_str());
   if (total > n && n) pbt::nontrivial();
   pbt::label("concurrent histories");
   pbt::label("concurrent operations", total);
}
#endif
}  // namespace

void pbt_case(pbt::Source& s) {
   {
      std::lock_guard<std::mutex> l(g_m);
      g_got.clear();
      g_fatal.clear();
   }
#ifdef G3_DYNAMIC_LOGGING
   if (sched::kActive || s.chance(1, 40)) {
      concurrent(s);
      return;
   }
#endif
   std::vector<std::pair<string, int>> want, want_fatal;
   int changes = 0, negative = 0, logs = 0;
#ifdef G3_DYNAMIC_LOGGING
   using namespace g3;
   only_change_at_initialization::reset();
   Model m = defaults();
   std::set<int> touched;
   auto on = [&](const LEVELS& l) {
      auto it = m.find(l.value);
      return it != m.end() && it->second.enabled;
   };
   auto check_all = [&](const char* after) {
      auto snap = log_levels::getAll();
      string where = string("after ") + after + ": ";
      for (auto& kv : m) {
         auto it = snap.find(kv.first);
         if (it == snap.end()) pbt::fail("%slevel %d is missing from the snapshot", where.c_str(), kv.first);
         if (it->second.status.value() != kv.second.enabled) pbt::fail("%slevel %d is reported %s in the snapshot, expected %s", where.c_str(), kv.first, it->second.status.value() ? "enabled" : "disabled", kv.second.enabled ? "enabled" : "disabled");
         if (it->second.level.value != kv.first) pbt::fail("%ssnapshot entry %d holds level value %d", where.c_str(), kv.first, it->second.level.value);
         if (!kv.second.names.count(it->second.level.text)) pbt::fail("%slevel %d is named \"%s\", a name it was never given", where.c_str(), kv.first, pbt::show(it->second.level.text).c_str());
      }
      for (auto& kv : snap)
         if (!m.count(kv.first)) pbt::fail("%slevel %d appears in the snapshot (status %d) though it was never added", where.c_str(), kv.first, int(kv.second.status.value()));
      string want_text;
      for (auto& kv : m) want_text += "name: " + snap[kv.first].level.text + " level: " + std::to_string(kv.first) + " status: " + (kv.second.enabled ? "1" : "0") + "\n";
      string t1 = log_levels::to_string(), t2 = log_levels::to_string(snap);
      if (t1 != want_text || t2 != want_text) pbt::fail("%sprinted levels are \"%s\" / \"%s\", expected \"%s\"", where.c_str(), pbt::show(t1).c_str(), pbt::show(t2).c_str(), pbt::show(want_text).c_str());
      std::set<int> probe = touched;
      for (auto& kv : m) probe.insert(kv.first);
      for (int v : probe) {
         auto st = log_levels::getStatus(LEVELS(v, "probe"));
         auto it = m.find(v);
         auto w = it == m.end() ? log_levels::status::Absent : it->second.enabled ? log_levels::status::Enabled : log_levels::status::Disabled;
         if (st != w) pbt::fail("%sgetStatus(%d) is %d, expected %d (0 absent, 1 enabled, 2 disabled)", where.c_str(), v, int(st), int(w));
      }
   };
   size_t n = 1 + s.size(20);
   for (size_t i = 0; i < n; ++i) {
      LEVELS l = gen_level(s);
      touched.insert(l.value);
      string name;
      switch (s.below(14)) {
      case 0: case 1: {
         bool e = s.below(3) != 0;
         name = "addLogLevel(" + std::to_string(l.value) + "," + (e ? "true" : "false") + ")";
         if (e && s.boolean()) only_change_at_initialization::addLogLevel(l);
         else only_change_at_initialization::addLogLevel(l, e);
         m[l.value].enabled = e;
         m[l.value].names.insert(l.text);
         ++changes;
         break;
      }
      case 2: case 3: {
         bool e = s.boolean();
         int how = int(s.below(2));
         name = string(how ? "set" : e ? "enable" : "disable") + "(" + std::to_string(l.value) + (how ? e ? ",true)" : ",false)" : ")");
         if (how) log_levels::set(l, e);
         else if (e) log_levels::enable(l);
         else log_levels::disable(l);
         if (m.count(l.value)) {
            m[l.value].enabled = e;
            m[l.value].names.insert(l.text);
            ++changes;
         }
         break;
      }
      case 4:
         name = "enableAll";
         log_levels::enableAll();
         for (auto& kv : m) kv.second.enabled = true;
         ++changes;
         break;
      case 5:
         name = "disableAll";
         log_levels::disableAll();
         for (auto& kv : m) kv.second.enabled = false;
         ++changes;
         break;
      case 6: case 7:
         name = "setHighest(" + std::to_string(l.value) + ")";
         log_levels::setHighest(l);
         if (m.count(l.value)) {
            for (auto& kv : m) kv.second.enabled = kv.first >= l.value;
            ++changes;
         }
         break;
      case 8:
         if (s.below(3)) break;
         name = "reset";
         only_change_at_initialization::reset();
         m = defaults();
         ++changes;
         break;
      case 9: {
         name = "logLevel(" + std::to_string(l.value) + ")";
         bool got = g3::logLevel(l);
         if (got != on(l)) pbt::fail("logLevel(%d) is %d, expected %d after: %s", l.value, got, on(l), pbt::shm->desc);
         if (!on(l)) ++negative;
         break;
      }
      default: {
         string t = "m" + std::to_string(i);
         int how = int(s.below(4));
         name = (how == 3 ? "LOG_IF(false," : "log(") + std::to_string(l.value) + ")";
         if (how == 0) LOG(l) << t;
         else if (how == 1) LOGF(l, "%s", t.c_str());
         else if (how == 2) LOG_IF(l, s.below(2) < 2) << t;
         else LOGF_IF(l, touched.empty(), "%s", t.c_str());
         if (on(l) && how != 3) (l.value >= 1000 ? want_fatal : want).push_back({t, l.value});
         if (!on(l)) ++negative;
         ++logs;
      }
      }
      if (name.empty()) continue;
      pbt::describe("%s; ", name.c_str());
      if (s.chance(1, 3) || i + 1 == n) check_all(name.c_str());
   }
   only_change_at_initialization::reset();
   if (changes >= 2 && negative >= 1) pbt::nontrivial();
   pbt::label("setting changes", changes);
   pbt::label("disabled or absent levels used", negative);
#else
   size_t n = 1 + s.size(12);
   for (size_t i = 0; i < n; ++i) {
      LEVELS l = gen_level(s);
      if (!g3::logLevel(l)) pbt::fail("logLevel(%d) is false in a build without dynamic levels", l.value);
      string t = "m" + std::to_string(i);
      switch (s.below(3)) {
      case 0: LOG(l) << t; break;
      case 1: LOGF(l, "%s", t.c_str()); break;
      default: LOG_IF(l, i == i) << t;
      }
      pbt::describe("log(%d); ", l.value);
      (l.value >= 1000 ? want_fatal : want).push_back({t, l.value});
      ++logs;
   }
   if (logs >= 2) pbt::nontrivial();
#endif
   pbt::label("log calls", logs);
   drain();
   std::lock_guard<std::mutex> l(g_m);
   auto cmp = [&](const char* what, std::vector<std::pair<string, int>>& w, std::vector<std::pair<string, int>>& g) {
      for (size_t i = 0; i < w.size() || i < g.size(); ++i)
         if (i >= w.size() || i >= g.size() || w[i] != g[i])
            pbt::fail("%s entries: number %zu is %s (level %d), expected %s (level %d)", what, i, i < g.size() ? g[i].first.c_str() : "missing", i < g.size() ? g[i].second : 0, i < w.size() ? w[i].first.c_str() : "none", i < w.size() ? w[i].second : 0);
   };
   cmp("delivered", want, g_got);
   cmp("fatal", want_fatal, g_fatal);
}
