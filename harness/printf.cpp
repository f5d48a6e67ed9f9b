// P06: printf-style logging against the C library's own formatting.  Built with and without G3_DYNAMIC_MAX_MESSAGE_SIZE.
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>

#include <algorithm>
#include <condition_variable>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <thread>

#include "pbt.hpp"

const char* pbt_rule = "generated formats (flags, width, precision, length, '*', %%, literals) with typed arguments, result lengths steered to the size limit; non-trivial: >=1 conversion, or a result within 3 bytes of the limit or beyond it";
int pbt_default_batch = 400;
double pbt_hang_s = 40;
bool pbt_hang_is_violation = true;
using std::string;

namespace {
struct Arg {
   int type = 0;  // 0 int, 1 long long, 2 double, 3 pointer, 4 long double
   long long i = 0;
   long double d = 0;
   string s;
   std::shared_ptr<std::vector<wchar_t>> w;
   const char* ptr() const { return w ? reinterpret_cast<const char*>(w->data()) : s.c_str(); }
};
struct Plan {
   string fmt;
   std::vector<Arg> args;
   int how = 0;
   int convs = 0;
   string want;
   int len = 0;
   bool rejected = false;
};
size_t g_limit = 2048;

// Hands the arguments over with their real types (the only well-defined way to make a variadic call).
template <class Fn, class... A>
void apply(const Fn& f, const std::vector<Arg>& v, size_t k, A... a) {
   if constexpr (sizeof...(A) >= 3) {
      f(a...);
   } else {
      if (k == v.size()) return f(a...);
      switch (v[k].type) {
      case 0: return apply(f, v, k + 1, a..., int(v[k].i));
      case 1: return apply(f, v, k + 1, a..., (long long)v[k].i);
      case 2: return apply(f, v, k + 1, a..., double(v[k].d));
      case 3: return apply(f, v, k + 1, a..., v[k].ptr());
      default: return apply(f, v, k + 1, a..., (long double)v[k].d);
      }
   }
}
#pragma GCC diagnostic ignored "-Wformat-security"
void reference(Plan& p) {
   std::vector<char> buf(64);
   int n = 0;
   for (int pass = 0; pass < 2; ++pass) {
      apply([&](auto... a) { n = snprintf(buf.data(), buf.size(), p.fmt.c_str(), a...); }, p.args, 0);
      if (n < 0) break;
      if (pass == 0) buf.resize(size_t(n) + 1);
   }
   p.len = n;
   p.rejected = n < 0;
   if (n >= 0) p.want.assign(buf.data(), size_t(n));
}
string text(pbt::Source& s, size_t max) {
   size_t n = s.size(max);
   string r;
   int mode = int(s.below(3));
   for (size_t i = 0; i < n; ++i) {
      unsigned char c = mode == 0 ? 'a' + s.below(26) : mode == 1 ? 32 + s.below(95) : 1 + s.below(255);
      r += char(c);
   }
   return r;
}
long long value(pbt::Source& s) {
   switch (s.below(5)) {
   case 0: return (long long)s.below(100);
   case 1: return -(long long)s.below(100000);
   case 2: return (long long)s.below(0);
   case 3: return (long long)(s.below(0) >> s.below(64));
   default: {
      static const long long b[] = {0, 1, -1, 2147483647, -2147483648LL, 4294967295LL, 9223372036854775807LL, (-9223372036854775807LL - 1), 255, 128};
      return b[s.below(10)];
   }
   }
}
void conversion(pbt::Source& s, Plan& p) {
   Arg a;
   string f = "%";
   static const char* flags = "-+ #0'";
   while (s.chance(1, 4)) f += flags[s.below(6)];
   int kind = int(s.below(8));
   string width;
   bool room = p.args.size() < 2;  // leave room for the argument itself and the filler string
   if (s.chance(1, 3)) {
      if (room && s.chance(1, 4)) {
         Arg w;
         w.type = 0;
         w.i = s.range(-40, 40);
         if (s.chance(1, 20)) w.i = s.range(-5000, 5000);
         p.args.push_back(w);
         room = p.args.size() < 2;
         width = "*";
      } else
         width = std::to_string(s.chance(1, 15) ? s.below(4500) : s.below(40));
   }
   string prec;
   if (s.chance(1, 3)) {
      prec = ".";
      if (room && s.chance(1, 4)) {
         Arg w;
         w.type = 0;
         w.i = s.range(-3, 30);
         p.args.push_back(w);
         prec += "*";
      } else if (s.chance(9, 10))
         prec += std::to_string(s.chance(1, 15) ? s.below(3000) : s.below(25));
   }
   f += width + prec;
   switch (kind) {
   case 0: case 1: case 2: {
      static const char* len[] = {"", "", "hh", "h", "l", "ll", "j", "z", "t"};
      int l = int(s.below(9));
      a.type = l <= 3 ? 0 : 1;
      a.i = value(s);
      f += len[l];
      f += "diuoxX"[s.below(6)];
      break;
   }
   case 3: {
      bool ld = s.chance(1, 4);
      a.type = ld ? 4 : 2;
      if (ld) f += "L";
      switch (s.below(4)) {
      case 0: a.d = (long double)value(s) / 64; break;
      case 1: {
         static const double b[] = {0.0, -0.0, 1.0, 1e308, 5e-324, -1e-10, 123456789.987654321, __builtin_inf(), -__builtin_inf(), __builtin_nan("")};
         a.d = b[s.below(10)];
         break;
      }
      case 2: a.d = (long double)value(s) * 1e30L; break;
      default: a.d = (long double)value(s) / 1e25L;
      }
      f += "fFeEgGaA"[s.below(8)];
      break;
   }
   case 4:
      a.type = 0;
      a.i = 1 + s.below(255);
      f += "c";
      break;
   case 5: case 6:
      a.type = 3;
      a.s = text(s, s.chance(1, 6) ? 4000 : 50);
      f += "s";
      break;
   default:
      if (s.chance(2, 3)) {
         a.type = 3;
         a.s = "pointed";
         f += "p";
      } else {  // wide text, possibly not representable: the C library rejects the call
         a.type = 3;
         a.w = std::make_shared<std::vector<wchar_t>>();
         size_t n = s.below(6);
         for (size_t i = 0; i < n; ++i) a.w->push_back(s.chance(1, 3) ? wchar_t(s.boolean() ? 0x20ac : 0x7ffffff0) : wchar_t('a' + s.below(26)));
         a.w->push_back(0);
         f += "ls";
      }
   }
   p.args.push_back(a);
   p.fmt += f;
   ++p.convs;
}
void literal(pbt::Source& s, Plan& p) {
   for (char c : text(s, s.chance(1, 20) ? 2500 : 12)) {
      if (c == '%') p.fmt += '%';
      p.fmt += c;
   }
}
Plan gen(pbt::Source& s) {
   Plan p;
   p.how = int(s.below(5));
   int n = int(s.below(4));
   for (int i = 0; i < n && p.args.size() < 2; ++i) {
      if (s.boolean()) literal(s, p);
      if (s.chance(1, 8)) p.fmt += "%%";
      conversion(s, p);
   }
   if (s.boolean()) literal(s, p);
   if (s.chance(1, 60)) p.fmt += s.boolean() ? "%99999999999d" : "%.99999999999f";  // rejected: the width overflows
   // steer the length of the result to the limit
   if (s.chance(1, 2) && p.args.size() < 3) {
      Plan q = p;
      reference(q);
      if (!q.rejected) {
         long target = long(g_limit) + s.range(-3, 4);
         if (s.chance(1, 8)) target = long(g_limit) * 2 + s.range(-2, 2);
         if (s.chance(1, 8)) target = long(s.below(12000));
         long need = target - q.len;
         if (need > 0) {
            string fill(size_t(need), 'x');
            for (size_t i = 0; i < fill.size(); ++i) fill[i] = char('A' + i % 57 % 26);
            if (s.boolean()) {
               p.fmt += fill;
            } else {
               Arg a;
               a.type = 3;
               a.s = fill;
               p.fmt += "%s";
               p.args.push_back(a);
               ++p.convs;
            }
         }
      }
   }
   reference(p);
   return p;
}

std::mutex g_m;
std::condition_variable g_cv;
std::map<std::thread::id, std::vector<string>> g_got;
size_t g_n;
void note(std::thread::id t, const string& m) {
   std::lock_guard<std::mutex> l(g_m);
   g_got[t].push_back(m);
   ++g_n;
   g_cv.notify_all();
}
struct Sink {
   void recv(g3::LogMessageMover m) { note(m.get()._call_thread_id, m.get().message()); }
};
std::unique_ptr<g3::LogWorker> g_worker;
const string kDumpMark = "\n*******\tSTACKDUMP *******\n";

void emit(const Plan& p) {
   const char* f = p.fmt.c_str();
   if (p.how <= 2)
      apply([&](auto... a) {
         if (p.how == 2) LOGF_IF(INFO, p.how == 2, f, a...);
         else LOGF(WARNING, f, a...);
      }, p.args, 0);
   else
      apply([&](auto... a) {
         if (p.how == 3) CHECKF(p.how == 2, f, a...);
         else CHECK_F(p.how == 2, f, a...);
      }, p.args, 0);
}
}  // namespace

void pbt_init() {
   g_worker = g3::LogWorker::createLogWorker();
   g_worker->addSink(std::make_unique<Sink>(), &Sink::recv);
   g3::initializeLogging(g_worker.get());
   g3::setFatalExitHandler([](g3::FatalMessagePtr m) {
      string t = m.get()->message();
      size_t p = t.rfind(kDumpMark);
      if (p == string::npos) pbt::fail("fatal message without stack dump section: %s", pbt::show(t).c_str());
      // a second fatal message in the process also carries the notice about a recursive crash; the text comes first
      p = t.find(kDumpMark);
      note(m.get()->_call_thread_id, t.substr(0, p));
   });
}

static void phase(pbt::Source& s) {
   g_got.clear();
   g_n = 0;
#ifdef G3_DYNAMIC_MAX_MESSAGE_SIZE
   static size_t current = 2048;
   // replayed cases start in a fresh process: always set the size first so that the case is self-contained
   size_t lim = s.chance(1, 4) ? 2048 : s.chance(1, 6) ? 1 + s.below(4) : s.chance(1, 8) ? (size_t(1) << s.below(17)) + size_t(s.below(3)) - (s.boolean() ? 1 : 0) : s.chance(1, 4) ? 1 + s.below(9000) : 1 + s.below(300);
   lim = std::max<size_t>(lim, 1);
   g3::only_change_at_initialization::setMaxMessageSize(lim);
   g_limit = current = lim;
#endif
   int nthreads = s.chance(1, 20) ? 2 + int(s.below(2)) : 1;
   std::vector<std::vector<Plan>> plans(nthreads);
   std::vector<std::thread::id> tid(nthreads);
   size_t total = 0;
   for (auto& v : plans) {
      size_t n = nthreads > 1 ? 5 + s.below(10) : 1;
      for (size_t i = 0; i < n; ++i) {
         v.push_back(gen(s));
         if (nthreads > 1) v.back().how %= 3;  // failing contracts in several threads at once: see the fatal checks
      }
      total += n;
   }
   auto run = [&](int t) {
      tid[t] = std::this_thread::get_id();
      for (auto& p : plans[t]) emit(p);
   };
   for (auto& v : plans)
      for (auto& p : v) {
         pbt::describe("%s how=%d format \"%s\" %zu arguments -> %d bytes (limit %zu)", nthreads > 1 ? "[concurrent]" : "", p.how, pbt::show(p.fmt).c_str(), p.args.size(), p.len, g_limit);
         for (auto& a : p.args) {
            if (a.type <= 1) pbt::describe(" %lld", a.i);
            else if (a.type == 3) pbt::describe(" \"%s\"", a.w ? "(wide)" : pbt::show(a.s, 40).c_str());
            else pbt::describe(" %Lg", a.d);
         }
         pbt::describe("\n");
      }
   std::vector<std::thread> ths;
   for (int t = 1; t < nthreads; ++t) ths.emplace_back(run, t);
   run(0);
   for (auto& t : ths) t.join();
   {
      std::unique_lock<std::mutex> l(g_m);
      if (!g_cv.wait_for(l, std::chrono::seconds(30), [&] { return g_n >= total; })) pbt::fail("%zu of %zu messages were delivered", g_n, total);
   }
   bool nt = false;
   std::lock_guard<std::mutex> l(g_m);
   for (int t = 0; t < nthreads; ++t) {
      std::vector<size_t> order;  // fatal ones bypass the worker: they arrive first
      for (int pass = 0; pass < 2; ++pass)
         for (size_t i = 0; i < plans[t].size(); ++i)
            if ((plans[t][i].how >= 3) == (pass == 0)) order.push_back(i);
      auto& got = g_got[tid[t]];
      {
         // compare as multisets per thread: fatal and ordinary entries travel on different ways
         // exact expectations first, then the error notices (which only have to contain the format), longest format first
         std::stable_sort(order.begin(), order.end(), [&](size_t a, size_t b) {
            Plan &x = plans[t][a], &y = plans[t][b];
            if (x.rejected != y.rejected) return !x.rejected;
            return x.rejected && x.fmt.size() > y.fmt.size();
         });
         std::vector<string> want;
         for (size_t i : order) {
            Plan& p = plans[t][i];
            string w;
            if (p.rejected) {
               w = "\1REJECTED";
            } else if (size_t(p.len) < g_limit) w = p.want;
            else w = p.want.substr(0, g_limit - 1) + "[...truncated...]";
            want.push_back(w);
            if (p.rejected) pbt::label("formats the C library rejects");
            else if (size_t(p.len) >= g_limit) pbt::label("truncated results");
            if (!p.rejected && p.len + 3 >= long(g_limit) && p.len <= long(g_limit) + 3) pbt::label("results within 3 bytes of the limit");
            if (!p.rejected && (p.len == long(g_limit) || p.len == long(g_limit) - 1)) pbt::label("results exactly at the limit");
            if (p.convs || p.len + 3 >= long(g_limit)) nt = true;
         }
         std::vector<bool> used(got.size());
         for (size_t k = 0; k < want.size(); ++k) {
            Plan& p = plans[t][order[k]];
            bool ok = false;
            for (size_t g = 0; g < got.size() && !ok; ++g) {
               if (used[g]) continue;
               bool m = p.rejected ? got[g].find(p.fmt) != string::npos && got[g].size() > p.fmt.size() : got[g] == want[k];
               if (m) ok = used[g] = true;
            }
            if (!ok) {
               string seen;
               for (auto& g : got) seen += " \"" + pbt::show(g, 300) + "\" (" + std::to_string(g.size()) + " bytes)";
               pbt::fail("format \"%s\": expected %s%s\" (%zu bytes), received%s", pbt::show(p.fmt).c_str(), p.rejected ? "an error notice with the format, " : "\"", pbt::show(want[k], 300).c_str(), want[k].size(), seen.c_str());
            }
         }
         if (got.size() != want.size()) pbt::fail("%zu messages for %zu calls", got.size(), want.size());
      }
   }
   if (nthreads > 1) pbt::label("cases with concurrent calls");
   if (nt) pbt::nontrivial();
}

void pbt_case(pbt::Source& s) {
   // several calls in one case, with other limits in between where the limit is dynamic
   int n = s.chance(1, 6) ? 2 + int(s.below(4)) : 1;
   for (int i = 0; i < n; ++i) phase(s);
   if (n > 1) pbt::label("cases with several calls in sequence");
}
