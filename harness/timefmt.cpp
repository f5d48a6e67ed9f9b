// P19: time formatting against strftime and an independent computation of the fractions.
#include <g3log/logmessage.hpp>
#include <g3log/time.hpp>

#include <string.h>
#include <time.h>
#include <thread>

#include "pbt.hpp"

const char* pbt_rule = "formats built from strftime conversions, literals, escaped percents and fraction identifiers, at generated instants (also before 1970, at DST changes) and time zones, from 1..4 threads; non-trivial: >=1 fraction identifier or escaped percent, or an instant before 1970";
int pbt_default_batch = 1000;
double pbt_hang_s = 40;
bool pbt_hang_is_violation = true;
using std::string;
void pbt_init() {}

namespace {
struct Plan {
   string fmt;
   long long ns = 0;
   string want;
   bool comparable = true, nt = false;
   int fractions = 0, escapes = 0;
};
const char* kZones[] = {"UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "<+0330>-3:30", "<-12>12", "<+14>-14", "AEST-10AEDT,M10.1.0,M4.1.0/3", "<+1245>-12:45<+1345>,M9.5.0/2:45,M4.1.0/3:45", "XXX24:59:59", ":America/New_York"};

string literal(pbt::Source& s) {
   static const char* parts[] = {"", " ", "f", "f3", "f6", "3", "6", "9", "0", "ff", "-", ":", "/", "T", "\xc3\xa5\xe2\x82\xac", "\t", "\n", "abc", "{}", "\\", "d"};
   if (s.chance(1, 6)) {
      string r;
      size_t n = s.size(s.chance(1, 20) ? 900 : 12);
      for (size_t i = 0; i < n; ++i) {
         char c = char(1 + s.below(255));
         r += c == '%' ? '_' : c;
      }
      return r;
   }
   return parts[s.below(sizeof parts / sizeof *parts)];
}
void gen(pbt::Source& s, Plan& p) {
   size_t n = 1 + s.below(7);
   for (size_t i = 0; i < n; ++i) {
      switch (s.below(6)) {
      case 0: case 1: {
         static const char* fr[] = {"%f", "%f3", "%f6", "%f9"};
         p.fmt += fr[s.below(4)];
         break;
      }
      case 2: case 3: {
         static const char conv[] = "YmdHMSyjeIpAaBbcCDFGghkLlnPrRsTtuUVwWxXzZ";
         char c = conv[s.below(sizeof conv - 1)];
         if (c == 'L') c = 'M';
         string f = "%";
         if (s.chance(1, 8)) {
            f += "_-0^#"[s.below(5)];
            if (s.boolean()) f += std::to_string(1 + s.below(14));
         } else if (s.chance(1, 8)) {
            f += "EO"[s.below(2)];
         }
         p.fmt += f + c;
         break;
      }
      case 4: p.fmt += "%%"; ++p.escapes; break;
      default: p.fmt += literal(s);
      }
   }
   switch (s.below(6)) {
   case 0: p.ns = (long long)s.below(4000000000ull) * 1000000000LL + (long long)s.below(1000000000); break;   // 1970..2096
   case 1: p.ns = -(long long)s.below(9000000000ull * 1000000000ull); break;                                    // before 1970
   case 2: p.ns = (long long)s.below(0); break;                                                                // anything (1677..2262)
   case 3: p.ns = s.range(-3, 3) * 1000000000LL + s.range(-2, 2); break;                                        // around the epoch
   case 4: {                                                                                                   // around second/ms/us boundaries
      static const long long unit[] = {1000000000LL, 1000000, 1000};
      p.ns = (long long)s.below(2000000000) * 1000000000LL + (long long)s.below(1000) * unit[s.below(3)] % 1000000000LL + s.range(-1, 1);
      break;
   }
   default: p.ns = 1700000000LL * 1000000000LL + (long long)s.below(40000000) * 1000000000LL + (long long)s.below(1000);  // a year of seconds (all DST changes)
   }
   // stay inside what localtime can represent for every zone after adding offsets
   const long long lim = 9223372036LL * 1000000000LL - 200000LL * 1000000000LL;
   if (p.ns > lim) p.ns = lim;
   if (p.ns < -lim) p.ns = -lim;
}
void reference(Plan& p) {
   long long sec = p.ns / 1000000000, frac = p.ns % 1000000000;
   if (frac < 0) {
      frac += 1000000000;
      --sec;
   }
   string f;
   char digits[16];
   snprintf(digits, sizeof digits, "%09lld", frac);
   for (size_t i = 0; i < p.fmt.size(); ++i) {
      if (p.fmt[i] != '%' || i + 1 >= p.fmt.size()) {
         f += p.fmt[i];
         continue;
      }
      char c = p.fmt[i + 1];
      if (c == '%') {
         f += "%%";
         ++i;
      } else if (c == 'f') {
         ++p.fractions;
         char d = i + 2 < p.fmt.size() ? p.fmt[i + 2] : 0;
         if (d == '3' || d == '6' || d == '9') {
            f += string(digits, size_t(d - '0'));
            i += 2;
         } else {
            f += digits;
            ++i;
         }
      } else
         f += '%';
   }
   time_t t = time_t(sec);
   struct tm tmv;
   localtime_r(&t, &tmv);
   std::vector<char> b(60000);
   size_t n = strftime(b.data(), b.size(), f.c_str(), &tmv);
   p.want.assign(b.data(), n);
   p.comparable = (n > 0 || p.fmt.empty()) && n <= 1023;
   p.nt = p.fractions || p.escapes || p.ns < 0;
}
g3::system_time_point tp(long long ns) { return g3::system_time_point(std::chrono::nanoseconds(ns)); }
void check(const Plan& p, const char* zone, bool concurrent) {
   string got = g3::localtime_formatted(tp(p.ns), p.fmt);
   if (p.comparable && got != p.want)
      pbt::fail("format \"%s\" at %lld ns since the epoch in zone %s%s gives \"%s\", expected \"%s\"", pbt::show(p.fmt).c_str(), p.ns, zone, concurrent ? " (concurrently)" : "", pbt::show(got).c_str(), pbt::show(p.want).c_str());
}
}  // namespace

void pbt_case(pbt::Source& s) {
   const char* zone = kZones[s.below(sizeof kZones / sizeof *kZones)];
   setenv("TZ", zone, 1);
   tzset();
   int nthreads = s.chance(1, 40) ? 2 + int(s.below(3)) : 1;
   std::vector<std::vector<Plan>> plans(nthreads);
   bool nt = false;
   for (auto& v : plans) {
      size_t n = nthreads > 1 ? 20 + s.below(60) : 1;
      v.resize(nthreads > 1 ? 4 : 1);
      for (auto& p : v) {
         gen(s, p);
         reference(p);
         if (s.chance(1, 12) && p.comparable) {  // up to the largest result there may be
            size_t target = 1023 - std::min<size_t>(s.size(1023), 1023);
            if (target > p.want.size()) {
               string pad(target - p.want.size(), 'x');
               p.fmt = s.boolean() ? p.fmt + pad : pad + p.fmt;
               p.fractions = 0;
               reference(p);
               if (p.want.size() > 1000) pbt::label("results of 1001..1023 bytes");
            }
         }
         nt |= p.nt;
         pbt::describe("%s zone %s, %lld ns, format \"%s\" -> \"%s\"\n", nthreads > 1 ? "[concurrent]" : "", zone, p.ns, pbt::show(p.fmt).c_str(), pbt::show(p.want).c_str());
         pbt::label("fraction identifiers", p.fractions);
         pbt::label("escaped percents", p.escapes);
         if (p.ns < 0) pbt::label("instants before 1970");
         if (!p.comparable) pbt::label("results empty or longer than 1023 bytes (only run)");
      }
      size_t base = v.size();
      if (nthreads > 1)
         for (size_t i = base; i < n; ++i) v.push_back(v[i % base]);
   }
   auto run = [&](int t) {
      for (auto& p : plans[t]) check(p, zone, nthreads > 1);
   };
   if (nthreads > 1) {
      std::vector<std::thread> ths;
      for (int t = 0; t < nthreads; ++t) ths.emplace_back(run, t);
      for (auto& t : ths) t.join();
      pbt::label("concurrent cases");
   } else {
      run(0);
      Plan& p = plans[0][0];
      // the same through the helpers and through an entry's own time stamp
      time_t sec = time_t(p.ns / 1000000000);
      struct tm a, b;
      localtime_r(&sec, &a);
      b = g3::localtime(sec);
      if (a.tm_sec != b.tm_sec || a.tm_min != b.tm_min || a.tm_hour != b.tm_hour || a.tm_mday != b.tm_mday || a.tm_mon != b.tm_mon || a.tm_year != b.tm_year || a.tm_isdst != b.tm_isdst || a.tm_wday != b.tm_wday || a.tm_yday != b.tm_yday)
         pbt::fail("g3::localtime(%lld) differs from localtime_r in zone %s", (long long)sec, zone);
      g3::LogMessage m("f", 1, "g", INFO);
      if (s.chance(1, 4)) {
         // relative to now: the documented conversion offset is constant
         m._timestamp = g3::high_resolution_time_point(std::chrono::nanoseconds(p.ns / 2));
         auto sys = g3::to_system_time(m._timestamp);
         long long off = std::chrono::duration_cast<std::chrono::nanoseconds>(sys.time_since_epoch()).count() - p.ns / 2;
         if (off > 2000000000LL || off < -2000000000LL) pbt::fail("time stamp %lld ns converts to a system time %lld ns away", p.ns / 2, off);
         Plan q = p;
         q.ns = p.ns / 2 + off;
         q.fractions = 0;
         reference(q);
         string got = m.timestamp(q.fmt);
         if (q.comparable && got != q.want) pbt::fail("timestamp(\"%s\") of an entry at %lld ns gives \"%s\", expected \"%s\"", pbt::show(q.fmt).c_str(), q.ns, pbt::show(got).c_str(), pbt::show(q.want).c_str());
         pbt::label("entry time stamps");
      }
   }
   if (nt) pbt::nontrivial();
}
