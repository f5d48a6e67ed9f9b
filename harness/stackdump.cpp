// P21: stack dumps over generated symbol tables.  backtrace() and backtrace_symbols() are replaced by the harness.
#include <g3log/crashhandler.hpp>
#include <g3log/g3log.hpp>

#include <cxxabi.h>
#include <string.h>
#include <memory>
#include <stdexcept>
#include <thread>

#include "pbt.hpp"
using std::string;
using std::vector;

const char* pbt_rule = "a symbol table of 0..60 generated symbol texts (glibc and Mac style, with and without names and offsets, odd paths, and arbitrary bytes); non-trivial: >=1 frame with a C++ name and >=1 other or malformed frame";
int pbt_default_batch = 500;
double pbt_hang_s = 20;
bool pbt_hang_is_violation = true;

namespace {
vector<string> g_frames;  // including the dump's own frame
bool g_no_table;
int g_asked;
}  // namespace
extern "C" int backtrace(void** p, int n) {
   g_asked = n;
   int k = std::min<int>(n, int(g_frames.size()));
   for (int i = 0; i < k; ++i) p[i] = (void*)(uintptr_t)(i + 1);
   return k;
}
extern "C" char** backtrace_symbols(void* const* p, int n) {
   if (g_no_table) return nullptr;
   size_t bytes = sizeof(char*) * size_t(n) + 1;
   for (int i = 0; i < n; ++i) bytes += g_frames[size_t((uintptr_t)p[i]) - 1].size() + 1;
   char** r = (char**)malloc(bytes);
   char* at = (char*)(r + n);
   for (int i = 0; i < n; ++i) {
      auto& f = g_frames[size_t((uintptr_t)p[i]) - 1];
      r[i] = at;
      memcpy(at, f.c_str(), f.size() + 1);
      at += f.size() + 1;
   }
   return r;
}
namespace {
string ident(pbt::Source& s) {
   static const vector<string> odd = {"f", "main", "_start", "operator_", "_Z", "_ZN", "x86_64_fallback", "__libc_start_main", "a_b_c", "_", "_ZZZ", "_ZN3foo", "_ZN99bar", "_Zx"};
   if (s.chance(1, 4)) return s.pick(odd);
   string r;
   size_t n = 1 + s.size(s.chance(1, 25) ? 700 : 12);
   for (size_t i = 0; i < n; ++i) r += "abcxyzT_09"[s.below(i ? 10 : 8)];
   return r;
}
string plain_ident(pbt::Source& s) {
   string r;
   size_t n = 3 + s.size(s.chance(1, 25) ? 700 : 12);
   for (size_t i = 0; i < n; ++i) r += "abcxyzTQ09"[s.below(i ? 10 : 8)];
   return r;
}
// a mangled name and what it stands for
std::pair<string, string> mangled(pbt::Source& s) {
   static const vector<std::pair<string, string>> types = {{"i", "int"}, {"d", "double"}, {"b", "bool"}, {"PKc", "char const*"}, {"m", "unsigned long"}, {"Pv", "void*"}, {"Rd", "double&"}, {"Oi", "int&&"}, {"PFviE", "void (*)(int)"}};
   size_t depth = 1 + s.below(s.chance(1, 40) ? 60 : 4);
   string m = "_Z", d;
   if (depth > 1) m += "N";
   bool is_const = depth > 1 && s.chance(1, 4);
   if (is_const) m += "K";
   for (size_t i = 0; i < depth; ++i) {
      string id = plain_ident(s);
      m += std::to_string(id.size()) + id;
      d += (i ? "::" : "") + id;
   }
   if (depth > 1) m += "E";
   size_t n = s.below(4);
   if (n == 0) m += "v", d += "()";
   else {
      d += "(";
      vector<size_t> used;
      for (size_t i = 0; i < n; ++i) {
         size_t k = s.below(types.size());
         for (size_t u : used)  // (a repeated compound type would be a substitution)
            if (u == k && types[k].first.size() > 1) k = 0;
         used.push_back(k);
         m += types[k].first;
         d += (i ? ", " : "") + types[k].second;
      }
      d += ")";
   }
   if (is_const) d += " const";
   if (m.size() > 1000) {  // the C++ runtime declines to demangle names of more than 1024 bytes
      int st = 1;
      free(abi::__cxa_demangle(m.c_str(), nullptr, nullptr, &st));
      if (st) d = m;
   }
   return {m, d};
}
string path(pbt::Source& s, bool odd_brackets) {
   static const vector<string> fixed = {"./a.out", "/usr/lib/x86_64-linux-gnu/libc.so.6", "/usr/lib/libstdc++.so.6", "/opt/my app/bin (x86)/prog", "/a/b+c/d_e", "/home/u/ _x/prog", "prog+", "/x(y+z)/lib", "/) (/p", "[vdso]", "lib _Z + 1"};
   if (s.chance(1, 3)) {
      string r;
      size_t n = 1 + s.size(s.chance(1, 25) ? 2500 : 20);
      const char* al = odd_brackets ? "ab/._ +()[]-0" : "ab/._ +-0[]";
      for (size_t i = 0; i < n; ++i) r += al[s.below(strlen(al))];
      return r;
   }
   string r = s.pick(fixed);
   if (!odd_brackets)
      for (char& c : r)
         if (c == '(' || c == ')') c = '.';
   return r;
}
string hex(pbt::Source& s) {
   char b[40];
   snprintf(b, sizeof b, "0x%llx", (unsigned long long)(s.boolean() ? s.below(4096) : s.below(0)));
   return b;
}
struct Frame {
   string text;
   bool exact = true;   // the line's content is known
   vector<string> want; // any of these
   bool cxx = false;
};
bool demangles(const string& n, string& to) {
   int st = 1;
   char* p = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st);
   if (st == 0 && p) to = p;
   free(p);
   return st == 0;
}
Frame gen_frame(pbt::Source& s) {
   Frame f;
   switch (s.below(10)) {
   case 0:
   case 1:
   case 2: {  // glibc, C++ function
      auto m = mangled(s);
      string off = hex(s);
      f.text = path(s, true) + "(" + m.first + "+" + off + ") [" + hex(s) + "]";
      f.want = {m.second + " + " + off};
      f.cxx = true;
      break;
   }
   case 3: {  // glibc, another function
      string n = ident(s), off = hex(s), d;
      f.text = path(s, true) + "(" + n + "+" + off + ") [" + hex(s) + "]";
      f.want = {n + " + " + off};
      if (demangles(n, d)) f.want.push_back(d + " + " + off);  // a C name like "f" is also a mangled type
      break;
   }
   case 4:  // glibc without a name
      f.text = path(s, true) + "(+" + hex(s) + ") [" + hex(s) + "]";
      f.want = {f.text};
      break;
   case 5:
      f.text = s.boolean() ? path(s, true) + "() [" + hex(s) + "]" : "[" + hex(s) + "]";
      f.want = {f.text};
      break;
   case 6: {  // Mac style, C++ function
      auto m = mangled(s);
      string off = std::to_string(s.below(100000));
      char num[20];
      snprintf(num, sizeof num, "%-4d", int(s.below(50)));
      f.text = string(num) + path(s, false) + "   " + hex(s) + " " + m.first + " + " + off;
      f.want = {m.second + " + " + off};
      f.cxx = true;
      break;
   }
   case 7: {  // Mac style, a C function
      string n = "c" + plain_ident(s);
      string p = " " + path(s, false);
      while (p.find(" _") != string::npos) p.replace(p.find(" _"), 2, "..");
      f.text = "3  " + p + " " + hex(s) + " " + n + " + " + std::to_string(s.below(1000));
      f.want = {f.text};
      break;
   }
   case 8: {  // pieces in any order
      f.exact = false;
      static const vector<string> bits = {"(", ")", "+", " + ", " _", "_", "_ZN3fooE", "0x1", "[", "]", "a", " ", "_Z1fv", "main", "(main+0x1)", "+)", "(+"};
      size_t n = s.size(12);
      for (size_t i = 0; i < n; ++i) f.text += s.pick(bits);
      break;
   }
   default: {  // arbitrary bytes
      f.exact = false;
      size_t n = s.size(60);
      for (size_t i = 0; i < n; ++i) {
         char c = char(1 + s.below(255));
         f.text += c == '\n' ? '(' : c;
      }
   }
   }
   return f;
}
}  // namespace
static string g_entry;
void pbt_init() {
   g3::setFatalExitHandler([](g3::FatalMessagePtr m) { g_entry = m.get()->message(); });
}
void pbt_case(pbt::Source& s) {
   size_t n = s.chance(1, 8) ? s.below(61) : s.size(12);
   vector<Frame> fr;
   g_frames.clear();
   int cxx = 0, other = 0;
   pbt::describe("%zu frames", n);
   for (size_t i = 0; i < n; ++i) {
      fr.push_back(gen_frame(s));
      g_frames.push_back(fr.back().text);
      if (i) (fr.back().cxx ? cxx : other)++;
      if (i < 12) pbt::describe("\n  %s", pbt::show(fr.back().text, 150).c_str());
   }
   g_no_table = s.chance(1, 30);
   string raw;
   bool have_raw = s.chance(1, 12);
   if (have_raw) {
      size_t len = s.size(30);
      for (size_t i = 0; i < len; ++i) raw += char(1 + s.below(255));
   }
   bool through = s.chance(1, 6);
   pbt::describe("%s%s%s\n", through ? "; through a LogCapture" : "", g_no_table ? "; no symbol table" : "", have_raw ? "; dump supplied by the caller" : "");
   string out;
   try {
      out = have_raw ? g3::internal::stackdump(raw.c_str()) : s.boolean() ? g3::internal::stackdump() : g3::internal::stackdump("");
      if (through) {  // as the crash handler does: the fatal entry carries the dump
         g_entry.clear();
         { LogCapture c(g3::internal::FATAL_SIGNAL, SIGSEGV, have_raw ? raw.c_str() : s.boolean() ? nullptr : ""); }
         PBT_ASSERT(g_entry.find(out) != string::npos, "the entry of a LogCapture does not carry the dump %s unchanged: %s", pbt::show(out, 300).c_str(), pbt::show(g_entry, 600).c_str());
         pbt::label("through a LogCapture");
      }
   } catch (const std::exception& e) { pbt::fail("stackdump threw %s", e.what()); }
   if (have_raw && !raw.empty()) {
      PBT_ASSERT(out == raw, "the supplied dump was changed: %s", pbt::show(out).c_str());
      return;
   }
   if (g_no_table) {
      PBT_ASSERT(out.empty(), "no symbol table, but a dump: %s", pbt::show(out).c_str());
      return;
   }
   size_t at = 0, lines = 0;
   for (size_t i = 1; i < std::min<size_t>(n, 50); ++i) {
      string pre = "\tstack dump [" + std::to_string(i) + "]  ";
      PBT_ASSERT(out.compare(at, pre.size(), pre) == 0, "frame %zu is missing from the dump: %s", i, pbt::show(out, 1500).c_str());
      at += pre.size();
      size_t e = out.find('\n', at);
      PBT_ASSERT(e != string::npos, "line %zu is not ended", i);
      string got = out.substr(at, e - at);
      at = e + 1;
      ++lines;
      if (fr[i].exact) {
         bool ok = false;
         for (auto& w : fr[i].want) ok |= got == w;
         PBT_ASSERT(ok, "frame %zu (%s) is shown as %s, expected %s", i, pbt::show(fr[i].text).c_str(), pbt::show(got).c_str(), pbt::show(fr[i].want[0]).c_str());
      } else
         PBT_ASSERT(!got.empty() || fr[i].text.empty(), "frame %zu (%s) is shown as nothing", i, pbt::show(fr[i].text).c_str());
   }
   PBT_ASSERT(at == out.size(), "%zu frames, but the dump goes on: %s", n, pbt::show(out.substr(at), 500).c_str());
   if (cxx && other) pbt::nontrivial();
   if (n > 50) pbt::label("more than 50 frames");
}
