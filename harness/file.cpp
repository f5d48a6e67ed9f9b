// P15 exact content, P16 bounded lag, P17 log file changes, P18 names and locations of the default file sink.
// The wall clock is a stand-in the harness controls, so that names, headers and time stamps have one exact expectation.
// Everything happens below the scratch directory, as an unprivileged user.
#include <g3log/filesink.hpp>
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <signal.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <thread>

#include "pbt.hpp"

#ifndef PROP
#error PROP
#endif

#if PROP == 15
const char* pbt_rule = "histories of entries (any bytes, 0..100 KB), header/details overrides and clock steps against flush intervals 1..1000, through the sink or a log worker; oracle: the byte-exact file; non-trivial: more entries than the flush interval or a partial buffer at close, and >=3 entries";
int pbt_default_batch = 60;
#elif PROP == 16
const char* pbt_rule = "the file is read through the file system after generated operations (or after SIGKILL at a random instant of a child) and compared with the prefix bound; non-trivial: >=1 snapshot taken while entries are pending in the sink's buffer, or a kill between first and last entry";
int pbt_default_batch = 30;
#elif PROP == 17
const char* pbt_rule = "histories of entries and successful/failing log file changes (other directories and ids, same second, existing targets, unusable targets), also concurrently with logging threads; non-trivial: >=1 successful change with entries on both sides or >=1 failing change with entries afterwards";
int pbt_default_batch = 30;
#elif PROP == 25
const char* pbt_rule = "histories of entries, handle calls and log file changes while writes to the log file fail for good (ENOSPC, EIO, EDQUOT, file size limit, /dev/full) from a generated byte on, or are cut short/interrupted harmlessly; directly and through a worker with other sinks, also ended by a fatal event in a child; non-trivial: a write failed (or was cut short) and >=1 entry was handled afterwards";
int pbt_default_batch = 30;
#else
const char* pbt_rule = "one construction per child process with generated prefix, id and directory spelling; oracle: reference model of name, location, fallback and refusal; non-trivial: the prefix has removed or illegal characters, or the directory is not a plain existing one";
int pbt_default_batch = 40;
#endif
double pbt_hang_s = 60;
bool pbt_hang_is_violation = true;

using std::string;
using std::vector;
namespace fs = std::filesystem;

#if PROP == 25
#include <sys/resource.h>
#include <sys/uio.h>
// ---------------------------------------------------------------------------------------------------- controlled write faults
// write()/writev() as called by libstdc++'s file streams (or by anything else in the process).  Only files below the case's
// directory are concerned; each armed file has a byte budget after which every write to it fails with its errno.
namespace flt {
struct F {
   dev_t dev;
   ino_t ino;
   size_t left;
   int err;
   bool hit;
};
static std::mutex m;
static std::vector<F> armed;
static std::atomic<int> on{0};
static int chop = 0;          // n > 0: every write transfers at most n bytes
static unsigned intr = 0;     // n > 0: every n-th write is interrupted before it transferred anything
static unsigned count = 0;
static std::atomic<unsigned> chopped{0};
static std::string below;
static bool ours(int fd, struct stat& st) {
   if (fstat(fd, &st) || !S_ISREG(st.st_mode)) return false;
   char l[64], b[512];
   snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
   ssize_t n = readlink(l, b, sizeof b - 1);
   return n > 0 && size_t(n) > below.size() && !below.empty() && strncmp(b, below.c_str(), below.size()) == 0;
}
// how many of n bytes may be written now; -1: errno is set
static ssize_t allow(int fd, size_t n) {
   if (!on.load() || n == 0) return ssize_t(n);
   struct stat st;
   std::lock_guard<std::mutex> l(m);
   if (!ours(fd, st)) return ssize_t(n);
   for (auto& f : armed)
      if (f.dev == st.st_dev && f.ino == st.st_ino) {
         if (f.left < n) f.hit = true;
         if (f.left == 0) {
            errno = f.err;
            return -1;
         }
         n = std::min(n, f.left);
         f.left -= n;
         return ssize_t(n);
      }
   if (intr && ++count % intr == 0) {
      ++chopped;
      errno = EINTR;
      return -1;
   }
   if (chop && n > size_t(chop)) {
      ++chopped;
      n = size_t(chop);
   }
   return ssize_t(n);
}
}  // namespace flt
extern "C" ssize_t write(int fd, const void* b, size_t n) {
   ssize_t k = flt::allow(fd, n);
   return k < 0 ? -1 : ssize_t(syscall(SYS_write, fd, b, size_t(k)));
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int cnt) {
   if (!flt::on.load()) return ssize_t(syscall(SYS_writev, fd, v, cnt));
   size_t n = 0;
   for (int i = 0; i < cnt; ++i) n += v[i].iov_len;
   ssize_t k = flt::allow(fd, n);
   if (k < 0) return -1;
   if (size_t(k) == n) return ssize_t(syscall(SYS_writev, fd, v, cnt));
   std::vector<struct iovec> w;
   size_t left = size_t(k);
   for (int i = 0; i < cnt && left; ++i) {
      w.push_back({v[i].iov_base, std::min(left, v[i].iov_len)});
      left -= w.back().iov_len;
   }
   return ssize_t(syscall(SYS_writev, fd, w.data(), int(w.size())));
}
#endif
// ------------------------------------------------------------------------------------------------------- controlled clock
static std::atomic<int64_t> g_clock_ns{0};  // 0 = real time
static bool fake(struct timespec* ts) {
   int64_t v = g_clock_ns.load(std::memory_order_acquire);
   if (v == 0) return false;
   ts->tv_sec = v / 1000000000;
   ts->tv_nsec = v % 1000000000;
   return true;
}
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) {
   if ((id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) && fake(ts)) return 0;
   return int(syscall(SYS_clock_gettime, id, ts));
}
extern "C" int gettimeofday(struct timeval* tv, void*) {
   struct timespec ts;
   clock_gettime(CLOCK_REALTIME, &ts);
   tv->tv_sec = ts.tv_sec;
   tv->tv_usec = ts.tv_nsec / 1000;
   return 0;
}
extern "C" time_t time(time_t* t) {
   struct timespec ts;
   clock_gettime(CLOCK_REALTIME, &ts);
   if (t) *t = ts.tv_sec;
   return ts.tv_sec;
}

namespace {
string g_base;   // per worker process directory
string g_cur;    // per case directory (cwd)
int g_caseno = 0;
bool g_unpriv = false;

string fmt_time(int64_t ns, const char* f) {
   time_t t = time_t(ns / 1000000000);
   struct tm tmv;
   localtime_r(&t, &tmv);
   char b[128];
   strftime(b, sizeof b, f, &tmv);
   return b;
}
string usec(int64_t ns) {
   char b[16];
   snprintf(b, sizeof b, "%06d", int(ns % 1000000000 / 1000));
   return b;
}
string header_line(int64_t ns) { return "\t\tg3log created log at: " + fmt_time(ns, "%a %b %d %H:%M:%S %Y") + "\n"; }
string exit_line(int64_t ns) { return "g3log g3FileSink shutdown at: " + fmt_time(ns, "%H:%M:%S ") + usec(ns) + "\n"; }
const string kDefaultHeader = "\t\tLOG format: [YYYY/MM/DD hh:mm:ss uuu* LEVEL FILE->FUNCTION:LINE] message\n\n\t\t(uuu*: microseconds fractions of the seconds value)\n\n";

string slurp(const string& p) {
   std::ifstream f(p, std::ios::binary);
   std::stringstream ss;
   ss << f.rdbuf();
   return ss.str();
}
bool exists(const string& p) {
   struct stat st;
   return ::lstat(p.c_str(), &st) == 0;
}
void put(const string& p, const string& c) {
   std::ofstream f(p, std::ios::binary);
   f << c;
}
struct Quiet {  // the library reports on std::cerr
   std::ostringstream sink;
   std::streambuf* old;
   Quiet() : old(std::cerr.rdbuf(sink.rdbuf())) {}
   ~Quiet() { std::cerr.rdbuf(old); }
};
void case_begin(pbt::Source& s) {
   g_cur = g_base + "/c" + std::to_string(++g_caseno);
   ::mkdir(g_cur.c_str(), 0755);
   if (::chdir(g_cur.c_str())) pbt::inconclusive("chdir %s", g_cur.c_str());
   static const char* zones[] = {"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "<+0530>-5:30", "<-11>11", "<+14>-14"};
   setenv("TZ", zones[s.below(6)], 1);
   tzset();
   // some second between 2000 and 2060
   g_clock_ns = (946684800LL + int64_t(s.below(1900000000))) * 1000000000LL + int64_t(s.below(1000000000));
}
void case_end() {
   if (::chdir(g_base.c_str())) {}
   std::error_code ec;
   fs::permissions(g_cur + "/ro", fs::perms::owner_all, ec);
   fs::remove_all(g_cur, ec);
   g_clock_ns = 0;
}
int64_t now_ns() { return g_clock_ns.load(); }
void step_clock(pbt::Source& s) {
   static const int64_t steps[] = {0, 1, 999, 1000, 999999, 1000000, 700000000, 1000000000, 61000000000LL, 86400000000000LL, 200 * 86400000000000LL};
   g_clock_ns += steps[s.below(11)];
}

// --------------------------------------------------------------------------------------------------------------- entries
string text_bytes(pbt::Source& s, bool nul) {
   size_t len;
   switch (s.below(12)) {
   case 0: case 1: case 2: case 3: case 4: case 5: len = s.below(20); break;
   case 6: case 7: len = s.below(200); break;
   case 8: len = s.below(3000); break;
   case 9: len = 4090 + s.below(12); break;
   case 10: len = 8180 + s.below(24); break;
   default: len = s.chance(1, 150) ? 1000000 + s.below(8000000) : s.chance(1, 6) ? s.below(100000) : s.below(20000);
   }
   string r;
   if (s.boolean()) {
      // cheap pattern for bulk, one choice
      unsigned k = unsigned(s.below(256));
      for (size_t i = 0; i < len; ++i) r += char('a' + (i * 7 + k + i / 31) % 26);
   } else {
      size_t m = std::min<size_t>(len, 40);
      string u;
      for (size_t i = 0; i < m; ++i) {
         unsigned c = unsigned(s.below(256));
         if (c == 0 && !nul) c = '\n';
         u += char(c);
      }
      while (r.size() < len && !u.empty()) r += u.substr(0, len - r.size());
   }
   return r;
}
string custom1(const g3::LogMessage& m) { return "<" + m.level() + "|" + m.line() + ">"; }
string custom2(const g3::LogMessage&) { return ""; }
string custom3(const g3::LogMessage& m) { return m.file() + "\n" + m.function() + string("\0\xff", 2); }
g3::LogMessage::LogDetailsFunc kDetails[] = {&g3::LogMessage::DefaultLogDetailsToString, &g3::LogMessage::FullLogDetailsToString, custom1, custom2, custom3};

struct Spec {
   string file, func, msg;
   int line = 0;
   const LEVELS* level = nullptr;
   int64_t at = 0;
};
const LEVELS kCustom{350, "CUSTOM~LEVEL"};
const LEVELS* kLv[] = {&INFO, &G3LOG_DEBUG, &WARNING, &FATAL, &kCustom};
Spec gen_entry(pbt::Source& s, uint64_t id, bool nul) {
   static const char* files[] = {"main.cpp", "/a/b/c.cc", "x", "odd name.h"};
   static const char* funcs[] = {"f", "operator()", "run<int>"};
   Spec e;
   e.file = files[s.below(4)];
   e.func = funcs[s.below(3)];
   e.line = int(s.below(100000));
   unsigned l = unsigned(s.below(20));
   e.level = kLv[l < 16 ? l % 3 : l < 18 ? 4 : 3];
   e.msg = "{{" + std::to_string(id) + "|" + text_bytes(s, nul) + "|" + std::to_string(id) + "}}";
   e.at = now_ns();
   return e;
}
g3::LogMessageMover mover(const Spec& e) {
   g3::LogMessage m(e.file, e.line, e.func, *e.level);
   m.write().append(e.msg);
   return g3::LogMessageMover(std::move(m));
}
string base_name(const string& p) { return p.substr(p.find_last_of("/\\") + 1); }
// the documented layout of one entry
string render(const Spec& e, int details) {
   string ts = fmt_time(e.at, "%Y/%m/%d %H:%M:%S ") + usec(e.at);
   std::ostringstream tid;
   tid << std::this_thread::get_id();
   string line = std::to_string(e.line), b = base_name(e.file), d;
   switch (details) {
   case 0: d = ts + "\t" + e.level->text + " [" + b + "->" + e.func + ":" + line + "]\t"; break;
   case 1: d = ts + "\t" + e.level->text + " [" + tid.str() + " " + b + "->" + e.func + ":" + line + "]\t"; break;
   case 2: d = "<" + e.level->text + "|" + line + ">"; break;
   case 3: d = ""; break;
   default: d = b + "\n" + e.func + string("\0\xff", 2);
   }
   if (e.level == &FATAL) return d + "\n\t*******\t EXIT trigger caused by LOG(FATAL) entry: \n\t\"" + e.msg + "\"";
   return d + e.msg + "\n";
}
size_t gen_interval(pbt::Source& s) {
   static const size_t v[] = {1, 100, 2, 3, 4, 7, 10, 33, 1000};
   size_t k = size_t(s.below(11));
   return k < 9 ? v[k] : size_t(1 + s.below(300));
}
string diff(const string& got, const string& want) {
   size_t i = 0;
   while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
   size_t from = i > 40 ? i - 40 : 0;
   return "first difference at byte " + std::to_string(i) + " (file " + std::to_string(got.size()) + " bytes, expected " + std::to_string(want.size()) + ")\n file: ..." + pbt::show(got.substr(from, 200)) + "\n want: ..." +
          pbt::show(want.substr(from, 200));
}
std::mutex g_rec_m;
struct Recorder {
   vector<string>* out;
   void rec(g3::LogMessageMover m) {
      std::lock_guard<std::mutex> l(g_rec_m);
      out->push_back(m.get().message());
   }
};
}  // namespace

void pbt_init() {
   g_base = string(pbt::scratch()) + "/w" + std::to_string(getpid());
   ::mkdir(g_base.c_str(), 0755);
   if (::chown(g_base.c_str(), 65534, 65534) == 0 && setgroups(0, nullptr) == 0 && setgid(65534) == 0 && setuid(65534) == 0) g_unpriv = true;
   umask(022);
#if PROP == 25
   signal(SIGXFSZ, SIG_IGN);  // (as a program under a file size limit does that wants to survive it)
   for (int sg : {SIGABRT, SIGFPE}) signal(sg, SIG_DFL);
#endif
}

#if PROP == 15
// ------------------------------------------------------------------------------------------------------------------- P15
static void via_worker(pbt::Source& s) {
   size_t nent = s.size(60);
   bool header_override = s.boolean(), details_override = s.boolean(), default_logger = s.boolean();
   size_t N = default_logger ? 100 : gen_interval(s);
   string header = header_override ? "H:" + text_bytes(s, false) + "\n" : kDefaultHeader;
   vector<string> msgs;
   string want_entries, path;
   int64_t t0 = now_ns();
   vector<int64_t> times{t0};
   pbt::describe("through a worker, N=%zu, %zu entries, header override %d, details override %d\n", N, nent, header_override, details_override);
   {
      auto worker = g3::LogWorker::createLogWorker();
      std::unique_ptr<g3::FileSinkHandle> h;
      if (default_logger) h = worker->addDefaultLogger("pre", g_cur);
      else h = worker->addSink(std::make_unique<g3::FileSink>("pre", g_cur, "id", N), &g3::FileSink::fileWrite);
      g3::initializeLogging(worker.get());
      path = h->call(&g3::FileSink::fileName).get();
      if (header_override) h->call(&g3::FileSink::overrideLogHeader, header).get();
      if (details_override) h->call(&g3::FileSink::overrideLogDetails, kDetails[2]).get();
      for (size_t i = 0; i < nent; ++i) {
         Spec e;
         e.msg = "{{" + std::to_string(i) + "|" + text_bytes(s, false) + "}}";
         static const LEVELS* lv[] = {&INFO, &G3LOG_DEBUG, &WARNING};
         e.level = lv[s.below(3)];
         if (s.chance(1, 4)) {
            step_clock(s);
            times.push_back(now_ns());
         }
         e.at = now_ns();
         e.file = "here.cpp";
         e.func = "fn";
         e.line = int(s.below(9999));
         {
            LogCapture c("/some/where/here.cpp", e.line, "fn", *e.level);
            c.stream() << e.msg;
         }
         want_entries += render(e, details_override ? 2 : 0);
      }
      Quiet q;
      worker.reset();
   }
   string got = slurp(path);
   string tail = exit_line(now_ns());
   bool ok = false;
   string want;
   if (nent == 0) {
      want = tail;
      ok = got == want;
   }
   for (size_t i = 0; i < times.size() && !ok; ++i) {
      want = header_line(times[i]) + header + want_entries + tail;
      ok = got == want;
   }
   PBT_ASSERT(ok, "the closed log file %s is not header + entries + end mark: %s", path.c_str(), diff(got, want).c_str());
   if (nent >= 3 && (nent > N || nent % N)) pbt::nontrivial();
   pbt::label("through a worker");
}
void pbt_case(pbt::Source& s) {
   case_begin(s);
   if (s.chance(1, 6)) {
      via_worker(s);
      case_end();
      return;
   }
   size_t N = gen_interval(s);
   size_t nops = s.chance(1, 8) ? s.size(700) : s.size(120);
   Quiet q;
   vector<int64_t> times{now_ns()};
   auto sink = std::make_unique<g3::FileSink>("pre", g_cur, "id", N);
   string path = sink->fileName();
   string header = kDefaultHeader, header_at_first, body;
   bool first = true;
   int details = 0;
   uint64_t id = 0;
   size_t bytes = 0;
   string ops;
   for (size_t k = 0; k < nops && bytes < 3000000; ++k) {
      switch (s.below(16)) {
      case 12:
         header = s.boolean() ? "HDR" + text_bytes(s, true) : "";
         sink->overrideLogHeader(header);
         ops += " header(" + std::to_string(header.size()) + ")";
         break;
      case 13:
         details = int(s.below(5));
         sink->overrideLogDetails(kDetails[details]);
         ops += " details(" + std::to_string(details) + ")";
         break;
      case 14:
         step_clock(s);
         if (first) times.push_back(now_ns());
         break;
      case 15: PBT_ASSERT(sink->fileName() == path, "fileName() changed without a change of the log file"); break;
      default: {
         if (first) header_at_first = header;
         first = false;
         Spec e = gen_entry(s, id++, true);
         bytes += e.msg.size();
         ops += " entry(" + std::to_string(e.msg.size()) + ")";
         body += render(e, details);
         sink->fileWrite(mover(e));
      }
      }
   }
   if (ops.size() > 1500) ops = ops.substr(0, 1500) + " ...";
   pbt::describe("flush interval %zu, %lu entries, %zu bytes:%s\n", N, (unsigned long)id, bytes, ops.c_str());
   sink.reset();
   string got = slurp(path), want;
   bool ok = false;
   if (id == 0) {
      want = exit_line(now_ns());
      ok = got == want;
   }
   for (size_t i = times.size(); i-- > 0 && !ok;) {
      want = header_line(times[i]) + header_at_first + body + exit_line(now_ns());
      ok = got == want;
   }
   PBT_ASSERT(ok, "the closed log file %s is not header + entries + end mark: %s", path.c_str(), diff(got, want).c_str());
   if (id >= 3 && (id > N || id % N)) pbt::nontrivial();
   if (id > N) pbt::label("flushed at least once");
   if (id % N) pbt::label("partial buffer at close");
   if (bytes > 8192) pbt::label("more than a stream buffer");
   case_end();
}

#elif PROP == 16
// ------------------------------------------------------------------------------------------------------------------- P16
namespace {
uint64_t fnv(const char* p, size_t n) {
   uint64_t h = 1469598103934665603ull;
   for (size_t i = 0; i < n; ++i) h = (h ^ (unsigned char)p[i]) * 1099511628211ull;
   return h;
}
struct Snap {
   size_t file, len, handled, nfiles;
   uint64_t hash;
};
// offset just past entry `text` in `content`, searching from `from`
size_t find_end(const string& content, const string& text, size_t from) {
   size_t p = content.find(text, from);
   return p == string::npos ? p : p + text.size();
}

void kill_case(pbt::Source& s) {
   size_t N = gen_interval(s);
   size_t total = 1 + s.below(400);
   int details = int(s.below(5));
   uint64_t seed = s.below(1 << 20);
   unsigned delay_us = unsigned(s.below(4000));
   auto text = [&](size_t i) {
      Spec e;
      e.file = "k.cpp";
      e.func = "f";
      e.line = int(i);
      e.level = &INFO;
      e.at = now_ns();
      size_t len = (seed * 31 + i * 7919) % 97 < 90 ? (seed + i * 13) % 60 : (seed + i * 131) % 12000;
      e.msg = "{{" + std::to_string(i) + "|" + string(len, char('a' + i % 26)) + "|" + std::to_string(i) + "}}";
      return e;
   };
   pbt::describe("child handles %zu entries with interval %zu and is killed after about %u us\n", total, N, delay_us);
   auto* done = reinterpret_cast<std::atomic<uint64_t>*>(pbt::shm->user);
   done->store(0);
   string path = g_cur + "/pre.id." + fmt_time(now_ns(), "%Y%m%d-%H%M%S") + ".log";
   pid_t pid = fork();
   if (pid == 0) {
      Quiet q;
      g3::FileSink sink("pre", g_cur, "id", N);
      sink.overrideLogDetails(kDetails[details]);
      for (size_t i = 0; i < total; ++i) {
         sink.fileWrite(mover(text(i)));
         done->store(i + 1);
         if (i % 16 == 0) usleep(50);
      }
      for (;;) pause();
   }
   while (done->load() == 0) {
      int st;
      if (waitpid(pid, &st, WNOHANG) == pid) pbt::fail("the child ended (status %x) while handling entries", st);
      sched_yield();
   }
   usleep(delay_us);
   kill(pid, SIGKILL);
   int st;
   waitpid(pid, &st, 0);
   size_t k = done->load();
   vector<string> names;
   for (auto& d : fs::directory_iterator(g_cur)) names.push_back(d.path().string());
   PBT_ASSERT(names.size() == 1, "%zu files in the log directory", names.size());
   string got = slurp(names[0]);
   string want = header_line(now_ns()) + kDefaultHeader;
   size_t must = 0;
   for (size_t i = 0; i < total; ++i) {
      want += render(text(i), details);
      if (k >= N && i < k - (N - 1)) must = want.size();
   }
   // only the direction "as seen in order" matters: what is there is a prefix, and long enough
   // (full details name the thread: the child's main thread has the same id as ours after fork)
   PBT_ASSERT(want.compare(0, got.size(), got) == 0 && got.size() <= want.size(), "after the kill the file is not a prefix of the expected content: %s", diff(got, want).c_str());
   PBT_ASSERT(got.size() >= must, "killed after %zu handled entries with interval %zu: the file has %zu bytes, the entries that must have survived end at byte %zu", k, N, got.size(), must);
   if (k > 0 && k < total) pbt::nontrivial();
   pbt::label("hard kills");
}
// Long histories: the size of the file after every single entry.
void volume_case(pbt::Source& s) {
   static const size_t v[] = {100, 1, 2, 3, 7, 60, 300, 1000, 5000};
   size_t N = v[s.below(9)];
   bool by_default = N == 100 && s.boolean();
   size_t total = s.chance(1, 3) ? 66000 + s.below(80000) : 250 + s.below(6000);
   pbt::describe("%zu entries with flush interval %zu%s", total, N, by_default ? " (default)" : "");
   Quiet q;
   auto sink = by_default ? std::make_unique<g3::FileSink>("pre", g_cur, "id") : std::make_unique<g3::FileSink>("pre", g_cur, "id", N);
   string path = sink->fileName();
   sink->overrideLogHeader("");
   vector<size_t> end{header_line(now_ns()).size()};
   end.reserve(total + 1);
   Spec e;
   e.file = "v.cpp", e.func = "f", e.level = &INFO, e.at = now_ns();
   for (size_t i = 0; i < total; ++i) {
      e.line = int(i);
      e.msg = std::to_string(i) + string(i * 31 % 17, 'v');
      sink->fileWrite(mover(e));
      end.push_back(end.back() + render(e, 0).size());
      struct stat st;
      PBT_ASSERT(stat(path.c_str(), &st) == 0, "the log file is gone");
      size_t must = i + 1 >= N ? end[i + 1 - (N - 1)] : 0;
      PBT_ASSERT(size_t(st.st_size) >= must && size_t(st.st_size) <= end[i + 1], "after %zu entries with flush interval %zu the file has %zu bytes; it must have %zu to %zu", i + 1, N, size_t(st.st_size), must, end[i + 1]);
      if (i % 4096 == 0) pbt::beat();
   }
   if (total > N) pbt::nontrivial();
   if (total > 65536) pbt::label("histories of more than 65536 entries");
   pbt::label("long histories");
}
}  // namespace

void pbt_case(pbt::Source& s) {
   case_begin(s);
   if (s.chance(1, 400)) {
      volume_case(s);
      case_end();
      return;
   }
   if (s.chance(1, 5)) {
      kill_case(s);
      case_end();
      return;
   }
   size_t N = gen_interval(s);
   size_t nops = s.size(N > 20 ? 260 : 100);
   bool changes = s.boolean();
   Quiet q;
   ::mkdir("d1", 0755);
   auto sink = std::make_unique<g3::FileSink>("pre", g_cur, "id", N);
   vector<string> files{sink->fileName()};
   vector<string> texts;
   vector<Snap> snaps;
   int details = 0;
   size_t bytes = 0;
   string ops;
   bool pending = false;
   auto snapshot = [&] {
      for (size_t f = 0; f < files.size(); ++f) {
         if (f + 3 < files.size()) continue;
         string c = slurp(files[f]);
         snaps.push_back(Snap{f, c.size(), texts.size(), files.size(), fnv(c.data(), c.size())});
      }
      if (!texts.empty() && texts.size() % N) pending = true;
   };
   for (size_t k = 0; k < nops && bytes < 400000; ++k) {
      switch (s.below(20)) {
      case 17:
         details = int(s.below(5));
         sink->overrideLogDetails(kDetails[details]);
         break;
      case 18: step_clock(s); break;
      case 19:
         if (changes) {
            if (s.chance(1, 4)) {
               string r = sink->changeLogFile("missing_dir/", "id");
               PBT_ASSERT(r.empty(), "a change into a missing directory reported success: %s", r.c_str());
               ops += " failed-change";
            } else {
               g_clock_ns += 1000000000;  // a new second: a new file
               string r = sink->changeLogFile(s.boolean() ? "./d1/" : "./", "id" + std::to_string(files.size()));
               PBT_ASSERT(!r.empty(), "a change of the log file into an existing directory failed");
               files.push_back(r);
               ops += " change";
            }
         }
         break;
      default: {
         Spec e = gen_entry(s, texts.size(), true);
         bytes += e.msg.size();
         sink->fileWrite(mover(e));
         texts.push_back(render(e, details));
         ops += " e";
      }
      }
      if (bytes < 60000 || k % 8 == 0) snapshot();
   }
   snapshot();
   pbt::describe("flush interval %zu, %zu entries, %zu files:%s\n", N, texts.size(), files.size(), ops.substr(0, 1500).c_str());
   sink.reset();
   vector<string> fin;
   for (auto& f : files) fin.push_back(slurp(f));
   // where every entry is in the final files
   vector<std::pair<size_t, size_t>> at;
   size_t f = 0, pos = 0;
   for (size_t i = 0; i < texts.size(); ++i) {
      size_t ff = f, p = pos, e = string::npos;
      for (; ff < fin.size(); ++ff, p = 0) {
         e = find_end(fin[ff], texts[i], p);
         if (e != string::npos) break;
      }
      PBT_ASSERT(e != string::npos, "entry %zu is not in the final file(s): %s", i, pbt::show(texts[i]).c_str());
      f = ff;
      pos = e;
      at.push_back({ff, e});
   }
   std::map<size_t, vector<Snap>> by;
   for (auto& sn : snaps) {
      PBT_ASSERT(sn.len <= fin[sn.file].size(), "file %zu shrank", sn.file);
      PBT_ASSERT(fnv(fin[sn.file].data(), sn.len) == sn.hash, "content seen after %zu entries in %s is not a prefix of its final content", sn.handled, files[sn.file].c_str());
      if (sn.handled + 1 > N) {
         size_t m = sn.handled - (N - 1);  // entries 0..m-1 must be there
         for (size_t i = m; i-- > 0;)
            if (at[i].first == sn.file) {
               PBT_ASSERT(sn.len >= at[i].second, "after %zu handled entries with flush interval %zu entry %zu was not completely in the file (%zu of %zu bytes)", sn.handled, N, i, sn.len, at[i].second);
               break;
            } else if (at[i].first >= sn.nfiles)
               pbt::fail("after %zu handled entries with flush interval %zu entry %zu was in no file yet", sn.handled, N, i);
      }
   }
   if (pending) pbt::nontrivial();
   if (files.size() > 1) pbt::label("with file changes");
   pbt::label("snapshots", snaps.size());
   case_end();
}

#elif PROP == 17
// ------------------------------------------------------------------------------------------------------------------- P17
namespace {
struct Target {
   string dir, id;
   bool ok;
};
const char* kOld = "EARLIER CONTENT OF THIS FILE\n";
void make_tree() {
   for (const char* d : {"d1", "d2", "sp ace", "d1/deep", "ro"}) ::mkdir(d, 0755);
   put("plainfile", "x");
   ::chmod("ro", 0555);
}
Target gen_target(pbt::Source& s, const string& prefix) {
   static const char* good[] = {"./", "d1/", "./d2/", "d1/deep/", "sp ace/", "d1/../d2/", "", "./pre_", "d1//"};
   static const char* ids[] = {"g3log", "a", "b.c", "", "x y", "\xc3\xa5", "%d", "-"};
   Target t;
   t.ok = true;
   unsigned k = unsigned(s.below(14));
   t.id = ids[s.below(8)];
   if (k < 9) {
      t.dir = good[k];
      if (s.chance(1, 4)) t.dir = g_cur + "/" + t.dir;
   } else {
      t.ok = false;
      switch (k) {
      case 9: t.dir = "missing/"; break;
      case 10: t.dir = "plainfile/"; break;
      case 11: t.dir = g_unpriv ? "ro/" : "missing/"; break;
      case 12: t.dir = "./"; t.id = string(300, 'n'); break;
      default: {
         // the very name is taken by a directory
         t.dir = "d2/";
         t.id = "dir";
         ::mkdir((t.dir + prefix + "." + t.id + "." + fmt_time(now_ns(), "%Y%m%d-%H%M%S") + ".log").c_str(), 0755);
      }
      }
   }
   return t;
}
struct Use {
   string path;      // as reported
   string real;      // canonical
};
string canon(const string& p) {
   std::error_code ec;
   return fs::weakly_canonical(p, ec).string();
}
void check_result(const Target& t, const string& prefix, const string& r, const string& before, const string& after) {
   if (!t.ok) {
      PBT_ASSERT(r.empty(), "changing to %s id %s cannot work but reported %s", t.dir.c_str(), pbt::show(t.id).c_str(), r.c_str());
      PBT_ASSERT(after == before, "a failed change left the file name %s instead of %s", after.c_str(), before.c_str());
      return;
   }
   PBT_ASSERT(!r.empty(), "changing to the usable directory '%s' id '%s' failed", t.dir.c_str(), t.id.c_str());
   PBT_ASSERT(after == r, "the change returned %s but the reported file name is %s", r.c_str(), after.c_str());
   PBT_ASSERT(r.compare(0, t.dir.size(), t.dir) == 0, "the returned path %s is not in the directory asked for, '%s'", r.c_str(), t.dir.c_str());
   PBT_ASSERT(t.id.empty() || base_name(r).find("." + t.id + ".") != string::npos, "the returned path %s does not name the id '%s'", r.c_str(), t.id.c_str());
   PBT_ASSERT(base_name(r).find(prefix) != string::npos, "the returned path %s lost the prefix", r.c_str());
   struct stat st;
   PBT_ASSERT(::stat(r.c_str(), &st) == 0 && S_ISREG(st.st_mode), "the returned path %s is not a file", r.c_str());
}
// entries are "{{id|...|id}}"; returns ids in order, fails on partial or altered ones
vector<size_t> scan(const string& path, const string& c, const vector<string>& texts) {
   vector<size_t> ids;
   size_t p = 0;
   while ((p = c.find("{{", p)) != string::npos) {
      size_t id = strtoul(c.c_str() + p + 2, nullptr, 10);
      PBT_ASSERT(id < texts.size(), "unknown entry in %s: %s", path.c_str(), pbt::show(c.substr(p, 80)).c_str());
      PBT_ASSERT(c.compare(p, texts[id].size(), texts[id]) == 0, "entry %zu is not written unaltered in %s: %s", id, path.c_str(), pbt::show(c.substr(p, 120)).c_str());
      p += texts[id].size();
      ids.push_back(id);
   }
   return ids;
}
void verify(const vector<Use>& uses, const vector<string>& texts, const vector<size_t>& order, const vector<size_t>& handled_in, const std::map<string, string>& earlier) {
   // uses: files in order of use; order: entry ids in delivery order; handled_in: per entry id index of the current use
   std::map<string, vector<size_t>> by;
   std::map<string, string> content;
   for (auto& u : uses)
      if (!content.count(u.real)) {
         content[u.real] = slurp(u.real);
         by[u.real] = scan(u.path, content[u.real], texts);
      }
   vector<string> where(texts.size());
   vector<size_t> rank(texts.size());
   for (size_t i = 0; i < order.size(); ++i) rank[order[i]] = i;
   for (auto& b : by) {
      for (size_t i = 0; i < b.second.size(); ++i) {
         PBT_ASSERT(where[b.second[i]].empty(), "entry %zu is written more than once (%s and %s)", b.second[i], where[b.second[i]].c_str(), b.first.c_str());
         where[b.second[i]] = b.first;
         if (i) PBT_ASSERT(rank[b.second[i - 1]] < rank[b.second[i]], "entries %zu and %zu are out of delivery order in %s", b.second[i - 1], b.second[i], b.first.c_str());
      }
   }
   for (size_t id : order) PBT_ASSERT(!where[id].empty(), "entry %zu is in none of the %zu files used", id, uses.size());
   for (size_t id : order)
      if (handled_in[id] != size_t(-1)) {
         bool ok = false;
         for (size_t u = handled_in[id]; u < uses.size(); ++u) ok |= uses[u].real == where[id];
         PBT_ASSERT(ok, "entry %zu was handled while %s was current but is in the earlier file %s", id, uses[handled_in[id]].path.c_str(), where[id].c_str());
      }
   // concatenation order, unless a file was returned to
   std::map<string, size_t> idx;
   bool reused = false;
   for (size_t u = 0; u < uses.size(); ++u) {
      if (idx.count(uses[u].real) && uses[u].real != uses[u - 1].real) reused = true;
      idx[uses[u].real] = u;
   }
   if (!reused) {
      size_t last = 0;
      for (size_t id : order) {
         PBT_ASSERT(idx[where[id]] >= last, "entry %zu is in an earlier file than an entry delivered before it", id);
         last = idx[where[id]];
      }
   }
   for (size_t u = 1; u < uses.size(); ++u) {
      PBT_ASSERT(content[uses[u - 1].real].find(uses[u].path) != string::npos, "%s does not record the location of its successor %s", uses[u - 1].path.c_str(), uses[u].path.c_str());
      PBT_ASSERT(content[uses[u].real].find(uses[u - 1].path) != string::npos, "%s does not record the location of its predecessor %s", uses[u].path.c_str(), uses[u - 1].path.c_str());
   }
   for (auto& e : earlier) {
      string c = slurp(e.first);
      PBT_ASSERT(c.compare(0, e.second.size(), e.second) == 0, "earlier content of %s was erased: now %s", e.first.c_str(), pbt::show(c).c_str());
   }
}

void threaded(pbt::Source& s) {
   size_t N = gen_interval(s);
   size_t nt = 1 + s.below(3), per = 1 + s.below(60), nch = 1 + s.below(6);
   vector<string> texts(nt * per);
   vector<std::pair<Target, unsigned>> plan;
   make_tree();
   for (size_t i = 0; i < nch; ++i) {
      Target t = gen_target(s, "pre");
      plan.push_back({t, unsigned(s.below(300))});
   }
   bool plain_string = s.boolean();
   for (size_t i = 0; i < texts.size(); ++i) texts[i] = "{{" + std::to_string(i) + "|" + string(s.below(30), char('a' + i % 26)) + "|" + std::to_string(i) + "}}";
   pbt::describe("%zu threads x %zu entries, interval %zu, changes:", nt, per, N);
   for (auto& p : plan) pbt::describe(" [%s,%s]", p.first.dir.c_str(), p.first.id.substr(0, 10).c_str());
   pbt::describe("\n");
   vector<Use> uses;
   vector<string> rec;
   std::map<string, string> earlier;
   size_t okc = 0, badc = 0;
   {
      Quiet q;
      auto worker = g3::LogWorker::createLogWorker();
      auto h = worker->addSink(std::make_unique<g3::FileSink>("pre", g_cur, "id", N), &g3::FileSink::fileWrite);
      auto r = worker->addSink(std::unique_ptr<Recorder>(new Recorder{&rec}), &Recorder::rec);
      g3::initializeLogging(worker.get());
      string cur = h->call(&g3::FileSink::fileName).get();
      uses.push_back({cur, canon(cur)});
      vector<std::thread> th;
      for (size_t t = 0; t < nt; ++t)
         th.emplace_back([&, t] {
            for (size_t i = 0; i < per; ++i) LOG(INFO) << texts[t * per + i];
         });
      for (auto& p : plan) {
         if (p.second > 100) usleep(p.second);
         string got = h->call(&g3::FileSink::changeLogFile, p.first.dir, p.first.id).get();
         string now = h->call(&g3::FileSink::fileName).get();
         check_result(p.first, "pre", got, cur, now);
         if (p.first.ok) {
            uses.push_back({got, canon(got)});
            ++okc;
         } else ++badc;
         cur = now;
      }
      for (auto& t : th) t.join();
      worker.reset();
   }
   vector<size_t> order, in(texts.size(), size_t(-1));
   for (auto& m : rec) order.push_back(strtoul(m.c_str() + 2, nullptr, 10));
   PBT_ASSERT(order.size() == texts.size(), "%zu of %zu entries were delivered", order.size(), texts.size());
   verify(uses, texts, order, in, earlier);
   if (okc || badc) pbt::nontrivial();
   pbt::label("concurrent with logging");
}
}  // namespace

void pbt_case(pbt::Source& s) {
   case_begin(s);
   if (s.chance(1, 5)) {
      threaded(s);
      case_end();
      return;
   }
   make_tree();
   size_t N = gen_interval(s);
   static const char* prefixes[] = {"pre", "p-1_x", "\xc3\xa5"};
   string prefix = prefixes[s.below(3)];
   size_t nops = s.size(60);
   Quiet q;
   std::map<string, string> earlier;
   string first_name = g_cur + "/" + prefix + ".id." + fmt_time(now_ns(), "%Y%m%d-%H%M%S") + ".log";
   if (s.chance(1, 4)) {
      put(first_name, kOld);
      earlier[first_name] = kOld;
   }
   auto sink = std::make_unique<g3::FileSink>(prefix, g_cur, "id", N);
   string cur = sink->fileName();
   vector<Use> uses{{cur, canon(cur)}};
   vector<string> texts;
   vector<size_t> order, in;
   string ops = "pre-existing=" + std::to_string(earlier.size());
   size_t okc = 0, badc = 0, since_bad = 0, since_ok = 0, before = 0;
   for (size_t k = 0; k < nops; ++k) {
      switch (s.below(8)) {
      case 4: step_clock(s); break;
      case 5:
      case 6: {
         Target t = gen_target(s, prefix);
         if (t.ok && s.chance(1, 4)) {
            string name = t.dir + prefix + "." + (t.id.empty() ? "" : t.id + ".") + fmt_time(now_ns(), "%Y%m%d-%H%M%S") + ".log";
            if (!exists(name)) {
               put(name, kOld);
               earlier[canon(name)] = kOld;
               ops += " (exists)";
            }
         }
         before = texts.size();
         string r = sink->changeLogFile(t.dir, t.id);
         string now = sink->fileName();
         ops += " change(" + t.dir + "," + t.id.substr(0, 12) + (t.ok ? ")" : ") fails");
         check_result(t, prefix, r, cur, now);
         if (t.ok) {
            uses.push_back({r, canon(r)});
            if (before) ++okc;
            since_ok = 0;
            if (uses[uses.size() - 1].real == uses[uses.size() - 2].real) pbt::label("changed to the same file");
         } else {
            ++badc;
            since_bad = 0;
         }
         cur = now;
         break;
      }
      case 7: PBT_ASSERT(sink->fileName() == cur, "fileName() is %s, current file is %s", sink->fileName().c_str(), cur.c_str()); break;
      default: {
         Spec e = gen_entry(s, texts.size(), false);
         // markers only at the ends
         for (size_t i = 2; i + 2 < e.msg.size(); ++i)
            if (e.msg[i] == '{' && e.msg[i + 1] == '{') e.msg[i] = '_';
         sink->fileWrite(mover(e));
         in.push_back(uses.size() - 1);
         order.push_back(texts.size());
         texts.push_back(e.msg);
         ++since_bad;
         ++since_ok;
         ops += " e";
      }
      }
   }
   pbt::describe("interval %zu prefix %s: %s\n", N, prefix.c_str(), ops.substr(0, 1800).c_str());
   sink.reset();
   verify(uses, texts, order, in, earlier);
   if ((okc && since_ok) || (badc && since_bad)) pbt::nontrivial();
   if (okc) pbt::label("successful changes", okc);
   if (badc) pbt::label("failed changes", badc);
   if (!earlier.empty()) pbt::label("targets with earlier content");
   case_end();
}

#elif PROP == 25
// ------------------------------------------------------------------------------------------------------------------- P25
namespace {
struct Use {
   string path;
   size_t from = 0, to = 0;  // entries handled while it was current
   bool header = false;      // the first file: its whole content is known
   bool faulty = false;      // writes to it may have failed
};
void arm(const string& path, size_t more, int err) {
   struct stat st;
   if (::stat(path.c_str(), &st)) pbt::inconclusive("stat %s", path.c_str());
   std::lock_guard<std::mutex> l(flt::m);
   flt::armed.push_back({st.st_dev, st.st_ino, more, err, false});
}
struct Faults {
   Faults() {
      flt::armed.clear();
      flt::chop = 0;
      flt::intr = 0;
      flt::chopped = 0;
      flt::below = g_cur;
      flt::on = 1;
   }
   ~Faults() { flt::on = 0; }
};
int gen_errno(pbt::Source& s) {
   static const int e[] = {ENOSPC, EIO, EDQUOT, EFBIG, EBADF, EAGAIN};
   return e[s.below(6)];
}
// complete entries in order; what follows the last complete one may be a cut-off entry only at the end of a faulty file
vector<size_t> scan(const Use& u, const string& c, const vector<string>& texts) {
   vector<size_t> ids;
   size_t p = 0;
   while ((p = c.find("{{", p)) != string::npos) {
      string rest = c.substr(p, 24);
      size_t bar = rest.find('|');
      if (bar == string::npos) {
         PBT_ASSERT(u.faulty && c.size() - p < 24, "garbled entry in %s: %s", u.path.c_str(), pbt::show(rest).c_str());
         break;
      }
      size_t id = strtoul(c.c_str() + p + 2, nullptr, 10);
      PBT_ASSERT(id < texts.size(), "unknown entry in %s: %s", u.path.c_str(), pbt::show(c.substr(p, 80)).c_str());
      size_t n = std::min(texts[id].size(), c.size() - p);
      PBT_ASSERT(c.compare(p, n, texts[id], 0, n) == 0, "entry %zu is not written unaltered in %s: %s", id, u.path.c_str(), pbt::show(c.substr(p, 120)).c_str());
      if (n < texts[id].size()) {
         PBT_ASSERT(u.faulty, "entry %zu is cut off in %s, although no write to that file failed", id, u.path.c_str());
         break;
      }
      PBT_ASSERT(ids.empty() || ids.back() < id, "entries %zu and %zu are out of order in %s", ids.back(), id, u.path.c_str());
      ids.push_back(id);
      p += n;
   }
   return ids;
}
void verify(const vector<Use>& uses, const vector<string>& texts, size_t N) {
   vector<int> where(texts.size(), -1);
   int last = -1;
   for (size_t u = 0; u < uses.size(); ++u) {
      if (uses[u].path.empty()) continue;  // (not a regular file)
      for (size_t id : scan(uses[u], slurp(uses[u].path), texts)) {
         PBT_ASSERT(where[id] < 0, "entry %zu is written twice, in %s and %s", id, uses[where[id]].path.c_str(), uses[u].path.c_str());
         where[id] = int(u);
         PBT_ASSERT(int(id) > last, "entry %zu is in a later file than an entry handled after it", id);
         last = int(id);
      }
   }
   for (size_t u = 0; u < uses.size(); ++u) {
      bool rest_ok = true;
      for (size_t v = u; v < uses.size(); ++v) rest_ok &= !uses[v].faulty;
      for (size_t id = uses[u].from; id < uses[u].to; ++id) {
         PBT_ASSERT(where[id] < 0 || where[id] >= int(u), "entry %zu is in a file that was left before", id);
         if (uses[u].faulty) continue;
         if (rest_ok) PBT_ASSERT(where[id] >= 0, "entry %zu was handled while %s was in use, no write to it or a later file failed, but it is in no file", id, uses[u].path.c_str());
         else if (uses[u].to >= N && id < uses[u].to - (N - 1)) PBT_ASSERT(where[id] == int(u), "entry %zu (of %zu handled by the time %s was left, flush interval %zu) is not in that file, which accepted every write", id, uses[u].to, uses[u].path.c_str(), N);
      }
   }
}
string entry_text(pbt::Source& s, size_t id) {
   string t = text_bytes(s, false);
   if (t.size() > 200000) t.resize(200000);
   for (size_t i = 0; i < t.size(); ++i)
      if (t[i] == '{') t[i] = '_';
   return "{{" + std::to_string(id) + "|" + t + "|" + std::to_string(id) + "}}";
}
string expected_name(const string& dir, const string& id) { return dir + "pre." + id + "." + fmt_time(now_ns(), "%Y%m%d-%H%M%S") + ".log"; }

// the sink alone
void direct(pbt::Source& s) {
   size_t N = gen_interval(s), nops = s.size(100);
   static const char* modes[] = {"write errors", "harmless short writes and interruptions", "file size limit", "/dev/full"};
   unsigned mode = unsigned(s.below(4));
   string ops;
   ::mkdir("d1", 0755);
   Faults fl;
   Quiet q;
   string first = expected_name(g_cur + "/", "id");
   vector<Use> uses;
   Use u0;
   u0.header = true;
   if (mode == 3 && s.boolean()) {
      if (::symlink("/dev/full", first.c_str())) pbt::inconclusive("symlink");
      u0.faulty = true;
   }
   if (mode == 1) {
      static const int ch[] = {0, 1, 2, 7, 100, 4096};
      flt::chop = ch[s.below(6)];
      if (unsigned k = unsigned(s.below(5))) flt::intr = k + 1;
   }
   struct rlimit old_lim;
   getrlimit(RLIMIT_FSIZE, &old_lim);
   int64_t t0 = now_ns();
   auto sink = std::make_unique<g3::FileSink>("pre", g_cur, "id", N);
   u0.path = u0.faulty ? "" : sink->fileName();
   uses.push_back(u0);
   string cur = sink->fileName();
   string want = header_line(t0) + kDefaultHeader;  // of the first file, as long as it is not left
   vector<string> texts;
   bool limited = false;
   size_t after_fault = 0, bytes = 0;
   for (size_t k = 0; k < nops && bytes < 2000000; ++k) {
      switch (s.below(16)) {
      case 11:
         if (!texts.empty()) step_clock(s);  // (the header has the time of the first entry or of the construction)
         break;
      case 12: {
         if (uses.back().faulty) break;
         if (mode == 0) {
            size_t more = s.boolean() ? s.below(300) : s.boolean() ? 0 : s.below(30000);
            arm(uses.back().path, more, gen_errno(s));
            uses.back().faulty = true;
            ops += " fault(+" + std::to_string(more) + ")";
         } else if (mode == 2 && !limited) {
            struct stat st;
            ::stat(cur.c_str(), &st);
            struct rlimit l = old_lim;
            l.rlim_cur = rlim_t(st.st_size) + s.below(s.boolean() ? 200 : 20000);
            setrlimit(RLIMIT_FSIZE, &l);
            limited = true;
            uses.back().faulty = true;
            ops += " limit(" + std::to_string(l.rlim_cur) + ")";
         }
         break;
      }
      case 13:
      case 14: {  // another file
         g_clock_ns += 1000000000;
         bool fails = s.chance(1, 4);
         string dir = fails ? "missing/" : s.boolean() ? "./d1/" : "./", id = "id" + std::to_string(uses.size());
         bool full = mode == 3 && !fails && s.chance(1, 3);
         if (full && ::symlink("/dev/full", expected_name(dir, id).c_str())) pbt::inconclusive("symlink");
         string r = sink->changeLogFile(dir, id);
         ops += fails ? " failed-change" : full ? " change-to-full" : " change";
         if (fails) {
            PBT_ASSERT(r.empty() && sink->fileName() == cur, "a change into a missing directory reported %s, file name %s instead of %s", r.c_str(), sink->fileName().c_str(), cur.c_str());
            if (uses.size() == 1) uses[0].header = false;  // (a note of unspecified wording follows)
         } else {
            PBT_ASSERT(!r.empty() && sink->fileName() == r, "changing to a usable directory failed after write errors (%s)", sink->fileName().c_str());
            uses.back().to = texts.size();
            Use u;
            u.from = texts.size();
            u.faulty = full || limited;
            u.path = full ? "" : r;
            uses.push_back(u);
            cur = r;
         }
         break;
      }
      case 15: PBT_ASSERT(sink->fileName() == cur, "fileName() is %s instead of %s", sink->fileName().c_str(), cur.c_str()); break;
      default: {
         Spec e;
         e.file = "w.cpp", e.func = "f", e.line = int(k), e.level = kLv[s.below(3)], e.at = now_ns();
         e.msg = entry_text(s, texts.size());
         bytes += e.msg.size();
         if (uses.size() == 1) want += render(e, 0);
         sink->fileWrite(mover(e));
         texts.push_back(e.msg);
         if (uses.back().faulty || flt::chopped) ++after_fault;
         ops += " e" + std::to_string(e.msg.size());
      }
      }
   }
   uses.back().to = texts.size();
   pbt::describe("%s, flush interval %zu:%s\n", modes[mode], N, ops.substr(0, 1800).c_str());
   sink.reset();
   setrlimit(RLIMIT_FSIZE, &old_lim);
   bool hit = flt::chopped != 0 || mode >= 2;
   for (auto& f : flt::armed) hit |= f.hit;
   // without a fault nothing may differ from a plain log file
   for (auto& u : uses)
      if (mode == 0 && u.faulty && !u.path.empty()) {
         struct stat st;
         ::stat(u.path.c_str(), &st);
         for (auto& f : flt::armed)
            if (f.ino == st.st_ino && f.dev == st.st_dev && !f.hit) u.faulty = false;
      }
   verify(uses, texts, N);
   if (uses[0].header && uses.size() == 1 && !uses[0].path.empty()) {
      string got = slurp(uses[0].path);
      want = (texts.empty() ? "" : want) + exit_line(now_ns());
      if (uses[0].faulty) PBT_ASSERT(got.size() <= want.size() && want.compare(0, got.size(), got) == 0, "after write errors the file is not a prefix of its expected content: %s", diff(got, want).c_str());
      else PBT_ASSERT(got == want, "no write failed, but the file is not header + entries + end mark: %s", diff(got, want).c_str());
   }
   if (hit && after_fault) pbt::nontrivial();
   pbt::label(modes[mode]);
   if (uses.size() > 1) pbt::label("with file changes");
}

// as one sink of a worker
struct ShmRec {
   std::atomic<uint32_t>* n;
   uint32_t* ids;
   std::atomic<uint32_t>* bad;
   void rec(g3::LogMessageMover m) {
      const string t = m.get().message();
      uint32_t k = n->fetch_add(1);
      if (k < 20000) ids[k] = t.compare(0, 2, "{{") == 0 ? uint32_t(strtoul(t.c_str() + 2, nullptr, 10)) : 0xffffffffu;
   }
};
struct Shm {
   std::atomic<uint32_t> n[3], bad[3], reached;
   uint32_t ids[3][20000];
};
static_assert(sizeof(Shm) <= sizeof(pbt::Shared::user), "");
void worker_case(pbt::Source& s) {
   size_t N = gen_interval(s), nt = 1 + s.below(3), per = 1 + s.below(60), nrec = 1 + s.below(3), nops = s.below(8), file_at = s.below(nrec + 1);
   unsigned end = unsigned(s.below(6));  // 0..2 orderly, 3 LOG(FATAL), 4 signal, 5 CHECK
   vector<string> texts;
   for (size_t i = 0; i < nt * per; ++i) texts.push_back(entry_text(s, i));
   size_t total = 0;
   for (auto& t : texts) total += t.size();
   struct Op {
      unsigned k;
      size_t more;
      int err;
      unsigned nap;
   };
   vector<Op> ops;
   for (size_t i = 0; i < nops; ++i) ops.push_back({unsigned(s.below(5)), s.boolean() ? s.below(300) : s.below(total + 1), gen_errno(s), unsigned(s.below(300))});
   bool from_start = s.boolean(), dev_full = s.chance(1, 4);
   pbt::describe("worker with the file sink at place %zu of %zu, %zu threads x %zu entries, flush interval %zu, %s, end %u, ops", file_at, nrec + 1, nt, per, N, dev_full ? "/dev/full" : from_start ? "writes fail from the start" : "writes fail later", end);
   for (auto& o : ops) pbt::describe(" %u(+%zu)", o.k, o.more);
   pbt::describe("\n");
   ::mkdir("d1", 0755);
   auto* sh = reinterpret_cast<Shm*>(pbt::shm->user);
   memset(static_cast<void*>(sh), 0, sizeof *sh);
   auto run = [&] {
      Faults fl;
      Quiet q;
      vector<Use> uses(1);
      if (dev_full) {
         if (::symlink("/dev/full", expected_name(g_cur + "/", "id").c_str())) pbt::inconclusive("symlink");
      }
      auto worker = g3::LogWorker::createLogWorker();
      std::unique_ptr<g3::FileSinkHandle> h;
      for (size_t i = 0; i <= nrec; ++i) {
         if (i == file_at) h = worker->addSink(std::make_unique<g3::FileSink>("pre", g_cur, "id", N), &g3::FileSink::fileWrite);
         if (i < nrec) worker->addSink(std::unique_ptr<ShmRec>(new ShmRec{&sh->n[i], sh->ids[i], &sh->bad[i]}), &ShmRec::rec);
      }
      g3::initializeLogging(worker.get());
      string cur = h->call(&g3::FileSink::fileName).get();
      if (!dev_full) {
         uses[0].path = cur;
         if (from_start) arm(cur, ops.empty() ? 0 : ops[0].more % 600, ENOSPC);
      }
      vector<std::thread> th;
      for (size_t t = 0; t < nt; ++t)
         th.emplace_back([&, t] {
            for (size_t i = 0; i < per; ++i) LOG(INFO) << texts[t * per + i];
         });
      bool armed = from_start || dev_full;
      size_t nuse = 1;
      for (auto& o : ops) {
         if (o.nap > 100) usleep(o.nap);
         switch (o.k) {
         case 0:
            if (!armed) arm(cur, o.more, o.err);
            armed = true;
            break;
         case 1: {
            string r = h->call(&g3::FileSink::changeLogFile, string("./d1/"), "id" + std::to_string(nuse++)).get();
            PBT_ASSERT(!r.empty(), "changing to a usable directory failed after write errors");
            cur = r;
            armed = false;
            uses.emplace_back();
            uses.back().path = r;
            break;
         }
         case 2: PBT_ASSERT(h->call(&g3::FileSink::changeLogFile, string("missing/"), string("x")).get().empty(), "a change into a missing directory reported success"); break;
         case 3: h->call(&g3::FileSink::overrideLogHeader, string("another header\n")).get(); break;
         default: PBT_ASSERT(h->call(&g3::FileSink::fileName).get() == cur, "fileName() through the handle is not %s", cur.c_str());
         }
      }
      for (auto& t : th) t.join();
      sh->reached = 1;
      if (end >= 3) {
         if (end == 3) LOG(FATAL) << "{{777777|fatal}}";
         if (end == 4) raise(SIGFPE);
         CHECK(nt == 0) << "{{777777|check}}";
      }
      worker.reset();
      for (auto& u : uses) u.faulty = true;  // (which write met the fault is not determined; order and integrity are)
      for (auto& u : uses) u.to = 0;
      if (!armed && uses.size() > 1) {
         // the last file accepted everything: entries logged after it was opened cannot be told apart here, but its end is known
         uses.back().faulty = false;
      }
      // per file: entries unaltered, none twice
      vector<int> seen(texts.size(), 0);
      for (auto& u : uses) {
         if (u.path.empty()) continue;
         string c = slurp(u.path);
         size_t p = 0;
         while ((p = c.find("{{", p)) != string::npos) {
            size_t id = strtoul(c.c_str() + p + 2, nullptr, 10);
            if (c.size() - p > 24 || c.find('|', p) != string::npos) {
               PBT_ASSERT(id < texts.size(), "unknown entry in %s: %s", u.path.c_str(), pbt::show(c.substr(p, 60)).c_str());
               size_t n = std::min(texts[id].size(), c.size() - p);
               PBT_ASSERT(c.compare(p, n, texts[id], 0, n) == 0, "entry %zu is not written unaltered in %s", id, u.path.c_str());
               if (n == texts[id].size()) PBT_ASSERT(++seen[id] == 1, "entry %zu is written twice", id);
               else PBT_ASSERT(u.faulty, "entry %zu is cut off in %s, although no write to it failed", id, u.path.c_str());
            }
            p += 2;
         }
         if (!u.faulty) PBT_ASSERT(c.find("g3log g3FileSink shutdown at: ") != string::npos, "%s, which accepted every write, has no end mark", u.path.c_str());
      }
      if (!from_start && !dev_full) {
         bool any = false;
         for (auto& o : ops) any |= o.k == 0;
         if (!any)
            for (size_t i = 0; i < texts.size(); ++i) PBT_ASSERT(seen[i] == 1, "no write failed, but entry %zu is in no file", i);
      }
   };
   if (end < 3) run();
   else {
      pid_t pid = fork();
      if (pid == 0) {
         run();
         _exit(55);
      }
      int st;
      waitpid(pid, &st, 0);
      int want = end == 4 ? SIGFPE : SIGABRT;
      if (pbt::shm->failed) pbt::fail("%s", pbt::shm->msg);
      PBT_ASSERT(sh->reached, "the process ended (wait status %x) before its fatal event, while the log file could not be written", st);
      PBT_ASSERT(WIFSIGNALED(st) && WTERMSIG(st) == want, "a fatal event while the log file cannot be written: wait status %x instead of death by signal %d", st, want);
      pbt::label("ended by a fatal event");
   }
   // the other sinks
   for (size_t i = 0; i < nrec; ++i) {
      uint32_t n = sh->n[i];
      PBT_ASSERT(n == texts.size() + (end >= 3), "sink %zu beside the failing log file got %u of %zu entries", i, n, texts.size() + (end >= 3));
      vector<int> seen(texts.size(), 0);
      vector<int> last(nt, -1);
      for (uint32_t k = 0; k < texts.size(); ++k) {
         uint32_t id = sh->ids[i][k];
         PBT_ASSERT(id < texts.size() && ++seen[id] == 1, "sink %zu beside the failing log file: entry number %u is %u", i, k, id);
         PBT_ASSERT(int(id) > last[id / per], "sink %zu beside the failing log file got entries of one thread out of order", i);
         last[id / per] = int(id);
      }
      if (end == 3 || end == 5) PBT_ASSERT(sh->ids[i][texts.size()] == 777777, "the fatal entry is not the last one at sink %zu", i);
   }
   pbt::nontrivial();
   pbt::label("one of several sinks");
}
}  // namespace
void pbt_case(pbt::Source& s) {
   case_begin(s);
   if (s.chance(1, 4)) worker_case(s);
   else direct(s);
   case_end();
}
#else
// ------------------------------------------------------------------------------------------------------------------- P18
namespace {
string gen_prefix(pbt::Source& s) {
   static const char removed[] = " \t\n\v\f\r/\\.:";
   static const char illegal[] = ",|<>:#$%{}[]'\"^!?+*";
   static const char* plain[] = {"log", "a", "my-log_1", "\xc3\xa5\xc3\xa4", "..", "../up", "/abs/path", "~", "&", "a(b)", "=@;`", "\x01\x7f"};
   string r;
   switch (s.below(8)) {
   case 0: return plain[s.below(12)];
   case 1: return string(1, char(1 + s.below(255)));
   case 2: return s.boolean() ? "" : string(1, removed[s.below(10)]);
   case 3: {
      size_t n = s.size(10);
      for (size_t i = 0; i < n; ++i) r += removed[s.below(10)];
      return r;
   }
   case 4: {
      r = plain[s.below(4)];
      r.insert(s.below(r.size() + 1), 1, illegal[s.below(19)]);
      return r;
   }
   case 5: return string(1 + s.below(200), 'p');
   default: {
      size_t n = 1 + s.size(14);
      for (size_t i = 0; i < n; ++i) switch (s.below(6)) {
         case 0: r += removed[s.below(10)]; break;
         case 1: r += s.chance(1, 10) ? illegal[s.below(19)] : 'z'; break;
         default: r += char('a' + s.below(26));
         }
      return r;
   }
   }
}
// a directory below (or beside) the current one, whose name may hold anything; mostly it exists
string gen_dir(pbt::Source& s) {
   static const char* comps[] = {".", "..", "a.", "...", "~", "$HOME", "%d", "x y", "tab\t", "-", "a:b", "\xc3\xa5", "new\nline", "q'\"", "*", "[x]", "v1.2.3", "log", "LOG", ".hidden", "a\\b"};
   string d;
   int ups = 0;
   size_t n = 1 + s.below(4);
   if (s.chance(1, 12)) n = 20 + s.below(60);
   bool create = !s.chance(1, 6);
   string made;
   size_t width = n > 10 ? 1 + s.below(90) : 6;
   for (size_t i = 0; i < n; ++i) {
      string c;
      if (n > 10) c = string(width, char('a' + i % 26));
      else if (s.chance(2, 3)) c = comps[s.below(21)];
      else
         for (size_t k = 1 + s.below(8); k-- > 0;) {
            char x = s.boolean() ? char(1 + s.below(255)) : "ab. "[s.below(4)];
            c += x == '/' ? '_' : x;
         }
      if (c == ".." && (ups++ || i)) c = "...";
      d += (d.empty() ? "" : "/") + c;
   }
   if (d[0] == '/' || d[0] == '\\') d[0] = 'd';   // (from a component that begins with a backslash)
   string real = d;
   std::replace(real.begin(), real.end(), '\\', '/');
   for (size_t p; (p = real.find("/../")) != string::npos;) real[p + 1] = d[p + 1] = 'u';
   if (real.size() > 2 && real.compare(real.size() - 3, 3, "/..") == 0) real[real.size() - 1] = d[real.size() - 1] = 'u';
   while (!real.empty() && (real.back() == '/' || real.back() == ' ')) real.pop_back();
   if (create) {
      std::error_code ec;
      fs::create_directories(real, ec);
      pbt::label("generated directories");
   }
   return d;
}
string model_prefix(const string& p) {
   string r;
   for (unsigned char c : p) {
      if ((c >= 9 && c <= 13) || c == ' ' || c == '/' || c == '\\' || c == '.' || c == ':') continue;
      r += char(c);
   }
   return r;
}
void snapshot_fd(int fd, const string& dir, std::map<string, ino_t>& out, int depth) {
   DIR* d = fd < 0 || depth > 150 ? nullptr : fdopendir(fd);   // (by descriptor: the joined path may be longer than PATH_MAX)
   if (!d) {
      if (fd >= 0) ::close(fd);
      return;
   }
   while (auto* e = readdir(d)) {
      string n = e->d_name;
      if (n == "." || n == "..") continue;
      string p = dir + "/" + n;
      struct stat st;
      if (::fstatat(dirfd(d), n.c_str(), &st, AT_SYMLINK_NOFOLLOW)) continue;
      if (S_ISDIR(st.st_mode)) snapshot_fd(::openat(dirfd(d), n.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC), p, out, depth + 1);
      else out[p] = st.st_ino;
   }
   closedir(d);
}
void snapshot_tree(const string& dir, std::map<string, ino_t>& out) { snapshot_fd(::open(dir.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC), dir, out, 0); }
}  // namespace
void pbt_case(pbt::Source& s) {
   case_begin(s);
   // tree: the process runs in <case>/work, so that an escape by ".." still lands inside the case directory
   for (const char* d : {"work", "work/dir", "work/dir/deep", "work/sp ace", "work/ro", "up", "work/back", "work/ lead"}) ::mkdir(d, 0755);
   put("work/file", "x");
   put("work/back\\slash", "x");
   ::chmod("work/ro", 0555);
   string root = g_cur;
   if (::chdir("work")) pbt::inconclusive("chdir");
   string prefix = gen_prefix(s);
   static const char* ids[] = {"g3log", "", "a", "x.y", " ", "id with space", "%f6", "\xc3\xa5", "#1"};
   string id = ids[s.below(9)];
   if (s.chance(1, 10)) id = string(1 + s.below(20), 'i');
   if (s.chance(1, 6)) {
      id.clear();
      for (size_t i = 1 + s.size(10); i-- > 0;) {
         char c = s.boolean() ? char(1 + s.below(255)) : ".:%\\ {}-_~"[s.below(10)];
         id += c == '/' ? '.' : c;
      }
   }
   static const char* dirs[] = {".", "", "dir", "./dir/deep", "sp ace", "../up", "missing", "missing/deeper", "ro", "file", "dir\\deep", "dir/deep//", "dir \\", "dir / /", " lead", "  ", ".\\dir", "dir//deep", "file/x", "dir/../dir", "back\\"};
   size_t dk = s.below(21);
   string dir = dirs[dk];
   if (s.chance(2, 5)) dir = gen_dir(s);
   bool abs = s.chance(1, 3) && dir != "" && dir != "  ";
   if (abs) dir = root + "/work/" + dir;
   for (size_t i = s.below(3); i-- > 0;) dir += " /\\"[s.below(3)];
   if (dir.empty() || dir.find_first_not_of(" /\\") != string::npos) {} else if (dir.find_first_of("/\\") != string::npos) dir = "";  // not the root directory
   unsigned ctor = unsigned(s.below(3));
   pbt::describe("prefix '%s' directory '%s' id '%s' ctor %u\n", pbt::show(prefix, 300).c_str(), pbt::show(dir).c_str(), pbt::show(id).c_str(), ctor);

   // reference model
   string mp = model_prefix(prefix);
   bool refused = mp.empty() || mp.find_first_of(",|<>:#$%{}[]'\"^!?+*") != string::npos;
   string name = mp + "." + (ctor == 1 ? string("g3log.") : id.empty() ? "" : id + ".") + fmt_time(now_ns(), "%Y%m%d-%H%M%S") + ".log";
   string loc = dir;
   std::replace(loc.begin(), loc.end(), '\\', '/');
   while (!loc.empty() && (loc.back() == '/' || loc.back() == ' ')) loc.pop_back();
   string target = loc.empty() ? name : loc + "/" + name;
   string where = loc.empty() ? "." : loc;
   struct stat st;
   bool usable = ::stat(where.c_str(), &st) == 0 && S_ISDIR(st.st_mode) && ::access(where.c_str(), W_OK | X_OK) == 0 && target.size() < 4096;
   string expected = usable ? target : "./" + name;
   if (name.size() > 255) {
      case_end();
      return;
   }
   std::map<string, ino_t> before, after;
   snapshot_tree(root, before);

   int p[2];
   if (pipe(p)) pbt::inconclusive("pipe");
   auto* rep = reinterpret_cast<char*>(pbt::shm->user);
   memset(rep, 0, 8192);
   pid_t pid = fork();
   if (pid == 0) {
      dup2(p[1], 2);
      close(p[0]);
      close(p[1]);
      signal(SIGABRT, SIG_DFL);
      string reported;
      if (ctor == 2) {
         auto w = g3::LogWorker::createLogWorker();
         auto h = id == "g3log" ? w->addDefaultLogger(prefix, dir) : w->addDefaultLogger(prefix, dir, id);
         reported = h->call(&g3::FileSink::fileName).get();
         snprintf(rep, 8000, "%s", reported.c_str());
         w.reset();
      } else {
         std::unique_ptr<g3::FileSink> f;
         if (ctor == 1) f = std::make_unique<g3::FileSink>(prefix, dir);
         else f = std::make_unique<g3::FileSink>(prefix, dir, id);
         reported = f->fileName();
         snprintf(rep, 8000, "%s", reported.c_str());
         Spec e;
         e.msg = "an entry";
         e.level = &INFO;
         f->fileWrite(mover(e));
         f.reset();
      }
      rep[8191] = 1;
      _exit(0);
   }
   close(p[1]);
   string err;
   char b[4096];
   ssize_t n;
   while ((n = read(p[0], b, sizeof b)) > 0) err.append(b, size_t(n));
   close(p[0]);
   int status;
   waitpid(pid, &status, 0);
   snapshot_tree(root, after);
   vector<string> fresh;
   for (auto& a : after)
      if (!before.count(a.first)) fresh.push_back(a.first);
   if (refused) {
      PBT_ASSERT(WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT, "the illegal prefix '%s' was not refused by aborting (wait status %x)", pbt::show(prefix).c_str(), status);
      PBT_ASSERT(!err.empty(), "the refused prefix '%s' was not explained on stderr", pbt::show(prefix).c_str());
      PBT_ASSERT(fresh.empty(), "a file was created for the refused prefix: %s", fresh[0].c_str());
      pbt::label("refused");
      pbt::nontrivial();
   } else {
      PBT_ASSERT(WIFEXITED(status) && WEXITSTATUS(status) == 0 && rep[8191] == 1, "construction with the legal prefix '%s' in '%s' ended the process (wait status %x): %s", pbt::show(prefix).c_str(), pbt::show(dir).c_str(), status, pbt::show(err, 300).c_str());
      string reported = rep;
      PBT_ASSERT(fresh.size() == 1, "%zu files were created instead of one: %s", fresh.size(), fresh.empty() ? "" : (fresh[0] + (fresh.size() > 1 ? " " + fresh[1] : "")).c_str());
      struct stat a, w;
      PBT_ASSERT(::stat(reported.c_str(), &a) == 0, "the reported file %s does not exist (created: %s)", pbt::show(reported).c_str(), pbt::show(fresh[0]).c_str());
      PBT_ASSERT(a.st_ino == after[fresh[0]], "reported %s but created %s", pbt::show(reported).c_str(), pbt::show(fresh[0]).c_str());
      PBT_ASSERT(::stat(expected.c_str(), &w) == 0 && a.st_ino == w.st_ino, "the file should be %s but is %s", pbt::show(expected, 400).c_str(), pbt::show(fresh[0], 400).c_str());
      PBT_ASSERT(a.st_size > 0, "nothing was written to the reported file");
      pbt::label(usable ? "in the directory asked for" : "in the current directory instead");
      if (mp != prefix || !usable || dir != dirs[dk] || dk > 3) pbt::nontrivial();
   }
   std::error_code ec;
   fs::permissions(root + "/work/ro", fs::perms::owner_all, ec);
   case_end();
}
#endif
