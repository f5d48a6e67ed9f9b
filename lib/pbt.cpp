#include "pbt.hpp"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <set>

namespace pbt {
Shared* shm = nullptr;

extern "C" void __asan_init() __attribute__((weak));
extern "C" void __tsan_init() __attribute__((weak));

namespace {
   uint64_t g_case_index = 0;
   bool g_nontrivial = false;
   bool g_thorough = false, g_verbose = false;
   std::string g_scratch;
   bool g_no_aslr_done = false;
   volatile pid_t g_child = 0;

   double now() {
      timespec t;
      clock_gettime(CLOCK_MONOTONIC, &t);
      return t.tv_sec + t.tv_nsec * 1e-9;
   }
   uint64_t mix(uint64_t x) {
      x += 0x9e3779b97f4a7c15ull;
      x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
      x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
      return x ^ (x >> 31);
   }
   uint64_t hash_bytes(const uint8_t* p, size_t n) {
      uint64_t h = 1469598103934665603ull;
      for (size_t i = 0; i < n; ++i) h = (h ^ p[i]) * 1099511628211ull;
      return mix(h ^ n) | 1;
   }
   void add_hash(uint64_t h) {
      size_t i = h & (kHashCap - 1);
      for (size_t k = 0; k < 64; ++k, i = (i + 1) & (kHashCap - 1)) {
         if (shm->hashes[i] == h) return;
         if (shm->hashes[i] == 0) {
            shm->hashes[i] = h;
            shm->nhashes++;
            return;
         }
      }
   }
   void json_str(FILE* f, const char* s) {
      fputc('"', f);
      for (; *s; ++s) {
         unsigned char c = *s;
         if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
         else if (c < 32 || c >= 127) fprintf(f, "\\u%04x", c);
         else fputc(c, f);
      }
      fputc('"', f);
   }

   enum Kind { OK, FAIL, CRASH, HANG, INCONCLUSIVE };
   const char* kind_name(Kind k) {
      static const char* n[] = {"ok", "property failure", "crash", "hang", "inconclusive"};
      return n[k];
   }
   struct Outcome {
      Kind kind = OK;
      std::string msg;
   };

   void run_one(Source& s) {
      g_nontrivial = false;
      shm->rec_len = 0;
      shm->desc[0] = 0;
      shm->started++;
      pbt_case(s);
      if (g_nontrivial) {
         shm->nontrivial++;
         uint64_t h = hash_bytes(shm->rec, shm->rec_len);
         uint64_t before = shm->nhashes;
         add_hash(h);
         if (shm->nhashes != before) {
            uint32_t k = shm->nsamples;
            if (k < (uint32_t)kMaxSamples && shm->desc[0] && (k < 2 || (g_case_index & (g_case_index - 1)) == 0 || g_case_index % 97 == 0)) {
               snprintf(shm->samples[k], kSampleCap, "%s", shm->desc);
               shm->nsamples = k + 1;
            }
         }
      }
      shm->cases++;
      shm->heartbeat++;
   }

   void child_setup() {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      rlimit rl{0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      // (a library gone wrong may queue or copy without end: it is to fail, not the machine; under the sanitizers: see resident())
      rlimit mem{rlim_t(3) << 30, rlim_t(3) << 30};
      if (!&__asan_init && !&__tsan_init) setrlimit(RLIMIT_DATA, &mem);
   }

   void kill_group(pid_t pid) {
      kill(-pid, SIGKILL);
      kill(pid, SIGKILL);
   }

   size_t resident(pid_t pid) {
      char n[64];
      snprintf(n, sizeof n, "/proc/%d/statm", int(pid));
      size_t all = 0, res = 0;
      if (FILE* f = fopen(n, "r")) {
         if (fscanf(f, "%zu %zu", &all, &res) != 2) res = 0;
         fclose(f);
      }
      return res * size_t(sysconf(_SC_PAGESIZE));
   }

   // waits for the child; hang detection through the heartbeat
   Outcome supervise(pid_t pid, double hang_s) {
      Outcome o;
      int st = 0;
      uint64_t hb = shm->heartbeat;
      double last = now(), looked = last;
      useconds_t nap = 100;
      for (;;) {
         pid_t r = waitpid(pid, &st, WNOHANG);
         if (r == pid) break;
         if (r < 0 && errno != EINTR) {
            o.kind = INCONCLUSIVE;
            o.msg = "waitpid failed";
            return o;
         }
         usleep(nap);
         if (nap < 4000) nap += nap / 2;
         if (now() - looked > 0.1) {
            looked = now();
            if (resident(pid) > size_t(4) << 30) {
               kill_group(pid);
               waitpid(pid, &st, 0);
               o.kind = CRASH;
               o.msg = "the process used more than 4 GB of memory";
               return o;
            }
         }
         uint64_t h = shm->heartbeat;
         if (h != hb) {
            hb = h;
            last = now();
         } else if (now() - last > hang_s) {
            kill_group(pid);
            waitpid(pid, &st, 0);
            o.kind = pbt_hang_is_violation ? HANG : INCONCLUSIVE;
            char b[200];
            snprintf(b, sizeof b, "no progress for %.0f s", hang_s);
            o.msg = b;
            return o;
         }
      }
      kill(-pid, SIGKILL);  // stragglers of the group
      if (shm->failed) {
         o.kind = FAIL;
         o.msg = shm->msg;
      } else if (shm->inconclusive) {
         o.kind = INCONCLUSIVE;
         o.msg = shm->msg;
      } else if (WIFSIGNALED(st)) {
         char b[200];
         snprintf(b, sizeof b, "process killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
         o.msg = b;
         o.kind = WTERMSIG(st) == SIGKILL ? INCONCLUSIVE : CRASH;
      } else if (WEXITSTATUS(st) != 0) {
         char b[200];
         snprintf(b, sizeof b, "process exited with status %d (sanitizer report, std::exit or uncaught failure)", WEXITSTATUS(st));
         o.msg = b;
         o.kind = CRASH;
      }
      return o;
   }

   void reset_flags() {
      shm->failed = 0;
      shm->inconclusive = 0;
      shm->msg[0] = 0;
   }

   // redirect stderr of the worker into a file so that sanitizer reports can be shown
   std::string g_errfile;
   void redirect_stderr() {
      if (g_verbose) return;
      int fd = open(g_errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
      if (fd >= 0) {
         dup2(fd, 2);
         close(fd);
      }
      fd = open("/dev/null", O_WRONLY);
      if (fd >= 0) {
         dup2(fd, 1);
         close(fd);
      }
   }
   std::string err_tail() {
      std::string s;
      FILE* f = fopen(g_errfile.c_str(), "rb");
      if (!f) return s;
      char buf[65536];
      // look for a sanitizer report first
      size_t n;
      std::string all;
      while ((n = fread(buf, 1, sizeof buf, f)) > 0 && all.size() < (8u << 20)) all.append(buf, n);
      fclose(f);
      size_t p = all.find("WARNING: ThreadSanitizer");
      if (p == std::string::npos) p = all.find("ERROR: AddressSanitizer");
      if (p == std::string::npos) p = all.find("ERROR: LeakSanitizer");
      if (p == std::string::npos) p = all.find("runtime error:");
      if (p == std::string::npos) p = all.size() > 1500 ? all.size() - 1500 : 0;
      return all.substr(p, 3000);
   }

   Outcome run_bytes(const std::vector<uint8_t>& bytes, double hang_s) {
      reset_flags();
      fflush(nullptr);
      pid_t pid = fork();
      if (pid == 0) {
         setpgid(0, 0);
         child_setup();
         redirect_stderr();
         pbt_init();
         Source s;
         s.data = bytes.data();
         s.n = bytes.size();
         run_one(s);
         fflush(nullptr);
         exit(0);
      }
      g_child = pid;
      Outcome o = supervise(pid, hang_s);
      g_child = 0;
      if (o.kind == CRASH) o.msg += "\n" + err_tail();
      return o;
   }

   bool is_bad(Kind k) { return k == FAIL || k == CRASH || k == HANG; }

   std::vector<uint8_t> shrink(std::vector<uint8_t> best, Kind kind, double budget, int tries_per, std::string& msg, std::string& desc) {
      double t0 = now();
      double hang = kind == HANG ? std::max(4.0, pbt_hang_s / 3) : pbt_hang_s;
      auto try_it = [&](const std::vector<uint8_t>& cand) -> bool {
         for (int i = 0; i < tries_per; ++i) {
            if (now() - t0 > budget) return false;
            Outcome o = run_bytes(cand, hang);
            if (o.kind == kind) {
               msg = o.msg;
               desc = shm->desc;
               std::vector<uint8_t> rec(shm->rec, shm->rec + shm->rec_len);
               while (!rec.empty() && rec.back() == 0) rec.pop_back();
               best = (rec.size() <= cand.size() && kind != CRASH && kind != HANG) ? rec : cand;
               return true;
            }
         }
         return false;
      };
      while (!best.empty() && best.back() == 0) best.pop_back();
      bool progress = true;
      while (progress && now() - t0 < budget) {
         progress = false;
         // truncate
         for (size_t cut = best.size() / 2; cut >= 1; cut /= 2) {
            while (best.size() > cut) {
               std::vector<uint8_t> c(best.begin(), best.end() - cut);
               if (!try_it(c)) break;
               progress = true;
            }
         }
         // delete / zero chunks
         for (size_t len : {256u, 64u, 16u, 8u, 4u, 2u, 1u}) {
            if (len > best.size()) continue;
            for (size_t i = 0; i + len <= best.size() && now() - t0 < budget;) {
               std::vector<uint8_t> c(best);
               c.erase(c.begin() + i, c.begin() + i + len);
               if (try_it(c)) {
                  progress = true;
                  continue;
               }
               c = best;
               bool nz = false;
               for (size_t k = 0; k < len; ++k) {
                  nz |= c[i + k] != 0;
                  c[i + k] = 0;
               }
               if (nz && try_it(c)) progress = true;
               i += len;
            }
         }
         // lower single bytes
         for (size_t i = 0; i < best.size() && now() - t0 < budget; ++i) {
            if (best[i] == 0) continue;
            std::vector<uint8_t> c(best);
            c[i] = best[i] / 2;
            if (try_it(c)) {
               progress = true;
               continue;
            }
            c = best;
            c[i]--;
            if (try_it(c)) progress = true;
         }
      }
      return best;
   }

   void rm_rf(const std::string& p) {
      if (p.size() < 12) return;
      std::string cmd = "rm -rf -- '" + p + "'";
      if (system(cmd.c_str())) {}
   }
}  // namespace


uint64_t Source::nextrand() {
   uint64_t s1 = rng[0];
   const uint64_t s0 = rng[1];
   const uint64_t result = s0 + s1;
   rng[0] = s0;
   s1 ^= s1 << 23;
   rng[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
   return result;
}
uint64_t Source::below(uint64_t lim) {
   int bytes = 8;
   if (lim != 0) {
      if (lim <= 1) return 0;
      bytes = lim <= (1ull << 8) ? 1 : lim <= (1ull << 16) ? 2 : lim <= (1ull << 32) ? 4 : 8;
   }
   uint64_t v = 0;
   if (random) {
      v = nextrand() >> 3;
      if (bytes == 8) v = nextrand() ^ (v << 17);
      if (lim) v %= lim;
   } else {
      for (int i = 0; i < bytes; ++i) {
         uint64_t b = pos < n ? data[pos] : 0;
         ++pos;
         v |= b << (8 * i);
      }
      if (lim) v %= lim;
   }
   record(v, bytes);
   return v;
}
void Source::record(uint64_t v, int bytes) {
   uint32_t l = __atomic_load_n((uint32_t*)&shm->rec_len, __ATOMIC_RELAXED);
   if (l + bytes <= kRecCap) {
      for (int i = 0; i < bytes; ++i) shm->rec[l + i] = uint8_t(v >> (8 * i));
      __atomic_store_n((uint32_t*)&shm->rec_len, l + bytes, __ATOMIC_RELAXED);
   }
}
int64_t Source::range(int64_t lo, int64_t hi) { return lo + int64_t(below(uint64_t(hi) - uint64_t(lo) + 1)); }
bool Source::boolean() { return below(2) != 0; }
bool Source::chance(unsigned num, unsigned den) { return below(den) >= den - num; }
size_t Source::size(size_t max) {
   switch (below(4)) {
   case 0: return below((max < 3 ? max : 3) + 1);
   case 1: return below((max < 8 ? max : 8) + 1);
   case 2: return below((max < 40 ? max : 40) + 1);
   default: return below(max + 1);
   }
}

void fail(const char* fmt, ...) {
   va_list ap;
   va_start(ap, fmt);
   char buf[kMsgCap];
   vsnprintf(buf, sizeof buf, fmt, ap);
   va_end(ap);
   uint32_t expect = 0;
   if (shm->failed.compare_exchange_strong(expect, 1)) {
      memcpy(shm->msg, buf, sizeof buf);
      std::atomic_thread_fence(std::memory_order_seq_cst);
   }
#ifdef PBT_LIBFUZZER
   fprintf(stderr, "PBT FAILURE: %s\n%s\n", buf, shm->desc);
   __builtin_trap();
#endif
   _exit(77);
}
void inconclusive(const char* fmt, ...) {
   va_list ap;
   va_start(ap, fmt);
   char buf[kMsgCap];
   vsnprintf(buf, sizeof buf, fmt, ap);
   va_end(ap);
   uint32_t expect = 0;
   if (!shm->failed && shm->inconclusive.compare_exchange_strong(expect, 1)) memcpy(shm->msg, buf, sizeof buf);
   _exit(78);
}
void label(const char* name, uint64_t add) {
   // called from any thread/process of one case at a time; registration is guarded by a tiny spin lock
   uint32_t n = shm->nlabels;
   for (uint32_t i = 0; i < n; ++i)
      if (!strcmp(shm->label_name[i], name)) {
         shm->label_count[i] += add;
         return;
      }
   while (shm->user_lock.exchange(1)) {}
   n = shm->nlabels;
   uint32_t i = 0;
   for (; i < n; ++i)
      if (!strcmp(shm->label_name[i], name)) break;
   if (i == n && n < (uint32_t)kMaxLabels) {
      snprintf(shm->label_name[n], 64, "%s", name);
      shm->nlabels = n + 1;
   }
   shm->user_lock = 0;
   if (i < (uint32_t)kMaxLabels) shm->label_count[i] += add;
}
void nontrivial() { g_nontrivial = true; }
bool is_nontrivial() { return g_nontrivial; }
void describe_str(const std::string& s) {
   size_t l = strlen(shm->desc);
   if (l + 1 >= kMsgCap) return;
   size_t n = std::min(s.size(), kMsgCap - 1 - l);
   memcpy(shm->desc + l, s.data(), n);
   shm->desc[l + n] = 0;
}
void describe(const char* fmt, ...) {
   size_t l = strlen(shm->desc);
   if (l + 1 >= kMsgCap) return;
   va_list ap;
   va_start(ap, fmt);
   vsnprintf(shm->desc + l, kMsgCap - l, fmt, ap);
   va_end(ap);
}
void beat() { shm->heartbeat++; }
uint64_t case_index() { return g_case_index; }
bool thorough() { return g_thorough; }
bool verbose() { return g_verbose; }
const char* scratch() { return g_scratch.c_str(); }
std::string show(const std::string& s, size_t max) {
   std::string o;
   size_t n = std::min(s.size(), max);
   for (size_t i = 0; i < n; ++i) {
      unsigned char c = s[i];
      char b[8];
      if (c == '\n') o += "\\n";
      else if (c == '\t') o += "\\t";
      else if (c == '\\') o += "\\\\";
      else if (c < 32 || c >= 127) {
         snprintf(b, sizeof b, "\\x%02x", c);
         o += b;
      } else o += char(c);
   }
   if (s.size() > max) o += "...(" + std::to_string(s.size()) + " bytes)";
   return o;
}
}  // namespace pbt

using namespace pbt;

static void map_shm() {
   shm = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   if (shm == MAP_FAILED) {
      perror("mmap");
      exit(2);
   }
}

#ifdef PBT_LIBFUZZER
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
   static bool once = [] { map_shm(); g_scratch = "/tmp"; pbt_init(); return true; }();
   (void)once;
   shm->rec_len = 0;
   shm->desc[0] = 0;
   Source s;
   s.data = d;
   s.n = n;
   pbt_case(s);
   return 0;
}
#else
static void on_term(int) {
   if (g_child) kill_group(g_child);
   _exit(3);
}

extern "C" int pbt_child_main() __attribute__((weak));  // a harness that executes itself as the program under test
int main(int argc, char** argv) {
   if (pbt_child_main && getenv("PBT_CHILD")) return pbt_child_main();
   uint64_t seed = 1, cases = 1000;
   double budget = 60, shrink_budget = 40;
   int batch = pbt_default_batch, shard = 0, confirm_tries = 3;
   bool deterministic = false;
   std::string out, replay, failfile;
   for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto val = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
      if (a == "--seed") seed = strtoull(val(), nullptr, 10);
      else if (a == "--cases") cases = strtoull(val(), nullptr, 10);
      else if (a == "--time") budget = atof(val());
      else if (a == "--shrink-time") shrink_budget = atof(val());
      else if (a == "--batch") batch = atoi(val());
      else if (a == "--shard") shard = atoi(val());
      else if (a == "--confirm") confirm_tries = atoi(val());
      else if (a == "--deterministic") deterministic = true;
      else if (a == "--out") out = val();
      else if (a == "--replay") replay = val();
      else if (a == "--fail-file") failfile = val();
      else if (a == "--scratch") g_scratch = val();
      else if (a == "--thorough") g_thorough = true;
      else if (a == "--verbose") g_verbose = true;
      else if (a == "--no-aslr") {
         if (!getenv("PBT_NOASLR")) {
            setenv("PBT_NOASLR", "1", 1);
            int p = personality(0xffffffff);
            if (p != -1 && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
         }
      }
   }
   g_no_aslr_done = true;
   if (batch < 1) batch = 1;
   map_shm();
   signal(SIGTERM, on_term);
   signal(SIGINT, on_term);
   signal(SIGPIPE, SIG_IGN);
   bool own_scratch = false;
   if (g_scratch.empty()) {
      char t[] = "/tmp/pbt.XXXXXX";
      if (!mkdtemp(t)) return 2;
      g_scratch = t;
      own_scratch = true;
   } else {
      mkdir(g_scratch.c_str(), 0755);
   }
   g_errfile = g_scratch + "/stderr.txt";

   if (!replay.empty()) {
      std::vector<uint8_t> b;
      FILE* f = fopen(replay.c_str(), "rb");
      if (!f) return 2;
      int c;
      while ((c = fgetc(f)) != EOF) b.push_back(uint8_t(c));
      fclose(f);
      Outcome o = run_bytes(b, pbt_hang_s);
      printf("case:\n%s\noutcome: %s %s\n", shm->desc, kind_name(o.kind), o.msg.c_str());
      if (own_scratch) rm_rf(g_scratch);
      return is_bad(o.kind) ? 1 : 0;
   }

   double t0 = now();
   uint64_t done = 0, crashes_unconfirmed = 0, fails_unconfirmed = 0, inconcl = 0;
   std::string unconfirmed_first;
   bool violated = false;
   Kind vkind = OK;
   std::string vmsg, vdesc;
   std::vector<uint8_t> vbytes;
   int confirmed_runs = 0;
   while (done < cases && now() - t0 < budget && !violated) {
      uint64_t todo = std::min<uint64_t>(batch, cases - done);
      uint64_t before = shm->started;
      reset_flags();
      fflush(nullptr);
      pid_t pid = fork();
      if (pid == 0) {
         setpgid(0, 0);
         child_setup();
         redirect_stderr();
         pbt_init();
         for (uint64_t k = 0; k < todo; ++k) {
            g_case_index = done + k;
            Source s;
            s.random = true;
            uint64_t base = mix(seed * 1000003ull + shard) ^ mix(g_case_index + 77);
            s.rng[0] = mix(base);
            s.rng[1] = mix(base ^ 0x1234567) | 1;
            run_one(s);
            if (now() - t0 > budget) break;
         }
         fflush(nullptr);
         exit(0);
      }
      g_child = pid;
      Outcome o = supervise(pid, pbt_hang_s);
      g_child = 0;
      uint64_t started = shm->started - before;
      if (o.kind == OK) {
         done += std::max<uint64_t>(started, 1);
         continue;
      }
      done += std::max<uint64_t>(started, 1);
      if (o.kind == CRASH) o.msg += "\n" + err_tail();
      if (o.kind == INCONCLUSIVE) {
         inconcl++;
         if (unconfirmed_first.empty()) unconfirmed_first = o.msg;
         continue;
      }
      // replay alone, in fresh processes
      std::vector<uint8_t> bytes(shm->rec, shm->rec + shm->rec_len);
      std::string desc0 = shm->desc;
      int tries = deterministic ? 3 : confirm_tries;
      int good = 0, bad = 0;
      Outcome last;
      std::string rdesc;
      for (int k = 0; k < tries; ++k) {
         Outcome r = run_bytes(bytes, pbt_hang_s);
         if (is_bad(r.kind)) {
            ++bad;
            last = r;
            rdesc = shm->desc;
            if (!deterministic && bad >= 2) break;
            if (r.kind == HANG && bad >= 2) break;
         } else ++good;
      }
      if (bad == 0) {
         // A race report states two accesses that nothing orders: it is evidence in itself, whether or not the schedule returns.
         bool race = o.kind == CRASH && o.msg.find("WARNING: ThreadSanitizer") != std::string::npos;
         if (o.kind == FAIL || race) fails_unconfirmed++;
         else crashes_unconfirmed++;
         if (unconfirmed_first.empty() || o.kind == FAIL) unconfirmed_first = std::string(kind_name(o.kind)) + ": " + o.msg + "\n" + desc0;
         // A failing oracle that did not reproduce on this schedule: believed when it happens again independently.
         if ((o.kind == FAIL || race) && fails_unconfirmed >= 3) {
            violated = true;
            vkind = o.kind;
            vmsg = o.msg + "\n(observed in " + std::to_string(fails_unconfirmed) + " independent cases; schedule dependent)";
            vdesc = desc0;
            vbytes = bytes;
         }
         continue;
      }
      violated = true;
      confirmed_runs = bad;
      vkind = last.kind;
      vmsg = last.msg;
      vdesc = rdesc;
      vbytes = bytes;
      int per = bad == tries || bad >= 2 ? (good ? 4 : 1) : 6;
      std::string m = vmsg, d = vdesc;
      vbytes = shrink(bytes, vkind, shrink_budget, deterministic ? 1 : per, m, d);
      vmsg = m;
      vdesc = d;
   }
   double wall = now() - t0;
   if (violated && !failfile.empty()) {
      FILE* f = fopen(failfile.c_str(), "wb");
      if (f) {
         fwrite(vbytes.data(), 1, vbytes.size(), f);
         fclose(f);
      }
   }
   FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
   if (!f) return 2;
   fprintf(f, "{\"cases\": %lu, \"nontrivial\": %lu, \"distinct\": %lu, \"wall\": %.2f, \"crash_unconfirmed\": %lu, \"fail_unconfirmed\": %lu, \"inconclusive\": %lu, ",
           (unsigned long)shm->cases, (unsigned long)shm->nontrivial, (unsigned long)shm->nhashes, wall, (unsigned long)crashes_unconfirmed, (unsigned long)fails_unconfirmed, (unsigned long)inconcl);
   fprintf(f, "\"violated\": %s, \"confirmed\": %d, \"kind\": ", violated ? "true" : "false", confirmed_runs);
   json_str(f, violated ? kind_name(vkind) : "");
   fprintf(f, ", \"msg\": ");
   json_str(f, vmsg.c_str());
   fprintf(f, ", \"desc\": ");
   json_str(f, vdesc.c_str());
   fprintf(f, ", \"unconfirmed\": ");
   json_str(f, unconfirmed_first.c_str());
   fprintf(f, ", \"rule\": ");
   json_str(f, pbt_rule);
   fprintf(f, ", \"labels\": {");
   for (uint32_t i = 0; i < shm->nlabels; ++i) {
      if (i) fprintf(f, ", ");
      json_str(f, shm->label_name[i]);
      fprintf(f, ": %lu", (unsigned long)shm->label_count[i]);
   }
   fprintf(f, "}, \"samples\": [");
   for (uint32_t i = 0; i < shm->nsamples; ++i) {
      if (i) fprintf(f, ", ");
      json_str(f, shm->samples[i]);
   }
   fprintf(f, "]}\n");
   if (f != stdout) fclose(f);
   if (!out.empty()) {
      FILE* h = fopen((out + ".hashes").c_str(), "wb");
      if (h) {
         for (size_t i = 0; i < kHashCap; ++i)
            if (shm->hashes[i]) fwrite(&shm->hashes[i], 8, 1, h);
         fclose(h);
      }
   }
   if (own_scratch) rm_rf(g_scratch);
   return violated ? 1 : 0;
}
#endif
