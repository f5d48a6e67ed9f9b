// See sched.hpp.  Compiled WITHOUT -fsanitize=thread.
#ifndef USE_SCHED
#define USE_SCHED
#endif
#include "sched.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <malloc.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <chrono>

extern "C" void __libc_free(void*);
extern "C" void* __libc_malloc(size_t);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);

namespace {
constexpr int kMaxThreads = 64;
constexpr uint64_t kMaxSteps = 3000000;

enum State : uint8_t { FREE, RUNNABLE, B_MUTEX, B_COND, B_JOIN, B_FUTEX, B_ONCE, B_GUARD, B_SLEEP, B_RWLOCK, B_SEM, DONE };
const char* kStateName[] = {"free", "runnable", "mutex", "condvar", "join", "future", "once", "static-init", "sleep", "rwlock", "semaphore", "done"};

struct Thread {
   int gate = 0;                // futex: 1 = may run
   State state = FREE;
   void* obj = nullptr;         // what it is blocked on
   void* obj2 = nullptr;        // mutex to reacquire
   bool timed = false;
   bool timed_out = false;
   uint64_t wake_at = 0;        // virtual ns, when timed or sleeping
   int prio = 0;
   pthread_t real;
   void* (*fn)(void*) = nullptr;
   void* arg = nullptr;
   void* ret = nullptr;
   bool detached = false;
   bool low = false;            // yielded: run others first
};

Thread T[kMaxThreads];
int nthreads = 0;
bool g_active = false;
pbt::Source* src = nullptr;
uint64_t g_steps = 0, g_switches = 0, vtime = 0;
// What managed threads see of the clocks: real time at the start plus virtual time (waits and sleeps) plus a little per step.
uint64_t clock_base[2];          // CLOCK_REALTIME, CLOCK_MONOTONIC
uint64_t vclock(clockid_t c) { return clock_base[c == CLOCK_REALTIME ? 0 : 1] + vtime + g_steps * 100; }
int cur = 0;
bool dl_fail = true;
int64_t countdown = 0;          // memory accesses until the next preemption
int strategy = 0;               // 0 run-to-block, 1 random walk, 2 priorities
unsigned walk_den = 4;
int next_change = 0;
uint64_t change_points[8];
int n_change = 0;
int low_prio = -1;
unsigned spurious_den = 0;
unsigned timeouts_den = 0;

thread_local int my_id = -1;
bool g_in = false;               // inside the scheduler: helpers shared with instrumented code must not re-enter

struct In {
   bool was = g_in;
   In() { g_in = true; }
   ~In() { g_in = was; }
};

struct MutexRec { void* addr; int owner; int count; };
constexpr int kMaxMutex = 4096;
MutexRec mutexes[kMaxMutex];
int nmutex = 0;
struct RwRec { void* addr; int writer; int readers; };
RwRec rws[512];
int nrw = 0;
struct OnceRec { void* addr; int owner; };
OnceRec onces[256];
int nonce = 0;

// ------------------------------------------------------------------------------------- happens-before race detection
// Vector clocks per thread and per synchronisation object, four access records per 8 bytes of memory, records of freed
// blocks.  Only active between begin() and end() after detect_races(true).
bool g_races_wanted = false, g_races = false;
struct VC { uint32_t c[kMaxThreads]; };
VC tvc[kMaxThreads];
constexpr size_t kSync = 1u << 13;
struct SyncRec { void* addr; VC vc; };
SyncRec* syncs = nullptr;
size_t nsync = 0;
VC fence_vc;
struct Cell { uint32_t clk; uint8_t tid, mask, write, pad; void* pc; };
struct Gran { Cell cell[4]; void* freed_pc; uint8_t freed, freed_by, ignore, next; };
constexpr size_t kPageGran = 512;
struct Page { uintptr_t no; uint32_t era; Gran g[kPageGran]; };
constexpr size_t kPages = 1u << 16;
Page** pages = nullptr;
uint32_t era = 0;
constexpr size_t kQuarantine = 1u << 17;
void** quarantine = nullptr;
size_t nquar = 0;
__thread bool next_is_exception = false;

void* sys_alloc(size_t n) {
   void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   if (p == MAP_FAILED) pbt::inconclusive("no memory for the race detector");
   return p;
}
Page* page_of(uintptr_t a, bool create) {
   uintptr_t no = a >> 12;
   size_t i = (no * 0x9e3779b97f4a7c15ull) >> 48;
   for (;; i = (i + 1) & (kPages - 1)) {
      Page* p = pages[i];
      if (!p) {
         if (!create) return nullptr;
         static char* pool = nullptr;
         static size_t left = 0;
         if (left < sizeof(Page)) {
            left = 64 * sizeof(Page);
            pool = (char*)sys_alloc(left);
         }
         p = (Page*)pool;
         pool += sizeof(Page);
         left -= sizeof(Page);
         p->no = no;
         p->era = era;
         pages[i] = p;
         return p;
      }
      if (p->no == no) {
         if (p->era != era) {
            if (!create) return nullptr;
            __builtin_memset((void*)p->g, 0, sizeof p->g);
            p->era = era;
         }
         return p;
      }
   }
}
void join_vc(VC& a, const VC& b) {
   for (int i = 0; i < nthreads; ++i)
      if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
SyncRec* sync_of(void* a, bool create) {
   size_t i = ((uintptr_t)a * 0x9e3779b97f4a7c15ull) >> (64 - 13);
   for (size_t k = 0; k < kSync; ++k, i = (i + 1) & (kSync - 1)) {
      if (syncs[i].addr == a) return &syncs[i];
      if (!syncs[i].addr) {
         if (!create) return nullptr;
         if (++nsync > kSync - 16) pbt::inconclusive("too many synchronisation objects");
         syncs[i].addr = a;
         return &syncs[i];
      }
   }
   return nullptr;
}
void acquire(void* a) {
   if (!g_races || my_id < 0) return;
   if (SyncRec* r = sync_of(a, false)) join_vc(tvc[my_id], r->vc);
}
void release(void* a, bool replace = false) {
   if (!g_races || my_id < 0) return;
   SyncRec* r = sync_of(a, true);
   if (replace) __builtin_memset((void*)&r->vc, 0, sizeof r->vc);
   join_vc(r->vc, tvc[my_id]);
   tvc[my_id].c[my_id]++;
}
void where(char* b, size_t n, void* pc) {
   Dl_info di;
   b[0] = 0;
   if (!pc || !dladdr(pc, &di) || !di.dli_fname) {
      snprintf(b, n, "%p", pc);
      return;
   }
   snprintf(b, n, "%s+0x%lx", di.dli_sname ? di.dli_sname : "?", (unsigned long)((char*)pc - (char*)di.dli_fbase));
   char cmd[600];
   snprintf(cmd, sizeof cmd, "addr2line -ifCe '%s' 0x%lx 2>/dev/null | head -12", di.dli_fname, (unsigned long)((char*)pc - 1 - (char*)di.dli_fbase));
   FILE* f = popen(cmd, "r");
   if (!f) return;
   size_t l = strlen(b);
   char line[400];
   while (fgets(line, sizeof line, f) && l + 4 < n) {
      line[strcspn(line, "\n")] = 0;
      l += size_t(snprintf(b + l, n - l, "\n      %s", line));
      if (l >= n) l = n - 1;
   }
   pclose(f);
}
[[noreturn]] void report(const char* what, uintptr_t a, size_t n, bool write, void* pc, const char* what2, int tid2, void* pc2) {
   g_in = true;
   g_races = false;
   char w1[2500], w2[2500];
   where(w1, sizeof w1, pc);
   where(w2, sizeof w2, pc2);
   pbt::fail("%s: thread T%d %s %zu bytes at %p\n   in %s\n   after thread T%d %s\n   in %s", what, my_id, write ? "writes" : "reads", n, (void*)a, w1, tid2, what2, w2);
}
void access_granule(uintptr_t a, unsigned off, unsigned n, bool write, void* pc, bool freeing) {
   Page* p = page_of(a, true);
   Gran& g = p->g[(a & 4095) >> 3];
   if (g.ignore) return;
   if (g.freed) report(freeing ? "freed twice" : "use of freed memory", a, n, write, pc, "freed it", g.freed_by, g.freed_pc);
   uint8_t mask = uint8_t(((1u << n) - 1) << off);
   VC& me = tvc[my_id];
   int slot = -1;
   for (int i = 0; i < 4; ++i) {
      Cell& c = g.cell[i];
      if (!c.mask) {
         if (slot < 0) slot = i;
         continue;
      }
      if (c.tid == my_id) {
         if (c.mask == mask && (c.write == uint8_t(write) || !c.write)) slot = i;
         else if (c.mask == mask && c.write && !write && c.clk == me.c[my_id]) return;
         continue;
      }
      if (!(c.mask & mask) || (!c.write && !write)) continue;
      if (c.clk >= me.c[c.tid] + 1) {
         report("data race", a + off, n, write, pc, c.write ? "wrote it" : "read it", c.tid, c.pc);
      }
      if (slot < 0 && c.mask == mask && write) slot = i;  // ordered before this write
   }
   if (slot < 0) {
      slot = g.next & 3;
      g.next++;
   }
   g.cell[slot] = Cell{me.c[my_id], uint8_t(my_id), mask, uint8_t(write), 0, pc};
}
void race_access(uintptr_t a, size_t n, bool write, void* pc, bool freeing = false) {
   while (n) {
      unsigned off = a & 7;
      unsigned k = unsigned(8 - off < n ? 8 - off : n);
      access_granule(a - off, off, k, write, pc, freeing);
      a += k;
      n -= k;
   }
}
void clear_range(uintptr_t a, size_t n, bool ignore = false) {
   uintptr_t e = a + n;
   for (uintptr_t x = a & ~uintptr_t(7); x < e;) {
      Page* p = page_of(x, ignore);
      if (!p) {
         x = (x | 4095) + 1;
         continue;
      }
      Gran& g = p->g[(x & 4095) >> 3];
      __builtin_memset((void*)&g, 0, sizeof g);
      g.ignore = ignore;
      x += 8;
   }
}
void detector_begin() {
   g_races = g_races_wanted;
   if (!g_races) return;
   if (!pages) {
      pages = (Page**)sys_alloc(kPages * sizeof(Page*));
      syncs = (SyncRec*)sys_alloc(kSync * sizeof(SyncRec));
      quarantine = (void**)sys_alloc(kQuarantine * sizeof(void*));
   }
   ++era;
   for (size_t i = 0; i < kSync; ++i)
      if (syncs[i].addr) __builtin_memset((void*)&syncs[i], 0, sizeof syncs[i]);
   nsync = 0;
   __builtin_memset((void*)tvc, 0, sizeof tvc);
   __builtin_memset((void*)&fence_vc, 0, sizeof fence_vc);
   tvc[0].c[0] = 1;
}
void detector_end() {
   if (!g_races) return;
   g_races = false;
   for (size_t i = 0; i < nquar; ++i) __libc_free(quarantine[i]);
   nquar = 0;
}

int futex(int* a, int op, int v) { return syscall(SYS_futex, a, op | FUTEX_PRIVATE_FLAG, v, nullptr, nullptr, 0); }
void gate_wait(int id) {
   while (__atomic_exchange_n(&T[id].gate, 0, __ATOMIC_ACQUIRE) == 0) futex(&T[id].gate, FUTEX_WAIT, 0);
}
void gate_open(int id) {
   __atomic_store_n(&T[id].gate, 1, __ATOMIC_RELEASE);
   futex(&T[id].gate, FUTEX_WAKE, 1);
}

template <class F>
F real(const char* name) {
   return (F)dlsym(RTLD_NEXT, name);
}

void describe_threads(char* b, size_t n) {
   size_t l = 0;
   for (int i = 0; i < nthreads && l < n - 64; ++i) l += snprintf(b + l, n - l, " T%d:%s", i, kStateName[T[i].state]);
}

void draw_countdown() {
   // 0 (simplest): no preemption on plain memory accesses for a long time
   switch (src->below(8)) {
   case 1: countdown = 1 + src->below(8); break;
   case 2: countdown = 1 + src->below(64); break;
   case 3: countdown = 1 + src->below(256); break;
   case 4: countdown = 1 + src->below(2048); break;
   default: countdown = 20000; break;
   }
}

// picks who runs next; the current thread's state is already set
int choose() {
   for (;;) {
      int run[kMaxThreads], n = 0, low[kMaxThreads], nl = 0;
      for (int i = 0; i < nthreads; ++i)
         if (T[i].state == RUNNABLE) {
            if (T[i].low) low[nl++] = i;
            else run[n++] = i;
         }
      if (n == 0 && nl) {
         for (int i = 0; i < nl; ++i) {
            T[low[i]].low = false;
            run[n++] = low[i];
         }
      }
      if (n == 0) {
         // advance virtual time to the earliest timed waiter
         int best = -1;
         for (int i = 0; i < nthreads; ++i)
            if ((T[i].state == B_SLEEP || T[i].timed) && T[i].state != RUNNABLE && T[i].state != DONE && T[i].state != FREE)
               if (best < 0 || T[i].wake_at < T[best].wake_at) best = i;
         if (best < 0) return -1;
         if (T[best].wake_at > vtime) vtime = T[best].wake_at;
         if (dl_fail && vtime > 100000000000000ull) {
            char b[1024] = "";
            describe_threads(b, sizeof b);
            pbt::fail("no progress: the threads only wait and sleep for ever:%s", b);
         }
         T[best].timed_out = true;
         T[best].timed = false;
         T[best].state = RUNNABLE;
         continue;
      }
      if (timeouts_den) {
         // the runnable threads may be slow: a timed wait or a sleep can come to its end before they do anything
         int best = -1;
         for (int i = 0; i < nthreads; ++i)
            if (T[i].state == B_SLEEP || (T[i].timed && T[i].state != RUNNABLE && T[i].state != DONE && T[i].state != FREE))
               if (best < 0 || T[i].wake_at < T[best].wake_at) best = i;
         if (best >= 0 && src->chance(1, timeouts_den)) {
            if (T[best].wake_at > vtime) vtime = T[best].wake_at;
            T[best].timed_out = true;
            T[best].timed = false;
            T[best].state = RUNNABLE;
            continue;
         }
      }
      if (n == 1) return run[0];
      if (strategy == 2) {
         int b = run[0];
         for (int i = 1; i < n; ++i)
            if (T[run[i]].prio > T[b].prio) b = run[i];
         return b;
      }
      // prefer the current thread (choice 0)
      int ci = -1;
      for (int i = 0; i < n; ++i)
         if (run[i] == cur) ci = i;
      if (ci > 0) {
         int t = run[ci];
         for (int i = ci; i > 0; --i) run[i] = run[i - 1];
         run[0] = t;
         ci = 0;
      }
      if (ci == 0) {
         if (strategy == 0) return run[0];
         if (!src->chance(1, walk_den)) return run[0];
         return run[1 + src->below(n - 1)];
      }
      return run[src->below(n)];
   }
}

void reschedule() {
   int me = cur;
   g_in = true;
   ++g_steps;
   if ((g_steps & 1023) == 0) pbt::beat();
   if (g_steps > kMaxSteps) pbt::inconclusive("schedule too long");
   if (strategy == 2 && next_change < n_change && g_steps >= change_points[next_change]) {
      ++next_change;
      T[me].prio = low_prio--;
   }
   int nx = choose();
   if (nx < 0) {
      char b[1024] = "";
      describe_threads(b, sizeof b);
      if (dl_fail) pbt::fail("deadlock: no thread can make progress:%s", b);
      pbt::inconclusive("no runnable thread:%s", b);
   }
   if (nx != me) {
      ++g_switches;
      cur = nx;
      draw_countdown();
      g_in = false;
      gate_open(nx);
      if (T[me].state != DONE) gate_wait(me);
   }
   g_in = false;
}

inline bool managed() { return g_active && my_id >= 0 && !g_in; }

uint64_t draw_below(uint64_t n) {
   In in;
   return src->below(n);
}
bool draw_chance(unsigned den) {
   In in;
   return src->chance(1, den);
}

void schedule_point() {
   if (!managed()) return;
   reschedule();
}

void block_on(State st, void* obj) {
   Thread& t = T[cur];
   t.state = st;
   t.obj = obj;
   t.timed_out = false;
   reschedule();
}

MutexRec* find_mutex(void* a, bool create) {
   for (int i = 0; i < nmutex; ++i)
      if (mutexes[i].addr == a) return &mutexes[i];
   if (!create) return nullptr;
   if (nmutex >= kMaxMutex) pbt::inconclusive("too many mutexes");
   mutexes[nmutex] = {a, -1, 0};
   return &mutexes[nmutex++];
}
void drop_mutex(MutexRec* m) { *m = mutexes[--nmutex]; }

void wake_all(State st, void* obj) {
   for (int i = 0; i < nthreads; ++i)
      if (T[i].state == st && T[i].obj == obj) {
         T[i].state = RUNNABLE;
         T[i].timed = false;
      }
}

uint64_t rel_ns(const timespec* ts) { return uint64_t(ts->tv_sec) * 1000000000ull + ts->tv_nsec; }
uint64_t abs_to_virtual(clockid_t c, const timespec* abs) {
   uint64_t at = rel_ns(abs), now = vclock(c);
   return vtime + (abs->tv_sec >= 0 && at > now ? at - now : 0);
}

int mutex_lock(void* m, bool timed, uint64_t wake_at) {
   schedule_point();
   for (;;) {
      MutexRec* r = find_mutex(m, true);
      if (r->owner < 0) {
         r->owner = cur;
         r->count = 1;
         acquire(m);
         return 0;
      }
      if (r->owner == cur) {
         int kind = ((pthread_mutex_t*)m)->__data.__kind & 3;
         if (kind == PTHREAD_MUTEX_RECURSIVE_NP) {
            r->count++;
            return 0;
         }
         if (kind == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
      }
      T[cur].timed = timed;
      T[cur].wake_at = wake_at;
      block_on(B_MUTEX, m);
      if (timed && T[cur].timed_out) {
         r = find_mutex(m, true);
         if (r->owner < 0) continue;
         return ETIMEDOUT;
      }
   }
}
int mutex_trylock(void* m) {
   schedule_point();
   MutexRec* r = find_mutex(m, true);
   if (r->owner < 0) {
      r->owner = cur;
      r->count = 1;
      acquire(m);
      return 0;
   }
   if (r->owner == cur && (((pthread_mutex_t*)m)->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) {
      r->count++;
      return 0;
   }
   return EBUSY;
}
int mutex_unlock(void* m, bool resched = true) {
   MutexRec* r = find_mutex(m, false);
   if (!r || r->owner != cur) return 0;  // locked before management began: ignore
   if (--r->count > 0) return 0;
   release(m);
   drop_mutex(r);
   wake_all(B_MUTEX, m);
   if (resched) schedule_point();
   return 0;
}

int cond_wait(void* c, void* m, bool timed, uint64_t wake_at) {
   bool spurious = spurious_den && draw_chance(spurious_den);
   mutex_unlock(m, false);
   int rc = 0;
   if (spurious) {
      T[cur].low = true;
      reschedule();
   } else {
      T[cur].timed = timed;
      T[cur].wake_at = wake_at;
      block_on(B_COND, c);
      if (timed && T[cur].timed_out) rc = ETIMEDOUT;
      T[cur].timed = false;
   }
   mutex_lock(m, false, 0);
   return rc;
}

void* thread_main(void* p) {
   int id = int((intptr_t)p);
   my_id = id;
   gate_wait(id);
   if (g_races) {
      pthread_attr_t at;
      void* lo = nullptr;
      size_t sz = 0;
      In in;
      if (pthread_getattr_np(pthread_self(), &at) == 0) {
         pthread_attr_getstack(&at, &lo, &sz);
         pthread_attr_destroy(&at);
         clear_range((uintptr_t)lo, sz);
      }
   }
   T[id].ret = T[id].fn(T[id].arg);
   T[id].state = DONE;
   wake_all(B_JOIN, &T[id]);
   my_id = -1;
   // hand over; this thread never runs managed code again
   g_in = true;
   ++g_steps;
   int nx = choose();
   if (nx < 0) {
      char b[1024] = "";
      describe_threads(b, sizeof b);
      if (dl_fail) pbt::fail("deadlock: no thread can make progress:%s", b);
      pbt::inconclusive("no runnable thread:%s", b);
   }
   ++g_switches;
   cur = nx;
   draw_countdown();
   g_in = false;
   gate_open(nx);
   return T[id].ret;
}
}  // namespace

namespace sched {
void begin(pbt::Source& s) {
   src = &s;
   nthreads = 1;
   nmutex = nrw = nonce = 0;
   for (auto& t : T) t = Thread{};
   T[0].state = RUNNABLE;
   T[0].real = pthread_self();
   my_id = 0;
   cur = 0;
   g_steps = g_switches = 0;
   vtime = 0;
   low_prio = -1;
   dl_fail = true;
   strategy = int(s.below(3));
   walk_den = 2 + unsigned(s.below(3)) * 3;
   spurious_den = s.boolean() ? 4 + unsigned(s.below(12)) : 0;
   timeouts_den = s.boolean() ? 8 + unsigned(s.below(100)) : 0;
   timespec ts;
   for (int i = 0; i < 2; ++i) {
      syscall(SYS_clock_gettime, i ? CLOCK_MONOTONIC : CLOCK_REALTIME, &ts);
      clock_base[i] = rel_ns(&ts);
   }
   n_change = next_change = 0;
   if (strategy == 2) {
      T[0].prio = int(s.below(200));
      n_change = int(s.below(5));
      uint64_t at = 0;
      for (int i = 0; i < n_change; ++i) {
         at += s.below(s.boolean() ? 200 : 40);
         change_points[i] = at;
      }
   }
   detector_begin();
   g_active = true;
   draw_countdown();
}
void detect_races(bool b) { g_races_wanted = b; }
void end() {
   g_active = false;
   detector_end();
   my_id = -1;
}
bool active() { return g_active; }
void point() { schedule_point(); }
void deadlock_is_failure(bool b) { dl_fail = b; }
uint64_t steps() { return g_steps; }
uint64_t switches() { return g_switches; }
int live_threads() {
   int n = 0;
   for (int i = 0; i < nthreads; ++i) n += T[i].state != DONE && T[i].state != FREE;
   return n;
}
void label_stats() {
   pbt::label("schedule points", g_steps);
   pbt::label("thread switches", g_switches);
   if (strategy == 0) pbt::label("strategy run-to-block");
   if (strategy == 1) pbt::label("strategy random walk");
   if (strategy == 2) pbt::label("strategy priorities");
}
}  // namespace sched

// ------------------------------------------------------------------------------------------------ interposed functions
#define REAL(name) \
   static auto real_##name = real<decltype(&name)>(#name)

extern "C" {

int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
   REAL(pthread_create);
   if (!managed()) return real_pthread_create(th, attr, fn, arg);
   int id = nthreads;
   if (id >= kMaxThreads) pbt::inconclusive("too many threads");
   T[id] = Thread{};
   T[id].fn = fn;
   T[id].arg = arg;
   T[id].state = RUNNABLE;
   if (strategy == 2) T[id].prio = int(draw_below(200));
   int rc = real_pthread_create(th, attr, thread_main, (void*)(intptr_t)id);
   if (rc) return rc;
   T[id].real = *th;
   ++nthreads;
   if (g_races) {
      tvc[id] = tvc[my_id];
      tvc[id].c[id] = 1;
      tvc[my_id].c[my_id]++;
   }
   schedule_point();
   return 0;
}

int pthread_join(pthread_t th, void** ret) {
   REAL(pthread_join);
   if (!managed()) return real_pthread_join(th, ret);
   for (int i = nthreads - 1; i >= 0; --i)
      if (T[i].state != FREE && pthread_equal(T[i].real, th) && !T[i].detached) {
         if (i == cur) return EDEADLK;
         schedule_point();
         while (T[i].state != DONE) block_on(B_JOIN, &T[i]);
         if (g_races) join_vc(tvc[my_id], tvc[i]);
         T[i].detached = true;
         return real_pthread_join(th, ret);
      }
   return real_pthread_join(th, ret);
}
int pthread_detach(pthread_t th) {
   REAL(pthread_detach);
   if (managed())
      for (int i = nthreads - 1; i >= 0; --i)
         if (T[i].state != FREE && pthread_equal(T[i].real, th)) T[i].detached = true;
   return real_pthread_detach(th);
}

int pthread_mutex_lock(pthread_mutex_t* m) {
   REAL(pthread_mutex_lock);
   if (!managed()) return real_pthread_mutex_lock ? real_pthread_mutex_lock(m) : 0;
   return mutex_lock(m, false, 0);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
   REAL(pthread_mutex_trylock);
   if (!managed()) return real_pthread_mutex_trylock(m);
   return mutex_trylock(m);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* abs) {
   REAL(pthread_mutex_timedlock);
   if (!managed()) return real_pthread_mutex_timedlock(m, abs);
   return mutex_lock(m, true, abs_to_virtual(CLOCK_REALTIME, abs));
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* abs) {
   REAL(pthread_mutex_clocklock);
   if (!managed()) return real_pthread_mutex_clocklock(m, c, abs);
   return mutex_lock(m, true, abs_to_virtual(c, abs));
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
   REAL(pthread_mutex_unlock);
   if (!managed()) return real_pthread_mutex_unlock ? real_pthread_mutex_unlock(m) : 0;
   return mutex_unlock(m);
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
   REAL(pthread_cond_wait);
   if (!managed()) return real_pthread_cond_wait(c, m);
   return cond_wait(c, m, false, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* abs) {
   REAL(pthread_cond_timedwait);
   if (!managed()) return real_pthread_cond_timedwait(c, m, abs);
   return cond_wait(c, m, true, abs_to_virtual(CLOCK_REALTIME, abs));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const timespec* abs) {
   REAL(pthread_cond_clockwait);
   if (!managed()) return real_pthread_cond_clockwait(c, m, clk, abs);
   return cond_wait(c, m, true, abs_to_virtual(clk, abs));
}
int pthread_cond_signal(pthread_cond_t* c) {
   REAL(pthread_cond_signal);
   if (!managed()) return real_pthread_cond_signal(c);
   int w[kMaxThreads], n = 0;
   for (int i = 0; i < nthreads; ++i)
      if (T[i].state == B_COND && T[i].obj == c) w[n++] = i;
   if (n) {
      int k = w[draw_below(n)];
      T[k].state = RUNNABLE;
      T[k].timed = false;
   }
   schedule_point();
   return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
   REAL(pthread_cond_broadcast);
   if (!managed()) return real_pthread_cond_broadcast(c);
   wake_all(B_COND, c);
   schedule_point();
   return 0;
}

// ---- rwlocks
static RwRec* find_rw(void* a) {
   for (int i = 0; i < nrw; ++i)
      if (rws[i].addr == a) return &rws[i];
   if (nrw >= 512) pbt::inconclusive("too many rwlocks");
   rws[nrw] = {a, -1, 0};
   return &rws[nrw++];
}
static int rw_lock(void* l, bool write, bool try_, bool timed, uint64_t at) {
   schedule_point();
   for (;;) {
      RwRec* r = find_rw(l);
      if (r->writer < 0 && (!write || r->readers == 0)) {
         if (write) r->writer = cur;
         else r->readers++;
         acquire(l);
         return 0;
      }
      if (r->writer == cur) return EDEADLK;
      if (try_) return EBUSY;
      T[cur].timed = timed;
      T[cur].wake_at = at;
      block_on(B_RWLOCK, l);
      if (timed && T[cur].timed_out) return ETIMEDOUT;
   }
}
#define RW(name, w, t)                                   \
   int name(pthread_rwlock_t* l) {                       \
      REAL(name);                                        \
      if (!managed()) return real_##name(l);             \
      return rw_lock(l, w, t, false, 0);                 \
   }
RW(pthread_rwlock_rdlock, false, false)
RW(pthread_rwlock_wrlock, true, false)
RW(pthread_rwlock_tryrdlock, false, true)
RW(pthread_rwlock_trywrlock, true, true)
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const timespec* a) {
   REAL(pthread_rwlock_timedrdlock);
   if (!managed()) return real_pthread_rwlock_timedrdlock(l, a);
   return rw_lock(l, false, false, true, abs_to_virtual(CLOCK_REALTIME, a));
}
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const timespec* a) {
   REAL(pthread_rwlock_timedwrlock);
   if (!managed()) return real_pthread_rwlock_timedwrlock(l, a);
   return rw_lock(l, true, false, true, abs_to_virtual(CLOCK_REALTIME, a));
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
   REAL(pthread_rwlock_unlock);
   if (!managed()) return real_pthread_rwlock_unlock(l);
   release(l);
   RwRec* r = find_rw(l);
   if (r->writer == cur) r->writer = -1;
   else if (r->readers > 0) r->readers--;
   if (r->writer < 0 && r->readers == 0) *r = rws[--nrw];
   wake_all(B_RWLOCK, l);
   schedule_point();
   return 0;
}

// ---- semaphores
int sem_wait(sem_t* s) {
   REAL(sem_wait);
   if (!managed()) return real_sem_wait(s);
   schedule_point();
   while (sem_trywait(s) != 0) block_on(B_SEM, s);
   acquire(s);
   return 0;
}
int sem_post(sem_t* s) {
   REAL(sem_post);
   if (managed()) release(s);
   int rc = real_sem_post(s);
   if (managed()) {
      wake_all(B_SEM, s);
      schedule_point();
   }
   return rc;
}

// ---- once: state in the pthread_once_t itself is only written at the end (2 = glibc's "done")
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
   REAL(pthread_once);
   if (!managed()) return real_pthread_once(o, fn);
   schedule_point();
   for (;;) {
      if (*(volatile int*)o == 2) {
         acquire(o);
         return 0;
      }
      int k = -1;
      for (int i = 0; i < nonce; ++i)
         if (onces[i].addr == o) k = i;
      if (k < 0) {
         if (nonce >= 256) pbt::inconclusive("too many once flags");
         onces[nonce++] = {o, cur};
         struct Cleanup {
            pthread_once_t* o;
            bool ok = false;
            ~Cleanup() {
               for (int i = 0; i < nonce; ++i)
                  if (onces[i].addr == o) {
                     onces[i] = onces[--nonce];
                     break;
                  }
               release(o);
               if (ok) *(volatile int*)o = 2;
               wake_all(B_ONCE, o);
            }
         } c{o};
         fn();
         c.ok = true;
         return 0;
      }
      if (onces[k].owner == cur) pbt::fail("recursive call_once: deadlock");
      block_on(B_ONCE, o);
   }
}

// ---- sleeping
static int vsleep(uint64_t at) {
   Thread& t = T[cur];
   t.wake_at = at;
   // Simplest: sleep until nothing else can run.  Sometimes wake early relative to other threads' progress (time passed).
   if (draw_chance(6)) {
      if (at > vtime) vtime = at;
      t.low = true;
      reschedule();
      return 0;
   }
   block_on(B_SLEEP, nullptr);
   return 0;
}
int nanosleep(const timespec* req, timespec* rem) {
   REAL(nanosleep);
   if (!managed()) return real_nanosleep(req, rem);
   return vsleep(vtime + rel_ns(req));
}
int clock_nanosleep(clockid_t c, int flags, const timespec* req, timespec* rem) {
   REAL(clock_nanosleep);
   if (!managed()) return real_clock_nanosleep(c, flags, req, rem);
   return vsleep(flags & TIMER_ABSTIME ? abs_to_virtual(c, req) : vtime + rel_ns(req));
}
int usleep(useconds_t us) {
   REAL(usleep);
   if (!managed()) return real_usleep(us);
   return vsleep(vtime + uint64_t(us) * 1000);
}
int clock_gettime(clockid_t c, timespec* ts) {
   if (!managed() || (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC)) return syscall(SYS_clock_gettime, c, ts);
   uint64_t v = vclock(c);
   ts->tv_sec = time_t(v / 1000000000ull);
   ts->tv_nsec = long(v % 1000000000ull);
   return 0;
}
int gettimeofday(timeval* tv, void* tz) noexcept {
   if (!managed()) return syscall(SYS_gettimeofday, tv, tz);
   uint64_t v = vclock(CLOCK_REALTIME);
   tv->tv_sec = time_t(v / 1000000000ull);
   tv->tv_usec = suseconds_t(v % 1000000000ull / 1000);
   return 0;
}
time_t time(time_t* t) noexcept {
   time_t v;
   if (managed()) v = time_t(vclock(CLOCK_REALTIME) / 1000000000ull);
   else {
      timespec ts;
      syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
      v = ts.tv_sec;
   }
   if (t) *t = v;
   return v;
}
int sched_yield() {
   REAL(sched_yield);
   if (!managed()) return real_sched_yield();
   T[cur].low = true;
   reschedule();
   return 0;
}

// ---- static initialisation guards
int __cxa_guard_acquire(long long int* g) {
   typedef int (*F)(long long int*);
   static F rf = real<F>("__cxa_guard_acquire");
   if (!managed()) return rf(g);
   uint8_t* b = (uint8_t*)g;
   schedule_point();
   for (;;) {
      if (b[0]) {
         acquire(g);
         return 0;
      }
      if (!b[1]) {
         b[1] = 1;
         return 1;
      }
      block_on(B_GUARD, g);
   }
}
void __cxa_guard_release(long long int* g) {
   typedef void (*F)(long long int*);
   static F rf = real<F>("__cxa_guard_release");
   if (!managed()) return rf(g);
   uint8_t* b = (uint8_t*)g;
   release(g);
   b[1] = 0;
   b[0] = 1;
   wake_all(B_GUARD, g);
}
void __cxa_guard_abort(long long int* g) {
   typedef void (*F)(long long int*);
   static F rf = real<F>("__cxa_guard_abort");
   if (!managed()) return rf(g);
   ((uint8_t*)g)[1] = 0;
   wake_all(B_GUARD, g);
}
}  // extern "C"

// ---- std::future
namespace std {
struct __atomic_futex_unsigned_base {
   bool _M_futex_wait_until(unsigned* addr, unsigned val, bool has_timeout, chrono::seconds s, chrono::nanoseconds ns);
   bool _M_futex_wait_until_steady(unsigned* addr, unsigned val, bool has_timeout, chrono::seconds s, chrono::nanoseconds ns);
   static void _M_futex_notify_all(unsigned* addr);
};
}  // namespace std
static bool futex_model(unsigned* addr, unsigned val, bool timed, uint64_t at) {
   if (managed()) {
      schedule_point();
      if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return true;
      T[cur].timed = timed;
      T[cur].wake_at = at;
      block_on(B_FUTEX, addr);
      bool to = timed && T[cur].timed_out;
      T[cur].timed = false;
      return !to;
   }
   if (timed) {
      timespec ts{0, 200000};
      if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) == val) syscall(SYS_nanosleep, &ts, nullptr);
      return __atomic_load_n(addr, __ATOMIC_SEQ_CST) != val ? true : false;  // may time out early: callers loop on the clock
   }
   syscall(SYS_futex, addr, FUTEX_WAIT, val, nullptr, nullptr, 0);
   return true;
}
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* addr, unsigned val, bool has_timeout, chrono::seconds s, chrono::nanoseconds ns) {
   timespec abs{(time_t)s.count(), (long)ns.count()};
   return futex_model(addr, val, has_timeout, managed() && has_timeout ? abs_to_virtual(CLOCK_REALTIME, &abs) : 0);
}
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* addr, unsigned val, bool has_timeout, chrono::seconds s, chrono::nanoseconds ns) {
   timespec abs{(time_t)s.count(), (long)ns.count()};
   return futex_model(addr, val, has_timeout, managed() && has_timeout ? abs_to_virtual(CLOCK_MONOTONIC, &abs) : 0);
}
void std::__atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* addr) {
   if (managed()) {
      wake_all(B_FUTEX, addr);
      schedule_point();
   }
   syscall(SYS_futex, addr, FUTEX_WAKE, INT_MAX);
}

// ------------------------------------------------------------------------------------------------- TSan entry points
static inline void access_point() {
   if (__builtin_expect(!g_active, 1)) return;
   if (my_id < 0 || g_in) return;
   if (--countdown <= 0) {
      In in;
      draw_countdown();
      // preempt: force a switch if somebody else can run
      int n = 0;
      for (int i = 0; i < nthreads; ++i) n += i != cur && T[i].state == RUNNABLE && !T[i].low;
      if (n && strategy != 0) {
         ++g_steps;
         if (g_steps > kMaxSteps) pbt::inconclusive("schedule too long");
         int k = int(src->below(n)), nx = -1;
         for (int i = 0; i < nthreads; ++i)
            if (i != cur && T[i].state == RUNNABLE && !T[i].low && k-- == 0) nx = i;
         int me = cur;
         if (strategy == 2) {
            int p = T[me].prio;
            T[me].prio = T[nx].prio;
            T[nx].prio = p;
         }
         ++g_switches;
         cur = nx;
         g_in = false;
         gate_open(nx);
         gate_wait(me);
      }
   }
}


static inline void access(void* a, size_t n, bool write, void* pc) {
   access_point();
   if (__builtin_expect(g_races, 0) && managed()) race_access((uintptr_t)a, n, write, pc);
}
#define PC __builtin_return_address(0)

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void* v) {
   if (*p != v) access(p, sizeof *p, true, PC);
   else access_point();
}
void __tsan_vptr_read(void** p) { access(p, sizeof *p, false, PC); }
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, PC); }
#define RWN(n)                                                                      \
   void __tsan_read##n(void* p) { access(p, n, false, PC); }                        \
   void __tsan_write##n(void* p) { access(p, n, true, PC); }                        \
   void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); }              \
   void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); }              \
   void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); }               \
   void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); }               \
   void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, PC); }     \
   void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, PC); }
RWN(1) RWN(2) RWN(4) RWN(8) RWN(16)
}

// order of the access: bit 0 acquires, bit 1 releases
static inline int order_of(int mo) {
   switch (mo & 7) {
   case __ATOMIC_RELAXED: return 0;
   case __ATOMIC_CONSUME:
   case __ATOMIC_ACQUIRE: return 1;
   case __ATOMIC_RELEASE: return 2;
   default: return 3;
   }
}
static inline void freed_check(const volatile void* a, size_t n, bool write, void* pc) {
   if (!g_races || !managed()) return;
   uintptr_t x = (uintptr_t)a;
   Page* p = page_of(x, false);
   if (!p) return;
   Gran& g = p->g[(x & 4095) >> 3];
   if (g.freed) report("use of freed memory", x, n, write, pc, "freed it", g.freed_by, g.freed_pc);
}
static inline void at_load(const volatile void* a, size_t n, int mo, void* pc) {
   freed_check(a, n, false, pc);
   if (order_of(mo) & 1) acquire((void*)a);
}
static inline void at_store(volatile void* a, size_t n, int mo, void* pc) {
   freed_check(a, n, true, pc);
   if (order_of(mo) & 2) release((void*)a, true);
   else if (g_races && my_id >= 0)
      if (SyncRec* r = sync_of((void*)a, false)) __builtin_memset((void*)&r->vc, 0, sizeof r->vc);
}
static inline void at_rmw(volatile void* a, size_t n, int mo, void* pc) {
   freed_check(a, n, true, pc);
   int o = order_of(mo);
   if (o & 1) acquire((void*)a);
   if (o & 2) release((void*)a);
}

extern "C" {
#define RMW(T, n, name) \
   T __tsan_atomic##n##_##name(volatile T* a, T v, int mo) { schedule_point(); at_rmw(a, n / 8, mo, PC); return __atomic_##name(a, v, __ATOMIC_SEQ_CST); }
#define ATOMIC(T, n)                                                                                                                         \
   T __tsan_atomic##n##_load(const volatile T* a, int mo) { schedule_point(); at_load(a, n / 8, mo, PC); return __atomic_load_n(a, __ATOMIC_SEQ_CST); }      \
   void __tsan_atomic##n##_store(volatile T* a, T v, int mo) { schedule_point(); at_store(a, n / 8, mo, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }     \
   T __tsan_atomic##n##_exchange(volatile T* a, T v, int mo) { schedule_point(); at_rmw(a, n / 8, mo, PC); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
   RMW(T, n, fetch_add) RMW(T, n, fetch_sub) RMW(T, n, fetch_and) RMW(T, n, fetch_or) RMW(T, n, fetch_xor) RMW(T, n, fetch_nand)              \
   int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) {                                               \
      schedule_point();                                                                                                                      \
      bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                             \
      if (ok) at_rmw(a, n / 8, mo, PC);                                                                                                      \
      else at_load(a, n / 8, fmo, PC);                                                                                                       \
      return ok;                                                                                                                             \
   }                                                                                                                                         \
   int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) {                                                 \
      return __tsan_atomic##n##_compare_exchange_strong(a, c, v, mo, fmo);                                                                   \
   }                                                                                                                                         \
   T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) {                                                     \
      __tsan_atomic##n##_compare_exchange_strong(a, &c, v, mo, fmo);                                                                         \
      return c;                                                                                                                              \
   }
ATOMIC(uint8_t, 8) ATOMIC(uint16_t, 16) ATOMIC(uint32_t, 32) ATOMIC(uint64_t, 64)
void __tsan_atomic_thread_fence(int) {
   schedule_point();
   if (g_races && my_id >= 0) {  // stronger than any fence: may hide a race, cannot invent one
      join_vc(tvc[my_id], fence_vc);
      join_vc(fence_vc, tvc[my_id]);
      tvc[my_id].c[my_id]++;
   }
}
void __tsan_atomic_signal_fence(int) {}

// ---- memory blocks
static inline bool detecting() { return __builtin_expect(g_races, 0) && g_active && my_id >= 0 && !g_in; }
void* malloc(size_t n) {
   void* p = __libc_malloc(n);
   if (__builtin_expect(g_races, 0) && p && g_active && my_id >= 0) {
      clear_range((uintptr_t)p, malloc_usable_size(p), next_is_exception);
      next_is_exception = false;
   }
   return p;
}
void* calloc(size_t a, size_t b) {
   void* p = __libc_calloc(a, b);
   if (__builtin_expect(g_races, 0) && p && g_active && my_id >= 0) clear_range((uintptr_t)p, malloc_usable_size(p));
   return p;
}
void* realloc(void* o, size_t n) {
   void* p = __libc_realloc(o, n);
   if (__builtin_expect(g_races, 0) && p && g_active && my_id >= 0) clear_range((uintptr_t)p, malloc_usable_size(p));
   return p;
}
void free(void* p) {
   if (p && detecting() && nquar < kQuarantine) {
      size_t n = malloc_usable_size(p);
      Page* pg = page_of((uintptr_t)p, false);
      bool ignored = pg && pg->g[((uintptr_t)p & 4095) >> 3].ignore;
      if (!ignored) {
         void* pc = PC;
         race_access((uintptr_t)p, n, true, pc, true);
         for (uintptr_t x = (uintptr_t)p; x < (uintptr_t)p + n; x += 8) {
            Gran& g = page_of(x, true)->g[(x & 4095) >> 3];
            g.freed = 1;
            g.freed_by = uint8_t(my_id);
            g.freed_pc = pc;
         }
         quarantine[nquar++] = p;
         return;
      }
   }
   __libc_free(p);
}
// the reference count of exceptions lives in libstdc++.so, where it is not seen: their memory is not watched
void* __cxa_allocate_exception(size_t n) noexcept {
   typedef void* (*F)(size_t);
   static F rf = real<F>("__cxa_allocate_exception");
   if (detecting()) next_is_exception = true;
   return rf(n);
}
}
