// Histories of logging, sink and handle operations by several threads against the real LogWorker, judged by the
// obligations that the recorded real-time intervals of the operations imply.   -DPROP=1..4,22  selects generator emphasis and oracle.
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>

#include <fcntl.h>
#include <unistd.h>
#include <condition_variable>
#include <future>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <thread>

#include "pbt.hpp"
#include "sched.hpp"

#ifndef PROP
#define PROP 1
#endif
#define NOTS __attribute__((no_sanitize_thread, noinline))

const char* pbt_rule =
#if PROP == 1
   "random multi-thread log/sink histories; non-trivial: >=2 threads logged, >=1 sink attached and >=2 entries were due at some sink";
#elif PROP == 2
   "random multi-thread logging histories; non-trivial: >=2 sinks received >=3 common entries logged by >=2 threads";
#elif PROP == 3
   "random add/remove/removeAll/log histories; non-trivial: a sink was added or removed while another sink was attached and entries were logged before and after";
#elif PROP == 4
   "random handle-call histories (returning, void, throwing, move-only result); non-trivial: >=2 calls ran on one sink from >=1 threads with logging or removal in the same history";
#else
   "histories with blocked sinks; non-trivial: >=1 sink was blocked while >=1 entry for it was pending and another thread or sink made progress";
#endif
int pbt_default_batch = 50;
double pbt_hang_s = 30;
bool pbt_hang_is_violation = !sched::kActive;

namespace {
enum OpKind { O_LOG, O_LOGF, O_LOG_IF_T, O_LOG_IF_F, O_ADD, O_REMOVE, O_REMOVE_ALL, O_CALL, O_GET, O_YIELD, O_REP, O_HOLD, O_RELEASE };
struct Op {
   OpKind k;
   int a = 0, b = 0;
};

struct Ev {
   uint64_t in, out;
   int kind;  // 0 message, 1 call
   int id;
   unsigned long tid;
};
struct LogRec {
   int id, thread;
   uint64_t s = 0, e = 0;
   bool expected = true;
   int rep = -1;  // >= 0: one of the repeated texts
};
struct SinkRec {
   int id = 0;
   bool is_string = false;
   int slow = 0;
   unsigned nap_ms = 0;   // virtual time a call or entry takes (scheduled engines: costs nothing and outlasts any time limit)
   bool gated = false;
   int relog = 0;                          // n > 0: the receiver itself logs, on every n-th entry of the script
   int selfcall = 0;                       // n > 0: the receiver calls through a handle (of this or another sink), on every n-th
   std::vector<LogRec> relogs;
   int nscript = 0;
   std::vector<Ev> ev;
   uint32_t n = 0;
   int busy = 0;
   int cell = 0;   // calls return a reference to this
   int overlap = 0;
   std::string bad;
   int destroyed = 0;
   uint64_t destroyed_at = 0;
   // attachment
   uint64_t add_s = 0, add_e = 0, rem_s = ~0ull, rem_e = ~0ull;
   std::vector<std::pair<uint64_t, uint64_t>> removals;
   bool added = false;
   std::vector<std::pair<uint64_t, uint64_t>> holds;  // the client held a shared pointer to the sink
};
struct CallRec {
   int id, sink, thread, variant;
   uint64_t s = 0, e = 0;
   int outcome = -1;  // 0 value ok, 1 exception expected, 2 bad_weak_ptr, 3 other
   std::string other;
};

uint64_t g_clock;
NOTS uint64_t tick() { return __atomic_add_fetch(&g_clock, 1, __ATOMIC_SEQ_CST); }

constexpr int kMaxSinks = 200;
SinkRec* g_sinks[kMaxSinks];
int g_nsinks;

// gate for blocked sinks (real mutex / condition variable: modelled by the scheduler when present)
std::mutex g_gate_m;
std::condition_variable g_gate_cv;
bool g_gate_open;
std::map<int, int> g_blocked_now;
std::condition_variable g_recv_cv;
uint64_t g_recv_total;

NOTS void enter(SinkRec* r) {
   if (__atomic_add_fetch(&r->busy, 1, __ATOMIC_SEQ_CST) != 1) r->overlap = 1;
}
NOTS void leave(SinkRec* r, int kind, int id, uint64_t in) {
   uint32_t i = __atomic_fetch_add(&r->n, 1, __ATOMIC_SEQ_CST);
   if (i < r->ev.size()) {
      Ev* e = r->ev.data() + i;
      e->in = in;
      e->kind = kind;
      e->id = id;
      e->tid = (unsigned long)pthread_self();
      e->out = tick();
   }
   __atomic_sub_fetch(&r->busy, 1, __ATOMIC_SEQ_CST);
}

const char* const kReps[] = {"", "again", "m", "the same text, longer than any small string buffer, over and over again"};
int g_long;  // sizes of the payloads: 0 small, 1 sometimes some KB, 2 sometimes 100 KB
std::string payload(int id) {
   std::string s = "m" + std::to_string(id) + "|";
   size_t n = size_t(id * 7 % 23);
   if (g_long && id % 5 == 3) n = g_long == 2 ? 100000 + id % 7 : 4090 + id % 11;
   s.append(n, char('a' + id % 26));
   return s;
}
int parse(SinkRec* r, const std::string& text) {
   for (int k = 0; k < 4; ++k)
      if (text == kReps[k]) return -10 - k;
   if (text.size() > 1 && text[0] == 'm') {
      int id = atoi(text.c_str() + 1);
      if (text == payload(id)) return id;
   }
   if (r->bad.empty()) r->bad = text.empty() ? "(empty)" : text;
   return -1;
}
constexpr int kRelogBase = 5000000;
void relog(SinkRec* r, int id) {
   if (id < 0 || id >= 100000 || r->nscript++ % r->relog || r->relogs.size() >= 200) return;
   LogRec l;
   l.id = kRelogBase + r->id * 1000 + int(r->relogs.size());
   l.thread = 1000 + r->id;
   std::string p = payload(l.id);
   l.s = tick();
   if (id & 1 || g_long) LOG(WARNING) << p;
   else LOGF(INFO, "%s", p.c_str());
   l.e = tick();
   r->relogs.push_back(l);
}
void self_calls(SinkRec* r, int id);
void take_time(SinkRec* r) {
   if (sched::kActive && r->nap_ms) std::this_thread::sleep_for(std::chrono::milliseconds(r->nap_ms));
}
void maybe_block(SinkRec* r) {
   take_time(r);
   for (int i = 0; i < r->slow; ++i) std::this_thread::yield();
   if (r->gated) {
      std::unique_lock<std::mutex> l(g_gate_m);
      g_blocked_now[r->id]++;
      g_recv_cv.notify_all();
      while (!g_gate_open) g_gate_cv.wait(l);
   }
}
bool g_count_received;
void received(SinkRec*) {
   if (!g_count_received) return;
   std::lock_guard<std::mutex> l(g_gate_m);
   ++g_recv_total;
   g_recv_cv.notify_all();
}

struct MyEx : std::runtime_error {
   int v;
   explicit MyEx(int x) : std::runtime_error("MyEx"), v(x) {}
};

struct SinkBase {
   SinkRec* r;
   explicit SinkBase(SinkRec* rec) : r(rec) {}
   NOTS ~SinkBase() {
      r->destroyed++;
      r->destroyed_at = tick();
      r = nullptr;
   }
   int callInt(int token, std::string text) {
      SinkRec* q = r;
      uint64_t in = tick();
      enter(q);
      if (text != payload(token)) q->bad = "call argument " + text;
      take_time(q);
      for (int i = 0; i < q->slow; ++i) std::this_thread::yield();
      leave(q, 1, token, in);
      return token * 3 + 1;
   }
   void callVoid(const std::string& text) {
      SinkRec* q = r;
      uint64_t in = tick();
      enter(q);
      leave(q, 1, parse(q, text), in);
   }
   std::string callThrow(int token) {
      SinkRec* q = r;
      uint64_t in = tick();
      enter(q);
      leave(q, 1, token, in);
      throw MyEx(token);
   }
   struct Sum {
      int token;
      std::string a, b;
      double d;
   };
   Sum callMany(int token, const std::string& a, std::string b, const char* c, double d, const std::vector<int>& v) const {
      SinkRec* q = r;
      uint64_t in = tick();
      enter(q);
      if (a != payload(token) || b != payload(token + 1) || c != kReps[1] || v != std::vector<int>{token, 7}) q->bad = "call argument " + a + b;
      leave(q, 1, token, in);
      return {token, a, b, d};
   }
   void callThrowInt(int token) {
      SinkRec* q = r;
      uint64_t in = tick();
      enter(q);
      leave(q, 1, token, in);
      throw token + 9;
   }
   int& callRef(int token) {
      SinkRec* q = r;
      uint64_t in = tick();
      enter(q);
      leave(q, 1, token, in);
      return q->cell;
   }
   std::unique_ptr<int> callMoveOnly(int token) {
      SinkRec* q = r;
      uint64_t in = tick();
      enter(q);
      leave(q, 1, token, in);
      return std::make_unique<int>(token + 5);
   }
};
struct MsgSink : SinkBase {
   using SinkBase::SinkBase;
   void recv(g3::LogMessageMover m) {
      SinkRec* q = r;
      uint64_t in = tick();
      enter(q);
      maybe_block(q);
      int id = parse(q, m.get().message());
      if (q->relog) relog(q, id);
      if (q->selfcall) self_calls(q, id);
      leave(q, 0, id, in);
      received(q);
   }
};
struct StrSink : SinkBase {
   using SinkBase::SinkBase;
   void recv(std::string s) {
      SinkRec* q = r;
      uint64_t in = tick();
      enter(q);
      maybe_block(q);
      size_t p = s.find("]\t");
      std::string body = p == std::string::npos ? "?" + s : s.substr(p + 2);
      if (!body.empty() && body.back() == '\n') body.pop_back();
      int id = parse(q, body);
      if (q->relog) relog(q, id);
      if (q->selfcall) self_calls(q, id);
      leave(q, 0, id, in);
      received(q);
   }
};

struct AnyHandle {
   std::unique_ptr<g3::SinkHandle<MsgSink>> m;
   std::unique_ptr<g3::SinkHandle<StrSink>> s;
   int sink = -1;
   bool valid() const { return m || s; }
};

struct Pending {
   int call;
   std::future<int> fi;
   std::future<void> fv;
   std::future<std::string> fs;
   std::future<std::unique_ptr<int>> fm;
   std::future<SinkBase::Sum> fsum;
   std::future<int&> fref;
};
int variant_of(int b, size_t n) { return (b & 3) + int((b * 3 + n) & 4); }

struct World {
   std::unique_ptr<g3::LogWorker> worker;
   std::vector<std::vector<Op>> script;
   std::vector<std::vector<LogRec>> logs;
   std::vector<std::vector<CallRec>> calls;
   std::vector<std::vector<AnyHandle>> shared;  // per thread: copies of the handles of the initial sinks
   std::vector<AnyHandle> owner;                // original handles of the initial sinks, index = slot
   std::vector<int> owner_thread;
   std::vector<std::vector<AnyHandle>> own;     // per thread: sinks it added
   std::vector<std::vector<Pending>> pend;
   struct Hold {
      std::shared_ptr<void> p;
      int sink;
      size_t idx;
   };
   std::vector<std::vector<Hold>> held;
   std::mutex self_m;                           // calls made by receivers
   std::vector<CallRec> self_calls;
   std::vector<Pending> self_pend;
   std::map<int, AnyHandle> self_handle;
   std::mutex bar_m;
   std::condition_variable bar_cv;
   int bar_n = 0;
};
World* W;

int new_sink(bool is_string, int slow, bool gated, size_t cap) {
   static std::mutex m;
   std::lock_guard<std::mutex> l(m);
   if (g_nsinks >= kMaxSinks) return -1;
   auto* r = new SinkRec;
   r->id = g_nsinks;
   r->is_string = is_string;
   r->slow = slow & 0xff;
   static const unsigned naps[] = {0, 1, 300, 2500, 20000, 90000};
   r->nap_ms = naps[(slow >> 8) % 6];
   r->gated = gated;
   r->ev.resize(cap);
   g_sinks[g_nsinks] = r;
   return g_nsinks++;
}
size_t g_cap;

AnyHandle do_add(bool is_string, int slow, bool gated) {
   AnyHandle h;
   int id = new_sink(is_string, slow, gated, g_cap);
   if (id < 0) return h;
   SinkRec* r = g_sinks[id];
   h.sink = id;
   r->add_s = tick();
   if (is_string) h.s = W->worker->addSink(std::make_unique<StrSink>(r), &StrSink::recv);
   else h.m = W->worker->addSink(std::make_unique<MsgSink>(r), &MsgSink::recv);
   r->add_e = tick();
   r->added = true;
   return h;
}
std::mutex g_rem_m;
void note_removal(SinkRec* r, uint64_t s, uint64_t e) {
   std::lock_guard<std::mutex> l(g_rem_m);
   r->removals.push_back({s, e});
   // earliest completed removal wins
   if (s < r->rem_s) r->rem_s = s;
   if (e < r->rem_e) r->rem_e = e;
}
void do_remove(AnyHandle& h) {
   SinkRec* r = g_sinks[h.sink];
   uint64_t s = tick();
   if (h.m) W->worker->removeSink(std::move(h.m));
   else W->worker->removeSink(std::move(h.s));
   note_removal(r, s, tick());
   h.sink = -1;
}

void release_holds(int t) {
   for (auto& h : W->held[t]) {
      h.p.reset();
      uint64_t e = tick();
      std::lock_guard<std::mutex> l(g_rem_m);
      g_sinks[h.sink]->holds[h.idx].second = e;
   }
   W->held[t].clear();
}

template <class H>
void start_call(H& h, CallRec& c, Pending& p) {
   using Real = std::remove_reference_t<decltype(*h)>;
   (void)sizeof(Real);
   switch (c.variant) {
   case 0: {  // arguments are copied: the caller may reuse its variables
      int id = c.id;
      std::string text = payload(c.id);
      p.fi = h->call(&SinkBase::callInt, id, text);
      id = -1;
      text.assign(text.size(), '!');
      break;
   }
   case 1: {
      auto text = std::make_unique<std::string>(payload(c.id));
      p.fv = h->call(&SinkBase::callVoid, *text);
      text->assign(text->size(), '?');
      break;
   }
   case 2: p.fs = h->call(&SinkBase::callThrow, c.id); break;
   case 3: p.fm = h->call(&SinkBase::callMoveOnly, c.id); break;
   case 4: {
      std::string a = payload(c.id), b = payload(c.id + 1);
      std::vector<int> v{c.id, 7};
      p.fsum = h->call(&SinkBase::callMany, c.id, a, std::move(b), kReps[1], c.id + 0.5, v);
      a = "?";
      v.clear();
      break;
   }
   case 5: p.fv = h->call(&SinkBase::callThrowInt, c.id); break;
#ifndef PBT_REDUCED
   case 6: p.fref = h->call(&SinkBase::callRef, c.id); break;
#endif
   default: {  // the handle is gone before the call has run
      auto other = std::make_unique<Real>(*h);
      p.fi = other->call(&SinkBase::callInt, c.id, payload(c.id));
   }
   }
}
void finish_call(CallRec& c, Pending& p) {
   if (c.outcome >= 0) return;
   try {
      switch (c.variant) {
      case 1:
         p.fv.get();
         c.outcome = 0;
         break;
      case 2:
         p.fs.get();
         c.outcome = 3;
         c.other = "no exception";
         break;
      case 4: {
         auto v = p.fsum.get();
         c.outcome = v.token == c.id && v.a == payload(c.id) && v.b == payload(c.id + 1) && v.d == c.id + 0.5 ? 0 : 3;
         if (c.outcome) c.other = "wrong struct";
         break;
      }
      case 5:
         p.fv.get();
         c.outcome = 3;
         c.other = "no exception";
         break;
#ifdef PBT_REDUCED
      case 6:
#endif
      case 0:
      case 7: {
         int v = p.fi.get();
         c.outcome = v == c.id * 3 + 1 ? 0 : 3;
         if (c.outcome) c.other = "wrong int " + std::to_string(v);
         break;
      }
#ifndef PBT_REDUCED
      case 6:
         c.outcome = &p.fref.get() == &g_sinks[c.sink]->cell ? 0 : 3;
         if (c.outcome) c.other = "wrong reference";
         break;
#endif
      default: {
         auto v = p.fm.get();
         c.outcome = v && *v == c.id + 5 ? 0 : 3;
         if (c.outcome) c.other = "wrong move-only value";
      }
      }
   } catch (int v) {
      c.outcome = c.variant == 5 && v == c.id + 9 ? 1 : 3;
      if (c.outcome == 3) c.other = "unexpected int exception";
   } catch (const MyEx& e) {
      c.outcome = c.variant == 2 && e.v == c.id ? 1 : 3;
      if (c.outcome == 3) c.other = "unexpected MyEx";
   } catch (const std::bad_weak_ptr&) {
      c.outcome = 2;
   } catch (const std::exception& e) {
      c.outcome = 3;
      c.other = e.what();
   }
}

// A receiver calls through the handle of its own or of another sink; it cannot wait for the result.
void self_calls(SinkRec* r, int id) {
   if (id < 0 || id >= 100000 || r->nscript++ % r->selfcall) return;
   std::lock_guard<std::mutex> l(W->self_m);
   if (W->self_calls.size() >= 60 || W->self_handle.empty()) return;
   int target = (r->id + (r->nscript & 2 ? 1 : 0)) % int(W->self_handle.size());
   AnyHandle& h = W->self_handle[target];
   CallRec cr;
   cr.id = 900000 + r->id * 1000 + int(W->self_calls.size());
   cr.sink = target;
   cr.thread = 1000 + r->id;
   cr.variant = variant_of(r->nscript / r->selfcall, W->self_calls.size());
   Pending p;
   p.call = int(W->self_calls.size());
   cr.s = tick();
   if (h.m) start_call(h.m, cr, p);
   else start_call(h.s, cr, p);
   cr.e = tick();
   W->self_calls.push_back(std::move(cr));
   W->self_pend.push_back(std::move(p));
}

// logs when its thread ends, after everything else of the thread
struct TlsLogger {
   LogRec* l = nullptr;
   ~TlsLogger() {
      if (!l) return;
      std::string p = payload(l->id);
      l->s = tick();
      LOG(INFO) << p;
      l->e = tick();
   }
};
thread_local TlsLogger g_tls_logger;

std::string log_inner(LogRec& in, const std::string& outer) {
   std::string p = payload(in.id);
   in.s = tick();
   LOG(INFO) << p;
   in.e = tick();
   return outer.substr(2);
}

const LEVELS kOdd[] = {{-5, "NEGATIVE"}, {0, "ZERO"}, {999, "ALMOST_FATAL"}, {1, ""}, {300, "INFO"}};

void run_thread(int t) {
   int nlog = 0;
   auto& logs = W->logs[t];
   auto& calls = W->calls[t];
   for (auto& op : W->script[t]) {
      switch (op.k) {
      case O_LOG: {
         LogRec& l = logs[nlog++];
         if (op.b == 100) {
            g_tls_logger.l = &l;
            break;
         }
         std::string p = payload(l.id);
         if (op.b == 110) {  // an operand that logs
            LogRec& in = logs[nlog++];
            l.s = tick();
            LOG(INFO) << p.substr(0, 2) << log_inner(in, p);
            l.e = tick();
            break;
         }
         if (op.b == 111) {  // logged by a destructor while an exception is on its way
            struct D {
               LogRec& l;
               const std::string& p;
               ~D() {
                  l.s = tick();
                  LOG(INFO) << p;
                  l.e = tick();
               }
            };
            try {
               D d{l, p};
               throw MyEx(1);
            } catch (const MyEx&) {
            }
            break;
         }
         l.s = tick();
         if (op.b == 0) LOG(INFO) << p;
         else LOG(kOdd[op.b - 1]) << p;
         l.e = tick();
         if ((nlog & 1023) == 0) pbt::beat();
         break;
      }
      case O_LOGF: {
         LogRec& l = logs[nlog++];
         std::string p = payload(l.id);
         l.s = tick();
         if (p.size() > 1000) LOG(WARNING) << p;
         else LOGF(WARNING, "%s", p.c_str());
         l.e = tick();
         break;
      }
      case O_LOG_IF_T: {
         LogRec& l = logs[nlog++];
         std::string p = payload(l.id);
         l.s = tick();
         LOG_IF(G3LOG_DEBUG, l.id >= 0) << p;
         l.e = tick();
         break;
      }
      case O_LOG_IF_F: {
         LogRec& l = logs[nlog++];
         std::string p = payload(l.id);
         l.expected = false;
         l.s = tick();
         LOGF_IF(INFO, l.id < 0, "%s", p.c_str());
         l.e = tick();
         break;
      }
      case O_ADD: {
         AnyHandle h = do_add(op.a & 1, ((op.a >> 1) & 3) | (sched::kActive && (op.a & 8) ? (op.a & 4 ? 4 : 3) << 8 : 0), false);
         if (h.valid()) W->own[t].push_back(std::move(h));
         break;
      }
      case O_REMOVE: {
         // candidates: own sinks, initial sinks owned by this thread
         std::vector<AnyHandle*> c;
         for (auto& h : W->own[t])
            if (h.valid()) c.push_back(&h);
         for (size_t i = 0; i < W->owner.size(); ++i)
            if (W->owner_thread[i] == t && W->owner[i].valid()) c.push_back(&W->owner[i]);
         if (!c.empty()) do_remove(*c[op.a % c.size()]);
         break;
      }
      case O_REMOVE_ALL: {
                  uint64_t s = tick();
         W->worker->removeAllSinks();
         uint64_t e = tick();
         for (int i = 0, n = g_nsinks; i < n; ++i)
            if (g_sinks[i]->add_e && g_sinks[i]->add_e < s) note_removal(g_sinks[i], s, e);
            else if (g_sinks[i]->add_s && g_sinks[i]->add_s < e) note_removal(g_sinks[i], s, ~0ull);  // concurrent with its add: may or may not be removed
         break;
      }
      case O_CALL: {
         std::vector<AnyHandle*> c;
         for (auto& h : W->own[t])
            if (h.valid()) c.push_back(&h);
         for (auto& h : W->shared[t])
            if (h.valid()) c.push_back(&h);
         if (c.empty()) break;
         AnyHandle& h = *c[op.a % c.size()];
         CallRec cr;
         cr.id = 100000 + t * 10000 + int(calls.size());
         cr.sink = h.sink;
         cr.thread = t;
         cr.variant = variant_of(op.b, calls.size());
         Pending p;
         p.call = int(calls.size());
         cr.s = tick();
         if (h.m) start_call(h.m, cr, p);
         else start_call(h.s, cr, p);
         cr.e = tick();
         calls.push_back(std::move(cr));
         W->pend[t].push_back(std::move(p));
         if (op.b & 4) finish_call(calls.back(), W->pend[t].back());
         break;
      }
      case O_GET:
         for (auto& p : W->pend[t]) finish_call(calls[p.call], p);
         break;
      case O_YIELD: std::this_thread::yield(); break;
      case O_REP: {
         LogRec& l = logs[nlog++];
         l.s = tick();
         if (op.b & 1) LOGF(INFO, "%s", kReps[l.rep]);
         else LOG(INFO) << kReps[l.rep];
         l.e = tick();
         break;
      }
      case O_HOLD: {
         std::vector<AnyHandle*> c;
         for (auto& h : W->own[t])
            if (h.valid()) c.push_back(&h);
         for (auto& h : W->shared[t])
            if (h.valid()) c.push_back(&h);
         if (c.empty()) break;
         AnyHandle& h = *c[op.a % c.size()];
         World::Hold hold;
         uint64_t s = tick();
         if (h.m) hold.p = h.m->sink().lock();
         else hold.p = h.s->sink().lock();
         uint64_t e = hold.p ? ~0ull : tick();  // even a failed attempt may have held the sink for a moment
         hold.sink = h.sink;
         {
            std::lock_guard<std::mutex> l(g_rem_m);
            hold.idx = g_sinks[h.sink]->holds.size();
            g_sinks[h.sink]->holds.push_back({s, e});
         }
         if (!hold.p) break;
         W->held[t].push_back(std::move(hold));
         break;
      }
      case O_RELEASE: release_holds(t); break;
      }
   }
}

std::string op_name(const Op& o) {
   static const char* n[] = {"LOG", "LOGF", "LOG_IF(true)", "LOGF_IF(false)", "addSink", "removeSink", "removeAllSinks", "call", "get", "yield", "LOG(repeated text)", "lock", "unlock"};
   return n[o.k];
}
}  // namespace

void pbt_init() {
   // the process's first entry without a worker is kept for the next worker: get that over with
   LOG(INFO) << "first";
   {
      auto w = g3::LogWorker::createLogWorker();
      g3::initializeLogging(w.get());
   }
   int fd = open("/dev/null", O_WRONLY);
   // "no sinks" reports and shutdown lines go to stderr
   if (fd >= 0 && !pbt::verbose()) {
      FILE* f = fdopen(fd, "w");
      (void)f;
   }
}

#if PROP == 22
static void case22(pbt::Source& s);
#endif

static void reset_world() {
   g_clock = 0;
   for (int i = 0; i < g_nsinks; ++i) delete g_sinks[i];
   g_nsinks = 0;
   g_gate_open = false;
   g_blocked_now.clear();
   g_recv_total = 0;
   g_long = 0;
   g_count_received = PROP == 22;
}

static void check_all(uint64_t destroy_s, uint64_t destroy_e);

#if PROP == 4
// known finding "self-call-at-end": a call that calls its own sink again, on the sink's thread, may hold the last reference
struct Poster {
   static inline std::atomic<g3::SinkHandle<Poster>*> handle{nullptr};
   void post() {
      if (auto h = handle.load()) h->call(&Poster::post);
   }
   void receive(g3::LogMessageMover) {}
};
void self_call_at_end() {
   for (int i = 0; i < 20000; ++i) {
      auto worker = g3::LogWorker::createLogWorker();
      auto h = worker->addSink(std::make_unique<Poster>(), &Poster::receive);
      Poster::handle = h.get();
      h->call(&Poster::post);
      worker.reset();
      Poster::handle = nullptr;
      if (!(i & 255)) pbt::beat();
   }
}
#endif
void pbt_case(pbt::Source& s) {
#if PROP == 4
   if (const char* known = getenv("PBT_KNOWN")) {
      if (!strcmp(known, "self-call-at-end")) self_call_at_end();
      return;
   }
#endif
   reset_world();
   World w;
   W = &w;
#if PROP == 22
   case22(s);
   return;
#endif
   const bool small = sched::kActive;
   int nthreads = 1 + int(s.below(small ? 3 : 6));
   int ninit = int(s.below(PROP == 2 ? 3 : 4)) + (PROP == 2 ? 2 : 0);
   if (PROP == 1 && ninit == 0 && s.chance(3, 4)) ninit = 1;
   std::vector<std::vector<Op>>& script = w.script;
   script.resize(nthreads);
   int id = 0;
   const bool many = !small && s.chance(1, 60);  // many sinks and threads
   if (many) {
      nthreads = 1 + int(s.below(30));
      ninit = 20 + int(s.below(120));
      script.resize(nthreads);
   }
   const bool selfcall = PROP == 4 && !many && s.chance(1, 5);
   const bool self_at_end = selfcall && s.boolean();  // receivers go on calling while sinks are removed and the worker ends
   g_count_received = selfcall;
   const bool relogs = !many && !selfcall && s.chance(1, 6);
   const bool reps = (PROP == 1 || PROP == 3) && s.chance(1, 6);
   const bool odd_levels = s.chance(1, 4), shapes = s.chance(1, 5);
   g_long = many ? 0 : s.chance(1, 10) ? 1 : !small && s.chance(1, 30) ? 2 : 0;
   if (selfcall && ninit == 0) ninit = 1;
   bool big = !small && !many && s.chance(1, 12);
   // huge: every sink is stuck until all log calls have returned, so tens of thousands of entries are pending
   const bool huge = !small && !many && !selfcall && s.chance(1, 50);
   if (huge) {
      g_long = 0;
      nthreads = 1 + nthreads % 3;
      if (ninit > 2) ninit = 2;
      script.resize(nthreads);
   }
   w.logs.resize(nthreads);
   std::vector<int> init_kind(ninit), init_slow(ninit), init_relog(ninit);
   for (int i = 0; i < ninit; ++i) {
      init_kind[i] = int(s.below(2));
      init_slow[i] = s.chance(1, 3) ? int(s.below(4)) : 0;
      if (small && s.chance(1, 3)) init_slow[i] |= int(s.below(6)) << 8;
      if (relogs || selfcall) init_relog[i] = int(s.below(5));
   }
   size_t total_logs = 0;
   for (int t = 0; t < nthreads; ++t) {
      int n = small ? int(s.below(7)) : huge ? 1000 + int(s.below((s.chance(1, 4) ? 300000 : 100000) / nthreads)) : many ? int(s.below(30)) : g_long == 2 ? int(s.below(40)) : big ? int(s.below(4000)) : int(s.size(150));
      pbt::describe(" thread %d:", t);
      for (int i = 0; i < n; ++i) {
         Op o;
         if (huge) {
            o.k = i % 11 == 5 ? O_LOGF : O_LOG;
            if (PROP == 4 && (i % 4999 == 4990 || i == n - 3 || i == n - 1)) {  // (never waited for before the sinks go on)
               o.k = O_CALL;
               o.a = i % 16;
               o.b = i % 8 & ~4;
               script[t].push_back(o);
               continue;
            }
            LogRec l;
            l.id = id++;
            l.thread = t;
            w.logs[t].push_back(l);
            ++total_logs;
            script[t].push_back(o);
            if (i == 0) pbt::describe(" %d entries while the sinks are stuck", n);
            continue;
         }
         unsigned r = unsigned(s.below(100));
#if PROP == 1
         o.k = r < 55 ? O_LOG : r < 65 ? O_LOGF : r < 70 ? O_LOG_IF_T : r < 74 ? O_LOG_IF_F : r < 80 ? O_YIELD : r < 88 ? O_ADD : r < 94 ? O_REMOVE : r < 96 ? O_CALL : r < 98 ? O_REMOVE_ALL : O_LOG;
#elif PROP == 2
         o.k = r < 70 ? O_LOG : r < 80 ? O_LOGF : r < 86 ? O_YIELD : r < 91 ? O_ADD : r < 95 ? O_REMOVE : r < 98 ? O_CALL : O_LOG_IF_F;
#elif PROP == 3
         o.k = r < 45 ? O_LOG : r < 65 ? O_ADD : r < 85 ? O_REMOVE : r < 91 ? O_REMOVE_ALL : r < 96 ? O_CALL : O_YIELD;
#else
         o.k = r < 55 ? O_CALL : r < 75 ? O_LOG : r < 80 ? O_GET : r < 87 ? O_ADD : r < 94 ? O_REMOVE : r < 96 ? O_REMOVE_ALL : O_YIELD;
#endif
         if (big && o.k != O_LOG && i % 50) o.k = O_LOG;
         if (selfcall && !self_at_end && (o.k == O_ADD || o.k == O_REMOVE || o.k == O_REMOVE_ALL)) o.k = O_LOG;
         if ((o.k == O_CALL || (PROP == 3 && o.k == O_YIELD)) && !selfcall && s.chance(1, 6)) o.k = O_HOLD;
         else if (o.k == O_YIELD && s.chance(1, 3)) o.k = O_RELEASE;
         if (reps && o.k <= O_LOG_IF_T && s.chance(4, 5)) o.k = O_REP;
         if (o.k == O_HOLD || o.k == O_ADD || o.k == O_REMOVE || o.k == O_CALL) o.a = int(s.below(16));
         if (o.k == O_CALL) o.b = int(s.below(8));
         if (o.k == O_LOG && odd_levels) o.b = int(s.below(10)) % 6;
         if (o.k == O_REP) o.b = int(s.below(2));
         if (o.k == O_LOG && shapes && !big && s.chance(1, 3)) o.b = 110 + int(s.below(2));
         if (o.k == O_LOG && o.b == 110) {  // (the outer one comes first in the array)
            LogRec l;
            l.id = id++;
            l.thread = t;
            w.logs[t].push_back(l);
            ++total_logs;
         }
         if (o.k <= O_LOG_IF_F || o.k == O_REP) {
            LogRec l;
            l.id = id++;
            l.thread = t;
            if (o.k == O_REP) l.rep = int(s.below(8)) & (s.chance(1, 3) ? 3 : 1);
            w.logs[t].push_back(l);
            ++total_logs;
         }
         script[t].push_back(o);
         if (i < 60) pbt::describe(" %s", op_name(o).c_str());
      }
      // (the scheduler lets go of a thread before its thread-local objects are destroyed)
      if (!small && !huge && t && s.chance(1, 6))
         for (size_t i = script[t].size(); i-- > 0;)
            if (script[t][i].k <= O_LOG_IF_F || script[t][i].k == O_REP) {
               if (script[t][i].k == O_LOG && script[t][i].b < 100) script[t][i].b = 100, pbt::describe(" [last one from a thread-local destructor]");
               break;
            }
   }
   pbt::describe(" | %d initial sinks%s%s%s%s", ninit, relogs ? ", receivers log" : "", selfcall ? self_at_end ? ", receivers call to the end" : ", receivers call" : "", reps ? ", repeated texts" : "", g_long ? ", long texts" : "");
   w.held.resize(nthreads);
   w.calls.resize(nthreads);
   w.pend.resize(nthreads);
   w.own.resize(nthreads);
   w.shared.resize(nthreads);
   for (auto& c : w.calls) c.reserve(4200);
   size_t ncalls = 0;
   for (auto& sc : script)
      for (auto& o : sc) ncalls += o.k == O_CALL;
   g_cap = total_logs + ncalls + 4 + (relogs ? 200 * ninit : 0) + (selfcall ? 60 : 0) + 8 * ninit;
   // ownership of the initial sinks' handles
   w.owner_thread.resize(ninit);
   for (int i = 0; i < ninit; ++i) w.owner_thread[i] = int(s.below(nthreads + 1)) - 1;  // -1: nobody removes it
   bool main_calls_during_destroy = (PROP == 4 || PROP == 1 || PROP == 3) && s.chance(1, PROP == 4 ? 4 : 6);
   bool destroy_via_removeall = s.chance(1, 8);

   sched::begin(s);
   w.worker = g3::LogWorker::createLogWorker();
   for (int i = 0; i < ninit; ++i) {
      AnyHandle h = do_add(init_kind[i], init_slow[i], huge);
      SinkRec* rec = g_sinks[h.sink];
      rec->relogs.reserve(relogs ? 256 : 0);
      if (relogs) rec->relog = init_relog[i];
      if (selfcall) {
         rec->selfcall = init_relog[i];
         AnyHandle& c = w.self_handle[h.sink];
         c.sink = h.sink;
         if (h.m) c.m = std::make_unique<g3::SinkHandle<MsgSink>>(*h.m);
         else c.s = std::make_unique<g3::SinkHandle<StrSink>>(*h.s);
      }
      for (int t = 0; t < nthreads; ++t) {
         AnyHandle c;
         c.sink = h.sink;
         if (h.m) c.m = std::make_unique<g3::SinkHandle<MsgSink>>(*h.m);
         else c.s = std::make_unique<g3::SinkHandle<StrSink>>(*h.s);
         w.shared[t].push_back(std::move(c));
      }
      w.owner.push_back(std::move(h));
   }
   g3::initializeLogging(w.worker.get());
   std::vector<std::thread> ths;
   std::thread late;
   for (int t = 1; t < nthreads; ++t) ths.emplace_back(run_thread, t);
   run_thread(0);
   // one thread may go on calling through its handles while the worker is destroyed
   for (auto& t : ths) t.join();
   if (huge) {
      pbt::label("histories with more than 1000 entries pending");
      if (total_logs > 32768) pbt::label("histories with more than 32768 entries pending");
      std::lock_guard<std::mutex> l(g_gate_m);
      g_gate_open = true;
      g_gate_cv.notify_all();
   }
   if (selfcall && !self_at_end) {  // wait until it has seen every entry
      uint64_t due = 0;
      for (auto& v : w.logs)
         for (auto& l : v) due += l.expected;
      {
         std::unique_lock<std::mutex> l(g_gate_m);
         while (g_recv_total < due * ninit) g_recv_cv.wait(l);
      }
      std::lock_guard<std::mutex> l(w.self_m);
      for (auto& p : w.self_pend) finish_call(w.self_calls[p.call], p);
      pbt::label("calls made by receivers", w.self_calls.size());
      w.self_handle.clear();
   }
   if (main_calls_during_destroy) {
      late = std::thread([&] {
         auto& calls = W->calls[0];
         for (int k = 0; k < 4; ++k)
            for (auto& h : W->shared[0]) {
               CallRec cr;
               cr.id = 100000 + int(calls.size());
               cr.sink = h.sink;
               cr.thread = 0;
               cr.variant = variant_of(k, size_t(k));
               Pending p;
               p.call = int(calls.size());
               cr.s = tick();
               if (h.m) start_call(h.m, cr, p);
               else start_call(h.s, cr, p);
               cr.e = tick();
               calls.push_back(std::move(cr));
               W->pend[0].push_back(std::move(p));
            }
      });
   }
   if (destroy_via_removeall) {
      uint64_t a = tick();
      int n = g_nsinks;
      w.worker->removeAllSinks();
      uint64_t b = tick();
      for (int i = 0; i < n; ++i) note_removal(g_sinks[i], a, b);
   }
   uint64_t ds = tick();
   w.worker.reset();
   uint64_t de = tick();
   for (int i = 0; i < g_nsinks; ++i) note_removal(g_sinks[i], ds, de);
   if (late.joinable()) late.join();
   for (int t = 0; t < nthreads; ++t) {
      if (!w.held[t].empty()) pbt::label("sinks held beyond the end of the worker");
      release_holds(t);
   }
   if (relogs) {  // an entry that a receiver logged too late waits for the next worker
      auto next = g3::LogWorker::createLogWorker();
      g3::initializeLogging(next.get());
   }
   if (self_at_end) {
      for (auto& p : w.self_pend) finish_call(w.self_calls[p.call], p);
      pbt::label("calls made by receivers", w.self_calls.size());
   }
   w.calls.push_back(std::move(w.self_calls));
   // every future must be ready now, or become ready: nothing is left to run it
   for (int t = 0; t < nthreads; ++t)
      for (auto& p : w.pend[t]) finish_call(w.calls[t][p.call], p);
   // calls after the end
   if (PROP == 4 || PROP == 3)
      for (auto& h : w.shared[0]) {
         CallRec cr;
         cr.id = 100000 + int(w.calls[0].size());
         cr.sink = h.sink;
         cr.thread = 0;
         cr.variant = variant_of(int(w.calls[0].size()), w.calls[0].size() >> 2 << 2);
         Pending p;
         p.call = int(w.calls[0].size());
         cr.s = tick();
         if (h.m) start_call(h.m, cr, p);
         else start_call(h.s, cr, p);
         cr.e = tick();
         w.calls[0].push_back(std::move(cr));
         w.pend[0].push_back(std::move(p));
         finish_call(w.calls[0].back(), w.pend[0].back());
      }
   sched::end();
   check_all(ds, de);
   if (sched::kActive) sched::label_stats();
   W = nullptr;
}

static void check_all(uint64_t destroy_s, uint64_t destroy_e) {
   World& w = *W;
   std::map<int, LogRec*> by_id;
   std::vector<LogRec*> reps;
   std::set<int> log_threads;
   size_t nlogs = 0;
   for (auto& v : w.logs)
      for (auto& l : v) {
         if (l.s == 0) continue;
         if (l.rep >= 0) reps.push_back(&l);
         else by_id[l.id] = &l;
         ++nlogs;
         log_threads.insert(l.thread);
      }
   for (int i = 0; i < g_nsinks; ++i)
      for (auto& l : g_sinks[i]->relogs) by_id[l.id] = &l;
   if (!reps.empty()) pbt::label("entries with repeated texts", reps.size());
   std::map<int, CallRec*> call_by_id;
   for (auto& v : w.calls)
      for (auto& c : v) call_by_id[c.id] = &c;
   size_t due_total = 0;
   bool nt1 = false;
   (void)nt1;
   // When a removed sink must be gone at the latest: calls, locks and removals through its handles keep it while they last, and
   // one that started meanwhile keeps it further.
   std::vector<uint64_t> gone_at(g_nsinks);
   {
      std::vector<std::vector<std::pair<uint64_t, uint64_t>>> iv(g_nsinks);
      for (auto& v : w.calls)
         for (auto& c : v) iv[c.sink].push_back({c.s, c.e});
      for (int i = 0; i < g_nsinks; ++i) {
         SinkRec* r = g_sinks[i];
         for (auto& h : r->holds) iv[i].push_back(h);
         for (auto& x : r->removals)
            if (x.second != ~0ull) iv[i].push_back(x);
         std::sort(iv[i].begin(), iv[i].end());
         gone_at[i] = r->rem_e;
         for (auto& x : iv[i])
            if (x.first < gone_at[i] && x.second > gone_at[i]) gone_at[i] = x.second;
      }
   }
   auto gone = [&](SinkRec* r) { return gone_at[r->id]; };
   std::vector<std::vector<int>> orders(g_nsinks);
   for (int i = 0; i < g_nsinks; ++i) {
      SinkRec* r = g_sinks[i];
      if (!r->added) continue;
      std::map<int, int> got;
      std::map<int, uint64_t> got_at;
      unsigned long tid = 0;
      std::vector<int>& order = orders[i];
      if (r->n > r->ev.size()) pbt::fail("sink %d got %u deliveries/calls, more than were ever made (%zu)", i, r->n, r->ev.size());
      if (PROP == 1 && !r->bad.empty()) pbt::fail("sink %d received something that was never logged: \"%s\"", i, pbt::show(r->bad).c_str());
      for (uint32_t k = 0; k < r->n; ++k) {
         Ev& e = r->ev[k];
         if (PROP == 4) {
            if (tid == 0) tid = e.tid;
            if (e.tid != tid) pbt::fail("sink %d: deliveries and calls ran on different threads", i);
            if (e.tid == (unsigned long)pthread_self()) pbt::fail("sink %d: call ran on the caller's thread", i);
         }
         if (e.kind == 0) {
            got[e.id]++;
            got_at[e.id] = e.out;
            order.push_back(e.id);
         }
      }
      if ((PROP == 2 || PROP == 4) && r->overlap) pbt::fail("sink %d was entered while a previous delivery or call was still running", i);
      if (PROP == 3) {
         if (r->destroyed > 1) pbt::fail("sink %d destroyed %d times", i, r->destroyed);
         if (r->destroyed == 0) pbt::fail("sink %d never destroyed though it was removed and the worker is gone", i);
         if (r->destroyed_at > gone(r)) pbt::fail("sink %d: removal returned (t=%lu) before the sink was destroyed (t=%lu)", i, (unsigned long)gone(r), (unsigned long)r->destroyed_at);
         for (uint32_t k = 0; k < r->n; ++k)
            if (r->ev[k].out > gone(r)) pbt::fail("sink %d still handled something after its removal had returned", i);
      }
      // deliveries
      for (auto& kv : by_id) {
         LogRec& l = *kv.second;
         int n = got.count(l.id) ? got[l.id] : 0;
         bool due = l.expected && l.s > r->add_e && l.e < r->rem_s;
         bool never = !l.expected || l.e < r->add_s || l.s > r->rem_e;
         due_total += due;
         if (PROP == 1 || PROP == 3) {
            if (n > 1) pbt::fail("sink %d received entry %d %d times", i, l.id, n);
            if (due && n && got_at[l.id] > r->rem_e)
               pbt::fail("sink %d handled entry %d (logged [%lu,%lu]) at t=%lu, after its removal (or the destruction of the worker) had returned (t=%lu)", i, l.id, (unsigned long)l.s, (unsigned long)l.e, (unsigned long)got_at[l.id], (unsigned long)r->rem_e);
            if (due && n == 0) pbt::fail("sink %d never received entry %d (logged [%lu,%lu] by thread %d; attached from %lu until removal at %lu; destruction [%lu,%lu])", i, l.id, (unsigned long)l.s, (unsigned long)l.e, l.thread,
                                         (unsigned long)r->add_e, (unsigned long)r->rem_s, (unsigned long)destroy_s, (unsigned long)destroy_e);
            if (never && n) pbt::fail("sink %d received entry %d, which was %s", i, l.id, !l.expected ? "not to be logged (condition false)" : l.e < r->add_s ? "logged before the sink was added" : "logged after the sink was removed");
         }
      }
      if (PROP == 1 || PROP == 3)
         for (int k = 0; k < 4; ++k) {
            int lo = 0, hi = 0, n = got.count(-10 - k) ? got[-10 - k] : 0;
            for (LogRec* l : reps)
               if (l->rep == k) {
                  lo += l->s > r->add_e && l->e < r->rem_s;
                  hi += !(l->e < r->add_s || l->s > r->rem_e);
               }
            due_total += lo;
            if (n < lo || n > hi) pbt::fail("sink %d received the text \"%s\" %d times; it was logged %d times while the sink was attached, at most %d times overlapping that", i, kReps[k], n, lo, hi);
         }
      if (PROP == 1)
         for (auto& kv : got)
            if (kv.first >= 0 && !by_id.count(kv.first)) pbt::fail("sink %d received entry %d, which was never logged", i, kv.first);
      // real-time order
      if (PROP == 2 || PROP == 3) {
         uint64_t max_s = 0;
         int max_id = -1;
         for (int id : order) {
            auto it = by_id.find(id);
            if (it == by_id.end()) continue;
            if (it->second->e < max_s) pbt::fail("sink %d received entry %d after entry %d, but entry %d was logged before (returned at t=%lu, the other started at t=%lu)", i, id, max_id, id, (unsigned long)it->second->e, (unsigned long)max_s);
            if (it->second->s > max_s) {
               max_s = it->second->s;
               max_id = id;
            }
         }
      }
   }
   // agreement between sinks
   size_t best_common = 0;
   if (PROP == 2 || PROP == 3)
      for (int i = 0; i < g_nsinks; ++i)
         for (int j = i + 1; j < g_nsinks; ++j) {
            if (g_nsinks > 24 && i && j > i + 2) break;
            std::map<int, size_t> pos;
            for (size_t k = 0; k < orders[i].size(); ++k)
               if (orders[i][k] >= 0) pos[orders[i][k]] = k;
            size_t last = 0;
            int last_id = -1;
            size_t common = 0;
            for (int id : orders[j]) {
               auto it = pos.find(id);
               if (it == pos.end()) continue;
               ++common;
               if (last_id >= 0 && it->second < last) pbt::fail("sinks %d and %d disagree: entry %d before %d at one, after it at the other", i, j, last_id, id);
               last = it->second;
               last_id = id;
            }
            best_common = std::max(best_common, common);
         }
   // handle calls
   size_t ran_total = 0;
   if (PROP == 4 || PROP == 3) {
      std::map<int, std::map<int, int>> last_of;  // sink -> thread -> last call id run
      std::map<int, int> runs;
      for (int i = 0; i < g_nsinks; ++i) {
         SinkRec* r = g_sinks[i];
         std::map<int, int> last;
         for (uint32_t k = 0; k < r->n && k < r->ev.size(); ++k) {
            Ev& e = r->ev[k];
            if (e.kind != 1) continue;
            runs[e.id]++;
            ++ran_total;
            auto it = call_by_id.find(e.id);
            if (it == call_by_id.end()) pbt::fail("sink %d ran a call (%d) that was never made", i, e.id);
            CallRec& c = *it->second;
            if (c.sink != i) pbt::fail("call %d for sink %d ran on sink %d", c.id, c.sink, i);
            if (PROP == 4 && last.count(c.thread) && last[c.thread] > c.id) pbt::fail("sink %d ran call %d of thread %d after its later call %d", i, c.id, c.thread, last[c.thread]);
            last[c.thread] = c.id;
            if (e.in < c.s) pbt::fail("call %d ran before it was made", c.id);
         }
      }
      for (auto& v : w.calls)
         for (auto& c : v) {
            SinkRec* r = g_sinks[c.sink];
            int n = runs.count(c.id) ? runs[c.id] : 0;
            if (n > 1) pbt::fail("call %d ran %d times", c.id, n);
            bool before = c.e < r->rem_s, after = c.s > r->destroyed_at || c.s > gone(r);
            if (c.outcome == 3) pbt::fail("call %d (variant %d): future delivered something else than the call's outcome: %s", c.id, c.variant, c.other.c_str());
            if (before && n == 0) pbt::fail("call %d was made while sink %d was attached but never ran", c.id, c.sink);
            if (before && c.outcome == 2) pbt::fail("call %d made while attached reports bad_weak_ptr", c.id);
            if (after && n) pbt::fail("call %d ran although its sink %d was gone", c.id, c.sink);
            if (after && c.outcome != 2) pbt::fail("call %d on a removed sink did not report bad_weak_ptr", c.id);
            if ((n == 1) != (c.outcome == 0 || c.outcome == 1)) pbt::fail("call %d: ran %d times but its future says %d", c.id, n, c.outcome);
            if (n == 1 && (c.variant == 2 || c.variant == 5) != (c.outcome == 1)) pbt::fail("call %d: exception/value mixed up", c.id);
            if (c.outcome == 2) pbt::label("calls refused: sink gone");
            if (c.outcome == 1) pbt::label("calls that threw");
         }
      if (PROP == 4)
         for (int i = 0; i < g_nsinks; ++i)
            if (!g_sinks[i]->bad.empty()) pbt::fail("sink %d: altered argument or message: %s", i, g_sinks[i]->bad.c_str());
   }
   if (PROP == 4)
      for (int i = 0; i < g_nsinks; ++i) {  // throwing calls do not disturb logging
         SinkRec* r = g_sinks[i];
         std::set<int> got;
         for (uint32_t k = 0; k < r->n; ++k)
            if (r->ev[k].kind == 0) got.insert(r->ev[k].id);
         for (auto& kv : by_id)
            if (kv.second->s > r->add_e && kv.second->e < r->rem_s && kv.second->expected && !got.count(kv.first)) pbt::fail("sink %d lost entry %d in a history with handle calls", i, kv.first);
      }
   int attached = 0;
   bool dyn = false;
   for (int i = 0; i < g_nsinks; ++i)
      if (g_sinks[i]->added) {
         ++attached;
         if (g_sinks[i]->rem_e < destroy_s) dyn = true;
      }
   pbt::label("entries logged", nlogs);
   pbt::label("deliveries due", due_total);
   pbt::label("handle calls run", ran_total);
   if (attached == 0) pbt::label("histories without sinks");
   if (dyn) pbt::label("histories with a removal before the end");
   if (PROP == 1 && log_threads.size() >= 2 && attached && due_total >= 2) pbt::nontrivial();
   if (PROP == 2 && best_common >= 3 && log_threads.size() >= 2) pbt::nontrivial();
   if (PROP == 3 && attached >= 2 && nlogs >= 2 && (dyn || attached > int(w.owner.size()))) pbt::nontrivial();
   if (PROP == 4 && ran_total >= 2 && nlogs + dyn > 0) pbt::nontrivial();
}

#if PROP == 22
// Some sinks are blocked; everything that must not wait for them has to finish while they are still blocked.
static void case22(pbt::Source& s) {
   const bool small = sched::kActive;
   World& w = *W;
   int nthreads = 1 + int(s.below(small ? 3 : 4));
   int nsinks = 1 + int(s.below(3));
   std::vector<int> kind(nsinks), gated(nsinks);
   int ngated = 0;
   for (int i = 0; i < nsinks; ++i) {
      kind[i] = int(s.below(2));
      gated[i] = s.below(3) == 0 ? 0 : 1;
      ngated += gated[i];
   }
   if (!ngated) {
      gated[0] = 1;
      ngated = 1;
   }
   int per = small ? int(s.below(5)) : s.chance(1, 25) ? 20000 + int(s.below(60000)) : s.chance(1, 4) ? int(s.below(6000)) : int(s.size(300));
   int pre = s.chance(1, 2) ? 0 : int(s.below(3));         // entries before the others start
   bool wait_blocked = s.boolean();                         // make sure the sinks are stuck inside their receiver first
   bool add_more = s.boolean();
   int ncalls = int(s.below(3));
   bool remove_other = ngated < nsinks && s.boolean();
   if (!small && s.chance(1, 40)) {
      g_long = 2;
      per = 20 + int(s.below(300));
   } else if (s.chance(1, 20)) g_long = 1;
   pbt::describe("%d sinks (%d blocked), %d threads x %d entries, pre %d, wait_blocked %d, add %d, calls %d", nsinks, ngated, nthreads, per, pre, wait_blocked, add_more, ncalls);
   g_cap = size_t(nthreads) * per + pre + 64;
   int id = 0;
   std::vector<LogRec> logs;
   sched::begin(s);
   w.worker = g3::LogWorker::createLogWorker();
   std::vector<AnyHandle> hs;
   for (int i = 0; i < nsinks; ++i) hs.push_back(do_add(kind[i], 0, gated[i]));
   g3::initializeLogging(w.worker.get());
   for (int i = 0; i < pre; ++i) LOG(INFO) << payload(id++);
   if (pre && wait_blocked) {
      std::unique_lock<std::mutex> l(g_gate_m);
      while (int(g_blocked_now.size()) < ngated) g_recv_cv.wait(l);
   }
   pbt::beat();
   std::vector<std::thread> ths;
   auto logger = [&](int base) {
      for (int i = 0; i < per; ++i) {
         if (i % 3 == 1 && !g_long) LOGF(WARNING, "%s", payload(base + i).c_str());
         else LOG(INFO) << payload(base + i);
      }
   };
   for (int t = 1; t < nthreads; ++t) ths.emplace_back(logger, id + t * per);
   logger(id);
   for (auto& t : ths) t.join();  // every log call returned while the blocked sinks are still blocked
   pbt::beat();
   int total = pre + nthreads * per;
   // the other sinks get everything, handle calls on them complete, while the blocked ones are blocked
   {
      std::unique_lock<std::mutex> l(g_gate_m);
      while (g_recv_total < uint64_t(total) * (nsinks - ngated)) g_recv_cv.wait(l);
   }
   for (int i = 0; i < nsinks; ++i)
      if (!gated[i])
         for (int c = 0; c < ncalls; ++c) {
            int v = hs[i].m ? hs[i].m->call(&SinkBase::callInt, c, payload(c)).get() : hs[i].s->call(&SinkBase::callInt, c, payload(c)).get();
            if (v != c * 3 + 1) pbt::fail("call result wrong");
         }
   int extra = 0;
   if (add_more) {
      AnyHandle h = do_add(0, 0, false);
      extra = 1;
      LOG(INFO) << payload(total);
      {
         std::unique_lock<std::mutex> l(g_gate_m);
         while (g_recv_total < uint64_t(total) * (nsinks - ngated) + (nsinks - ngated) + 1) g_recv_cv.wait(l);
      }
      hs.push_back(std::move(h));
   }
   if (remove_other)
      for (int i = 0; i < nsinks; ++i)
         if (!gated[i]) {
            do_remove(hs[i]);
            pbt::label("sinks removed while another was blocked");
            break;
         }
   pbt::beat();
   {
      std::lock_guard<std::mutex> l(g_gate_m);
      g_gate_open = true;
      g_gate_cv.notify_all();
   }
   w.worker.reset();
   sched::end();
   for (int i = 0; i < nsinks; ++i) {
      SinkRec* r = g_sinks[i];
      std::vector<int> next(nthreads, 0);
      int got = 0, prev_pre = 0;
      for (uint32_t k = 0; k < r->n && k < r->ev.size(); ++k) {
         if (r->ev[k].kind) continue;
         int m = r->ev[k].id;
         ++got;
         if (m < 0) pbt::fail("sink %d received a damaged entry: %s", i, pbt::show(r->bad).c_str());
         if (m < pre) {
            if (m != prev_pre++) pbt::fail("sink %d (blocked=%d): entry %d out of order", i, gated[i], m);
         } else if (m < total) {
            int t = (m - pre) / std::max(1, per), q = (m - pre) % std::max(1, per);
            if (q != next[t]++) pbt::fail("sink %d (blocked=%d): entry %d of thread %d out of order, lost or repeated", i, gated[i], q, t);
         }
      }
      if (got != total + extra) pbt::fail("sink %d (blocked=%d) received %d of %d entries", i, gated[i], got, total + extra);
   }
   pbt::label("entries pending at blocked sinks", uint64_t(total) * ngated);
   if (total >= 10000) pbt::label("cases with >=10000 pending entries");
   if (total && (nthreads > 1 || nsinks > ngated)) pbt::nontrivial();
   if (sched::kActive) sched::label_stats();
   W = nullptr;
}
#endif
