// P20: shared_queue (linearizable FIFO queue), Active (one thread, once, in order), spawn_task, under generated programs.
#include <g3log/active.hpp>
#include <g3log/future.hpp>
#include <g3log/moveoncopy.hpp>
#include <g3log/shared_queue.hpp>

#include <unistd.h>
#include <atomic>
#include <functional>
#include <future>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <thread>
#include <unordered_set>

#include "pbt.hpp"
#include "sched.hpp"
#define NOTS __attribute__((no_sanitize_thread, noinline))
using std::string;
using std::vector;

const char* pbt_rule =
   "queue cases: 1..3 producers and 1..3 consumers doing push / waiting pop / non-waiting pop / size / empty, the history checked for linearizability; executor cases: 1..4 threads sending plain, future and nested tasks; non-trivial: >=2 threads and >=4 operations";
int pbt_default_batch = 20;
double pbt_hang_s = 40;
bool pbt_hang_is_violation = !sched::kActive;

namespace {
uint64_t g_clock;
NOTS uint64_t tick() { return __atomic_add_fetch(&g_clock, 1, __ATOMIC_SEQ_CST); }
void maybe_pause(unsigned us) {
   if (!us) return;
   if (sched::kActive) std::this_thread::yield();
   else std::this_thread::sleep_for(std::chrono::microseconds(us));
}

// ------------------------------------------------------------------------------------------------------- linearizability
enum QK { Q_PUSH, Q_WAIT, Q_TRY, Q_SIZE, Q_EMPTY };
const char* kQ[] = {"push", "wait_and_pop", "try_and_pop", "size", "empty"};
struct QOp {
   QK k;
   int thread = 0;
   int v = -1;  // pushed / popped value (-1: try failed); size; empty
   uint64_t inv = 0, ret = 0;
};
// Is there an order of the operations that respects real time and a FIFO queue?
struct Lin {
   const vector<QOp>& h;
   std::unordered_set<string> seen;
   uint64_t nodes = 0;
   explicit Lin(const vector<QOp>& x) : h(x) {}
   bool go(vector<bool>& done, size_t left, vector<int>& q, size_t head) {
      if (left == 0) return true;
      if (++nodes > 400000) return true;  // give up: not an alarm
      string key;
      for (bool b : done) key += b ? '1' : '0';
      for (size_t i = head; i < q.size(); ++i) key += "," + std::to_string(q[i]);
      if (!seen.insert(key).second) return false;
      uint64_t first_ret = ~0ull;
      for (size_t i = 0; i < h.size(); ++i)
         if (!done[i]) first_ret = std::min(first_ret, h[i].ret);
      for (size_t i = 0; i < h.size(); ++i) {
         if (done[i] || h[i].inv > first_ret) continue;
         const QOp& o = h[i];
         size_t n = q.size() - head;
         done[i] = true;
         bool ok = false;
         switch (o.k) {
         case Q_PUSH:
            q.push_back(o.v);
            ok = go(done, left - 1, q, head);
            q.pop_back();
            break;
         case Q_WAIT: ok = n && q[head] == o.v && go(done, left - 1, q, head + 1); break;
         case Q_TRY: ok = o.v < 0 ? n == 0 && go(done, left - 1, q, head) : n && q[head] == o.v && go(done, left - 1, q, head + 1); break;
         case Q_SIZE: ok = int(n) == o.v && go(done, left - 1, q, head); break;
         case Q_EMPTY: ok = (n == 0) == (o.v == 1) && go(done, left - 1, q, head); break;
         }
         done[i] = false;
         if (ok) return true;
      }
      return false;
   }
};
bool linearizable(const vector<QOp>& h) {
   Lin l(h);
   vector<bool> d(h.size());
   vector<int> q;
   return l.go(d, h.size(), q, 0);
}
string show(const vector<QOp>& h) {
   string r;
   for (auto& o : h) r += "\n  T" + std::to_string(o.thread) + " [" + std::to_string(o.inv) + "," + std::to_string(o.ret) + "] " + kQ[o.k] + " " + std::to_string(o.v);
   return r;
}

// an element that notices being lost or duplicated
std::atomic<int> g_live;
struct Elem {
   std::unique_ptr<int> id;
   string payload;
   Elem() = default;
   explicit Elem(int i) : id(new int(i)), payload(size_t(i % 40), char('a' + i % 26)) { ++g_live; }
   Elem(Elem&& o) noexcept = default;
   Elem& operator=(Elem&& o) noexcept {
      if (this != &o) {
         if (id) --g_live;
         id = std::move(o.id);
         payload = std::move(o.payload);
      }
      return *this;
   }
   ~Elem() {
      if (id) --g_live;
   }
   int value() const {
      if (!id) return -99;
      if (payload != string(size_t(*id % 40), char('a' + *id % 26))) return -98;
      return *id;
   }
};

template <class T> T make(int i);
template <> int make<int>(int i) { return i; }
template <> Elem make<Elem>(int i) { return Elem(i); }
template <> std::shared_ptr<Elem> make<std::shared_ptr<Elem>>(int i) { return std::make_shared<Elem>(i); }
int value(int i) { return i; }
int value(const Elem& e) { return e.value(); }
int value(const std::shared_ptr<Elem>& e) { return e ? e->value() : -99; }

template <class T>
void queue_case(pbt::Source& s) {
   const bool big = !sched::kActive && s.chance(1, 3);
   int np = int(1 + s.below(3)), nc = int(s.below(4));
   struct Step {
      QK k;
      unsigned pause;
   };
   vector<vector<Step>> prog(size_t(np + nc));
   int budget = big ? 4000 : 16, waits = 0;
   size_t total = 0;
   for (size_t t = 0; t < prog.size(); ++t) {
      size_t n = big ? 20 + s.below(300) : 1 + s.size(5);
      for (size_t i = 0; i < n && budget > 0; ++i, --budget) {
         Step st;
         unsigned c = unsigned(s.below(8));
         if (int(t) < np) st.k = c < 5 ? Q_PUSH : c == 5 ? Q_TRY : c == 6 ? Q_SIZE : Q_EMPTY;
         else st.k = c < 4 ? Q_WAIT : c < 6 ? Q_TRY : c == 6 ? Q_SIZE : Q_EMPTY;
         st.pause = s.chance(1, 4) ? unsigned(s.below(30)) : 0;
         waits += st.k == Q_WAIT;
         prog[t].push_back(st);
         ++total;
      }
   }
   pbt::describe("queue of %s:", std::is_same<T, int>::value ? "int" : std::is_same<T, Elem>::value ? "move-only objects" : "shared pointers");
   for (size_t t = 0; t < prog.size(); ++t) {
      pbt::describe(" T%zu{", t);
      if (big) pbt::describe("%zu operations", prog[t].size());
      else
         for (auto& x : prog[t]) pbt::describe(" %s", kQ[x.k]);
      pbt::describe(" }");
   }
   pbt::describe("\n");
   g_clock = 0;
   g_live = 0;
   vector<vector<QOp>> log(prog.size() + 1);
   std::atomic<int> next{0}, waiting_left{waits};
   {
      sched::begin(s);
      auto q = std::make_unique<shared_queue<T>>();
      auto run = [&](size_t t) {
         for (auto& st : prog[t]) {
            QOp o;
            o.k = st.k;
            o.thread = int(t);
            maybe_pause(st.pause);
            switch (st.k) {
            case Q_PUSH: {
               o.v = next++;
               T x = make<T>(o.v);
               o.inv = tick();
               q->push(std::move(x));
               o.ret = tick();
               break;
            }
            case Q_WAIT: {
               T x{};
               o.inv = tick();
               q->wait_and_pop(x);
               o.ret = tick();
               o.v = value(x);
               --waiting_left;
               break;
            }
            case Q_TRY: {
               T x{};
               o.inv = tick();
               bool got = q->try_and_pop(x);
               o.ret = tick();
               o.v = got ? value(x) : -1;
               break;
            }
            case Q_SIZE:
               o.inv = tick();
               o.v = int(q->size());
               o.ret = tick();
               break;
            case Q_EMPTY:
               o.inv = tick();
               o.v = q->empty();
               o.ret = tick();
               break;
            }
            log[t].push_back(o);
         }
      };
      vector<std::thread> th;
      for (size_t t = 0; t < prog.size(); ++t) th.emplace_back(run, t);
      auto& mine = log[prog.size()];
      auto push = [&] {
         QOp o;
         o.k = Q_PUSH;
         o.thread = int(prog.size());
         o.v = next++;
         T x = make<T>(o.v);
         o.inv = tick();
         q->push(std::move(x));
         o.ret = tick();
         mine.push_back(o);
      };
      for (int i = 0; i < np; ++i) th[size_t(i)].join();
      // one element for every waiting pop of the consumers (a non-waiting one may take some of them: then again)
      int tries = 0;
      for (auto& p : prog)
         for (auto& x : p) tries += x.k == Q_TRY;
      for (int i = 0; i < waits + tries && (i < waits || !sched::kActive || true); ++i) push();
      for (size_t i = size_t(np); i < th.size(); ++i) th[i].join();
      for (;;) {
         QOp o;
         o.k = Q_TRY;
         o.thread = int(prog.size());
         T x{};
         o.inv = tick();
         bool got = q->try_and_pop(x);
         o.ret = tick();
         o.v = got ? value(x) : -1;
         mine.push_back(o);
         if (!got) break;
      }
      q->push(make<T>(next++));  // left in the queue when it is destroyed
      q.reset();
      sched::end();
   }
   PBT_ASSERT(g_live == 0, "%d elements were leaked or destroyed twice", g_live.load());
   vector<QOp> h;
   for (auto& l : log) h.insert(h.end(), l.begin(), l.end());
   // exactly once, per producer in order for every consumer
   std::map<int, int> pushed, popped;
   for (auto& o : h) {
      if (o.k == Q_PUSH) ++pushed[o.v];
      if ((o.k == Q_WAIT || o.k == Q_TRY) && o.v != -1) {
         ++popped[o.v];
         PBT_ASSERT(o.v >= 0 && popped[o.v] == 1, "element %d was delivered %d times", o.v, popped[o.v]);
      }
   }
   PBT_ASSERT(pushed == popped, "%zu elements were pushed but %zu delivered", pushed.size(), popped.size());
   if (h.size() <= 40) {
      PBT_ASSERT(linearizable(h), "the history is not that of a FIFO queue:%s", show(h).c_str());
      pbt::label("history checked for linearizability");
   } else {
      // real-time order of pushes and pops
      vector<const QOp*> push_of(size_t(next.load())), pop_of(size_t(next.load()));
      for (auto& o : h) {
         if (o.k == Q_PUSH) push_of[size_t(o.v)] = &o;
         if ((o.k == Q_WAIT || o.k == Q_TRY) && o.v >= 0) pop_of[size_t(o.v)] = &o;
      }
      // pushed strictly before => not popped strictly after
      vector<const QOp*> by_inv;
      for (auto* p : push_of)
         if (p) by_inv.push_back(p);
      std::sort(by_inv.begin(), by_inv.end(), [](const QOp* a, const QOp* b) { return a->inv < b->inv; });
      vector<const QOp*> by_ret = by_inv;
      std::sort(by_ret.begin(), by_ret.end(), [](const QOp* a, const QOp* b) { return a->ret < b->ret; });
      uint64_t latest_inv = 0;  // latest pop start among pushes that returned before
      int who = -1;
      size_t j = 0;
      for (auto* b : by_inv) {
         while (j < by_ret.size() && by_ret[j]->ret < b->inv) {
            auto* pa = pop_of[size_t(by_ret[j]->v)];
            if (pa && pa->inv > latest_inv) latest_inv = pa->inv, who = by_ret[j]->v;
            ++j;
         }
         auto* pb = pop_of[size_t(b->v)];
         if (pb) PBT_ASSERT(pb->ret > latest_inv, "element %d was delivered before element %d which had been pushed earlier", b->v, who);
      }
      for (auto& o : h)
         if (o.k == Q_SIZE) PBT_ASSERT(o.v >= 0 && o.v <= int(pushed.size()), "size %d", o.v);
      pbt::label("large history");
   }
   if (prog.size() >= 2 && total >= 4) pbt::nontrivial();
   pbt::label("queue");
}

// --------------------------------------------------------------------------------------------------------------- executor
enum TK { T_PLAIN, T_INT, T_VOID, T_STRING, T_UNIQUE, T_REF, T_THROW, T_THROW_INT, T_NEST, T_NEST_SPAWN, T_N };
const char* kT[] = {"plain", "future<int>", "future<void>", "future<string>", "future<unique_ptr>", "future<int&>", "throws", "throws an int", "sends a task", "spawns a task"};
struct Task {
   TK k;
   unsigned pause = 0, slow = 0;
   uint64_t inv = 0, ret = 0, start = 0, end = 0;
   int runs = 0;
   int sender = 0;
   bool get = false;   // the sender waits for the future at once
   int child = -1;     // nested task
   bool sent = false;
};
std::atomic<int> g_caps;
struct Cap {  // counts captured state: none may survive the executor
   int v;
   explicit Cap(int i) : v(i) { ++g_caps; }
   Cap(const Cap& o) : v(o.v) { ++g_caps; }
   Cap(Cap&& o) noexcept : v(o.v) { ++g_caps; }
   ~Cap() { --g_caps; }
};
int g_target = 4711;
struct Custom : std::exception {
   int n;
   explicit Custom(int i) : n(i) {}
};

void active_case(pbt::Source& s) {
   const bool big = !sched::kActive && s.chance(1, 3);
   int nt = int(1 + s.below(4));
   vector<Task> tasks;
   vector<vector<int>> prog(size_t(nt) + 0);
   size_t total = 0;
   for (size_t t = 0; t < prog.size(); ++t) {
      size_t n = big ? 10 + s.below(200) : 1 + s.size(5);
      for (size_t i = 0; i < n; ++i) {
         Task k;
         k.k = TK(s.below(T_N));
         k.pause = s.chance(1, 4) ? unsigned(s.below(20)) : 0;
         k.slow = s.chance(1, 5) ? unsigned(s.below(40)) : 0;
         k.get = s.chance(1, 4);
         k.sender = int(t);
         if (k.k >= T_NEST) {
            Task c;
            c.k = k.k == T_NEST ? T_PLAIN : T_INT;
            c.sender = -1;
            k.child = int(tasks.size());
            tasks.push_back(c);
         }
         prog[t].push_back(int(tasks.size()));
         tasks.push_back(k);
         ++total;
      }
   }
   bool idle = s.boolean();
   pbt::describe("executor:");
   for (size_t t = 0; t < prog.size(); ++t) {
      pbt::describe(" T%zu{", t);
      if (big) pbt::describe("%zu tasks", prog[t].size());
      else
         for (int i : prog[t]) pbt::describe(" %s%s", kT[tasks[size_t(i)].k], tasks[size_t(i)].get ? "+get" : "");
      pbt::describe(" }");
   }
   pbt::describe("\n");
   g_clock = 0;
   g_caps = 0;
   std::atomic<int> running{0};
   std::thread::id bg_id;
   bool have_bg = false;
   // what the tasks themselves found wrong
   std::atomic<const char*> wrong{nullptr};
   vector<std::future<int>> nested(tasks.size());
   vector<std::future<int>> fi(tasks.size());
   vector<std::future<void>> fv(tasks.size());
   vector<std::future<string>> fs(tasks.size());
   vector<std::future<std::unique_ptr<int>>> fu(tasks.size());
   vector<std::future<int&>> fr(tasks.size());
   uint64_t destroy_begin = 0, destroy_end = 0;
   sched::begin(s);
   {
      std::unique_ptr<kjellkod::Active> a = kjellkod::Active::createActive();
      auto* act = a.get();
      if (idle) maybe_pause(20);
      // enter/leave of a task body
      auto enter = [&](int i) {
         Task& t = tasks[size_t(i)];
         t.start = tick();
         if (running.fetch_add(1) != 0) wrong = "two tasks ran at the same time";
         ++t.runs;
         if (!have_bg) {
            have_bg = true;
            bg_id = std::this_thread::get_id();
         } else if (bg_id != std::this_thread::get_id())
            wrong = "tasks ran on different threads";
         maybe_pause(t.slow);
      };
      auto leave = [&](int i) {
         running.fetch_sub(1);
         tasks[size_t(i)].end = tick();
      };
      auto send = [&](int i) {
         Task& t = tasks[size_t(i)];
         Cap cap(i);
         t.sent = true;
         t.inv = tick();
         switch (t.k) {
         case T_PLAIN: act->send([cap, enter, leave] { enter(cap.v), leave(cap.v); }); break;
         case T_INT: {
            auto& f = t.sender < 0 ? nested[size_t(i)] : fi[size_t(i)];
            f = g3::spawn_task([cap, enter, leave] { enter(cap.v), leave(cap.v); return cap.v * 3 + 1; }, act);
            break;
         }
         case T_VOID: fv[size_t(i)] = g3::spawn_task([cap, enter, leave] { enter(cap.v), leave(cap.v); }, act); break;
         case T_STRING: fs[size_t(i)] = g3::spawn_task([cap, enter, leave] { enter(cap.v), leave(cap.v); return string(100, 'x') + std::to_string(cap.v); }, act); break;
         case T_UNIQUE: {
            auto mine = std::make_unique<int>(i);  // move-only captured state needs the copyable wrapper
#ifndef PBT_REDUCED
            fu[size_t(i)] = g3::spawn_task(g3::MoveOnCopy<std::unique_ptr<int>>(std::move(mine)).get() ? std::function<std::unique_ptr<int>()>([cap, enter, leave] { enter(cap.v), leave(cap.v); return std::make_unique<int>(cap.v); }) : nullptr, act);
#else
            fu[size_t(i)] = g3::spawn_task([cap, enter, leave] { enter(cap.v), leave(cap.v); return std::make_unique<int>(cap.v); }, act);
#endif
            break;
         }
#ifndef PBT_REDUCED
         case T_REF: fr[size_t(i)] = g3::spawn_task([cap, enter, leave]() -> int& { enter(cap.v), leave(cap.v); return g_target; }, act); break;
#else
         case T_REF: {
            auto p = std::make_shared<std::promise<int&>>();
            fr[size_t(i)] = p->get_future();
            act->send([cap, enter, leave, p] { enter(cap.v), leave(cap.v), p->set_value(g_target); });
            break;
         }
#endif
         case T_THROW: fi[size_t(i)] = g3::spawn_task([cap, enter, leave]() -> int { enter(cap.v), leave(cap.v); throw Custom(cap.v); }, act); break;
         case T_THROW_INT: fv[size_t(i)] = g3::spawn_task([cap, enter, leave]() { enter(cap.v), leave(cap.v); throw cap.v; }, act); break;
         default: {
            int c = t.child;
            auto* tk = &tasks;
            auto* nf = &nested;
            act->send([cap, enter, leave, c, tk, nf, act] {
               enter(cap.v);
               Task& ct = (*tk)[size_t(c)];
               Cap inner(c);
               ct.sent = true;
               ct.inv = tick();
               if (ct.k == T_PLAIN) act->send([inner, enter, leave] { enter(inner.v), leave(inner.v); });
               else (*nf)[size_t(c)] = g3::spawn_task([inner, enter, leave] { enter(inner.v), leave(inner.v); return inner.v * 3 + 1; }, act);
               ct.ret = tick();
               leave(cap.v);
            });
         }
         }
         t.ret = tick();
      };
      auto check_future = [&](int i) {
         Task& t = tasks[size_t(i)];
         switch (t.k) {
         case T_INT: if (fi[size_t(i)].get() != i * 3 + 1) wrong = "wrong value in a future<int>"; break;
         case T_VOID: fv[size_t(i)].get(); break;
         case T_STRING: if (fs[size_t(i)].get() != string(100, 'x') + std::to_string(i)) wrong = "wrong value in a future<string>"; break;
         case T_UNIQUE: if (*fu[size_t(i)].get() != i) wrong = "wrong value in a future<unique_ptr>"; break;
         case T_REF: if (&fr[size_t(i)].get() != &g_target) wrong = "wrong value in a future<int&>"; break;
         case T_THROW:
            try {
               fi[size_t(i)].get();
               wrong = "a task that throws left no exception in its future";
            } catch (const Custom& c) { if (c.n != i) wrong = "wrong exception in the future"; }
            break;
         case T_THROW_INT:
            try {
               fv[size_t(i)].get();
               wrong = "a task that throws left no exception in its future";
            } catch (int n) { if (n != i) wrong = "wrong exception in the future"; }
            break;
         default: return;
         }
         if (t.runs != 1) wrong = "a future was ready before its task had run";
      };
      auto run = [&](size_t th) {
         for (int i : prog[th]) {
            maybe_pause(tasks[size_t(i)].pause);
            send(i);
            if (tasks[size_t(i)].get) check_future(i);
         }
      };
      vector<std::thread> th;
      for (size_t t = 1; t < prog.size(); ++t) th.emplace_back(run, t);
      run(0);
      for (auto& t : th) t.join();
      destroy_begin = tick();
      a.reset();
      destroy_end = tick();
      for (auto& p : prog)
         for (int i : p)
            if (!tasks[size_t(i)].get) {
               TK k = tasks[size_t(i)].k;
               bool ready = true;
               auto is = [](auto& f) { return f.wait_for(std::chrono::seconds(0)) == std::future_status::ready; };
               if (k == T_INT || k == T_THROW) ready = is(fi[size_t(i)]);
               if (k == T_VOID || k == T_THROW_INT) ready = is(fv[size_t(i)]);
               if (k == T_STRING) ready = is(fs[size_t(i)]);
               if (k == T_UNIQUE) ready = is(fu[size_t(i)]);
               if (k == T_REF) ready = is(fr[size_t(i)]);
               if (!ready) wrong = "a future is not ready although the executor is gone";
               else check_future(i);
            }
      for (size_t i = 0; i < tasks.size(); ++i)
         if (nested[i].valid()) {
            if (nested[i].wait_for(std::chrono::seconds(0)) != std::future_status::ready) wrong = "the future of a nested task is not ready although the executor is gone";
            else
               try {
                  if (nested[i].get() != int(i) * 3 + 1) wrong = "wrong value in the future of a nested task";
               } catch (const std::future_error&) {
                  if (tasks[i].runs) wrong = "a task ran but broke its promise";
               }
         }
   }
   sched::end();
   PBT_ASSERT(!wrong.load(), "%s", wrong.load());
   PBT_ASSERT(g_caps == 0, "%d captured objects survived the executor", g_caps.load());
   vector<const Task*> ran;
   for (size_t i = 0; i < tasks.size(); ++i) {
      auto& t = tasks[i];
      bool due = t.sent && (t.sender >= 0 || t.ret < destroy_begin);
      PBT_ASSERT(t.runs <= 1, "task %zu (%s) ran %d times", i, kT[t.k], t.runs);
      PBT_ASSERT(!due || t.runs == 1, "task %zu (%s) sent by %d before the executor was destroyed never ran", i, kT[t.k], t.sender);
      if (t.runs) {
         PBT_ASSERT(t.end && t.end < destroy_end, "task %zu was still running when the destructor returned", i);
         ran.push_back(&t);
      }
   }
   std::sort(ran.begin(), ran.end(), [](const Task* x, const Task* y) { return x->start < y->start; });
   // a task whose send returned before another one's send began runs before it
   uint64_t max_inv = 0;
   for (auto* t : ran) {
      PBT_ASSERT(t->ret == 0 || t->ret > max_inv || max_inv == 0, "a task sent at [%llu,%llu] ran after one that was sent later, at %llu", (unsigned long long)t->inv, (unsigned long long)t->ret, (unsigned long long)max_inv);
      if (t->inv > max_inv) max_inv = t->inv;
   }
   if (nt >= 2 && total >= 4) pbt::nontrivial();
   pbt::label("executor");
}

// no executor: an exception in the future, nothing runs, nothing hangs
template <class F>
void null_one(F f, const char* what) {
   kjellkod::Active* none = nullptr;
   auto fut = g3::spawn_task(std::move(f), none);
   PBT_ASSERT(fut.valid() && fut.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "%s without an executor: the future is not ready", what);
   try {
      fut.get();
   } catch (const std::exception&) { return; }
   PBT_ASSERT(false, "%s without an executor: no exception", what);
}
void null_case(pbt::Source& s) {
   bool ran = false;
   unsigned k = unsigned(s.below(4));
   pbt::describe("spawn without an executor, result type %u\n", k);
   switch (k) {
   case 0: null_one([&ran] { ran = true; }, "void task"); break;
   case 1: null_one([&ran] { ran = true; return 1; }, "int task"); break;
   case 2: null_one([&ran] { ran = true; return string("x"); }, "string task"); break;
   default: null_one([&ran] { ran = true; return std::make_unique<int>(1); }, "unique_ptr task");
   }
   PBT_ASSERT(!ran, "the task ran although there is no executor");
   pbt::label("no executor");
}
// very many elements or tasks pending at once
void huge_case(pbt::Source& s) {
   static const size_t around[] = {65536, 131072, 262144};
   size_t n = s.boolean() ? around[s.below(3)] + s.below(2000) : 1000 + s.below(300000);
   int np = int(1 + s.below(3));
   bool queue = s.boolean();
   pbt::describe("%s with a backlog of %zu from %d threads\n", queue ? "queue" : "executor", n, np);
   vector<size_t> share(size_t(np), n / size_t(np));
   vector<std::thread> th;
   vector<long> next(size_t(np), 0);
   size_t got = 0;
   auto take = [&](long v) {
      size_t p = size_t(v % np);
      if (p >= next.size() || v / np != next[p]) return false;
      ++next[p];
      ++got;
      return true;
   };
   if (queue) {
      shared_queue<std::shared_ptr<long>> q;
      for (int p = 0; p < np; ++p)
         th.emplace_back([&q, p, np, m = share[size_t(p)]] {
            for (size_t i = 0; i < m; ++i) q.push(std::make_shared<long>(long(i) * np + p));
         });
      for (auto& t : th) t.join();
      PBT_ASSERT(q.size() == share[0] * size_t(np), "size() is %zu after %zu pushes", q.size(), share[0] * size_t(np));
      std::shared_ptr<long> x;
      bool waiting = s.boolean();
      while (waiting ? !q.empty() && (q.wait_and_pop(x), true) : q.try_and_pop(x)) PBT_ASSERT(x && take(*x), "after %zu elements the next one is missing, repeated or out of order", got);
      PBT_ASSERT(q.empty() && q.size() == 0, "a drained queue has size %zu", q.size());
   } else {
      std::promise<void> open;
      std::shared_future<void> gate = open.get_future().share();
      long bad = -1;
      auto a = kjellkod::Active::createActive();
      a->send([gate] { gate.wait(); });
      auto* act = a.get();
      for (int p = 0; p < np; ++p)
         th.emplace_back([act, &take, &bad, p, np, m = share[size_t(p)]] {
            for (size_t i = 0; i < m; ++i) {
               long v = long(i) * np + p;
               act->send([&take, &bad, v] { if (!take(v) && bad < 0) bad = v; });
            }
         });
      for (auto& t : th) t.join();
      open.set_value();
      a.reset();
      PBT_ASSERT(bad < 0, "task %ld of thread %ld is repeated or out of order, or tasks before it were lost", bad / np, bad % np);
   }
   PBT_ASSERT(got == share[0] * size_t(np), "%zu of %zu were delivered", got, share[0] * size_t(np));
   pbt::nontrivial();
   pbt::label("backlogs of more than 1000");
}
}  // namespace
void pbt_init() {}
void pbt_case(pbt::Source& s) {
   if (!sched::kActive && s.chance(1, 120)) {
      huge_case(s);
      return;
   }
   switch (s.below(12)) {
   case 0:
   case 1: queue_case<int>(s); break;
   case 2:
   case 3: queue_case<Elem>(s); break;
   case 4: queue_case<std::shared_ptr<Elem>>(s); break;
   case 11: null_case(s); break;
   default: active_case(s);
   }
   if (sched::kActive) sched::label_stats();
}
