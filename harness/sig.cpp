// Signal dispositions under sequences of install / override / restore operations (P12), against a model of the disposition
// of every signal.  Each case runs in a child process; all dispositions are queried after every step.
#include <g3log/crashhandler.hpp>
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>

#include <errno.h>
#include <signal.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include <functional>
#include <map>
#include <memory>

#include "pbt.hpp"
using std::string;
using std::vector;

const char* pbt_rule = "a generated sequence of program dispositions, installCrashHandler, initializeLogging, overrideSetupSignals, restoreSignalHandler and restore-default operations; non-trivial: >=2 g3log operations and a program disposition on a signal that g3log takes over";
int pbt_default_batch = 40;
double pbt_hang_s = 40;
bool pbt_hang_is_violation = true;

namespace {
const std::map<int, string> kDefault = {{SIGABRT, "SIGABRT"}, {SIGFPE, "SIGFPE"}, {SIGILL, "SIGILL"}, {SIGSEGV, "SIGSEGV"}, {SIGTERM, "SIGTERM"}};
bool catchable(int s) { return s >= 1 && s <= 64 && s != SIGKILL && s != SIGSTOP && s != 32 && s != 33; }

struct Out {  // written by the child
   volatile int ran_handler, ran_sig, ran_fatal, fatal_sig, step;
};
Out* O;
void own0(int s) {
   O->ran_handler = 1;
   O->ran_sig = s;
}
void own1(int s) {
   O->ran_handler = 2;
   O->ran_sig = s;
}
void own2(int s, siginfo_t*, void*) {
   O->ran_handler = 3;
   O->ran_sig = s;
}
struct Disp {
   int kind = 0;  // 0 default, 1 ignored, 2 own0, 3 own1, 4 own2 (SA_SIGINFO), 5 g3log's
   int flags = 0;
   uint64_t mask = 0;
};
const char* kKind[] = {"default", "ignored", "handler A", "handler B", "SA_SIGINFO handler C", "g3log's"};
string show(const Disp& d) {
   char b[100];
   snprintf(b, sizeof b, "%s flags %x mask %llx", kKind[d.kind], unsigned(d.flags), (unsigned long long)d.mask);
   return d.kind == 5 ? kKind[5] : b;
}
uint64_t to_bits(const sigset_t& m) {
   uint64_t r = 0;
   for (int i = 1; i <= 64; ++i)
      if (i != 32 && i != 33 && sigismember(&m, i) == 1) r |= 1ull << (i - 1);
   return r;
}
Disp query(int s) {
   struct sigaction a;
   memset(&a, 0, sizeof a);
   Disp d;
   if (sigaction(s, nullptr, &a)) pbt::inconclusive("sigaction");
   d.flags = a.sa_flags & ~0x04000000;  // SA_RESTORER is the C library's
   d.mask = to_bits(a.sa_mask);
   if (a.sa_flags & SA_SIGINFO) d.kind = a.sa_sigaction == own2 ? 4 : 5;
   else d.kind = a.sa_handler == SIG_DFL ? 0 : a.sa_handler == SIG_IGN ? 1 : a.sa_handler == own0 ? 2 : a.sa_handler == own1 ? 3 : 5;
   return d;
}
void apply(int s, const Disp& d) {
   struct sigaction a;
   memset(&a, 0, sizeof a);
   a.sa_flags = d.flags;
   for (int i = 1; i <= 64; ++i)
      if (d.mask >> (i - 1) & 1) sigaddset(&a.sa_mask, i);
   if (d.kind == 4) a.sa_sigaction = own2;
   else a.sa_handler = d.kind == 0 ? SIG_DFL : d.kind == 1 ? SIG_IGN : d.kind == 2 ? own0 : own1;
   if (sigaction(s, &a, nullptr)) pbt::inconclusive("sigaction set");
}
Disp gen_disp(pbt::Source& s) {
   Disp d;
   d.kind = int(s.below(5));
   if (d.kind == 4) d.flags |= SA_SIGINFO;
   if (d.kind >= 2) {
      if (s.boolean()) d.flags |= SA_RESTART;
      if (s.chance(1, 4)) d.flags |= SA_NODEFER;
      if (s.chance(1, 6)) d.flags |= SA_RESETHAND;
      if (s.chance(1, 6)) d.flags |= SA_ONSTACK;
      if (s.boolean())
         for (int i = 0; i < 3; ++i) {
            int x = int(1 + s.below(64));
            if (catchable(x)) d.mask |= 1ull << (x - 1);
         }
   }
   return d;
}
int gen_sig(pbt::Source& s) {
   static const vector<int> def = {SIGABRT, SIGFPE, SIGILL, SIGSEGV, SIGTERM};
   static const vector<int> common = {SIGUSR1, SIGINT, SIGQUIT, SIGHUP, SIGBUS, SIGPIPE, SIGCHLD, SIGWINCH, SIGXCPU, SIGSYS, SIGTRAP};
   switch (s.below(4)) {
   case 0:
   case 1: return s.pick(def);
   case 2: return s.pick(common);
   default: {
      int x = int(1 + s.below(64));
      return catchable(x) ? x : SIGUSR2;
   }
   }
}
std::map<int, string> gen_set(pbt::Source& s) {
   std::map<int, string> m;
   size_t n = s.size(8);
   for (size_t i = 0; i < n; ++i) {
      int x = gen_sig(s);
      m[x] = s.boolean() ? "name of " + std::to_string(x) : "";
   }
   return m;
}
}  // namespace
void pbt_init() { O = reinterpret_cast<Out*>(pbt::shm->user); }

void pbt_case(pbt::Source& s) {
   memset((void*)O, 0, sizeof *O);
#ifdef DISABLE_FATAL_SIGNALHANDLING
   const bool disabled = true;
#else
   const bool disabled = false;
#endif
   struct Op {
      int k, sig;
      Disp d;
      std::map<int, string> set;
   };
   vector<Op> ops;
   string txt;
   // model
   Disp cur[65], saved[65];
   bool ours[65] = {};
   std::map<int, string> active = kDefault;
   bool inited = false;
   int lib_ops = 0;
   bool custom_taken = false;
   vector<std::pair<int, Disp>> start;
   vector<vector<std::pair<Disp, bool>>> expect;  // after each op: dispositions
   auto take = [&](int x) {
      if (disabled || ours[x]) return;
      saved[x] = cur[x];
      if (cur[x].kind) custom_taken = true;
      cur[x] = Disp{5, 0, 0};
      ours[x] = true;
   };
   auto give = [&](int x) {
      if (!ours[x]) return;
      cur[x] = saved[x];
      ours[x] = false;
   };
   auto install = [&] {
      for (auto& p : active) take(p.first);
   };
   auto override_ = [&](const std::map<int, string>& m) {
      for (auto& p : active) give(p.first);
      active = m;
      install();
   };
   size_t n = 1 + s.size(14);
   for (size_t i = 0; i < n; ++i) {
      Op o{};
      o.k = int(s.below(8));
      switch (o.k) {
      case 0:
      case 1:
         o.k = 0;
         o.sig = gen_sig(s);
         o.d = gen_disp(s);
         if (ours[o.sig]) {
            o.k = 3;  // the program does not touch a signal g3log handles; restore it instead
            give(o.sig);
            txt += " restore(" + std::to_string(o.sig) + ")";
            ++lib_ops;
            break;
         }
         cur[o.sig] = o.d;
         txt += " program sets " + std::to_string(o.sig) + "=" + show(o.d) + ";";
         break;
      case 2:
         install();
         txt += " install";
         ++lib_ops;
         break;
      case 3:
         o.sig = gen_sig(s);
         give(o.sig);
         txt += " restore(" + std::to_string(o.sig) + ")";
         ++lib_ops;
         break;
      case 4:
      case 5:
         o.k = 4;
         o.set = gen_set(s);
         override_(o.set);
         txt += " override{";
         for (auto& p : o.set) txt += " " + std::to_string(p.first);
         txt += " }";
         ++lib_ops;
         break;
      case 6:
         override_(kDefault);
         txt += " restoreDefault";
         ++lib_ops;
         break;
      default:
         if (!inited) install();
         inited = true;
         txt += " initialize";
         ++lib_ops;
      }
      vector<std::pair<Disp, bool>> e(65);
      for (int x = 1; x <= 64; ++x) e[size_t(x)] = {cur[x], ours[x]};
      expect.push_back(e);
      ops.push_back(o);
   }
   int fin = s.boolean() ? gen_sig(s) : 0;
   // a program handler may only be raised into if nothing stops the process meanwhile
   if (fin == SIGTSTP || fin == SIGTTIN || fin == SIGTTOU || fin == SIGCONT) fin = 0;
   if (fin) txt += " raise(" + std::to_string(fin) + ")";
   pbt::describe("%s\n", txt.c_str());

   pid_t pid = fork();
   if (pid == 0) {
      for (int x = 1; x <= 64; ++x)
         if (catchable(x)) apply(x, Disp{});
      sigset_t none;
      sigemptyset(&none);
      sigprocmask(SIG_SETMASK, &none, nullptr);
      std::unique_ptr<g3::LogWorker> worker;
      g3::setFatalExitHandler([](g3::FatalMessagePtr m) {
         O->ran_fatal = O->ran_fatal + 1;
         O->fatal_sig = int(m.get()->_signal_id);
      });
      for (size_t i = 0; i < ops.size(); ++i) {
         auto& o = ops[i];
         O->step = int(i);
         switch (o.k) {
         case 0: apply(o.sig, o.d); break;
         case 2: g3::installCrashHandler(); break;
         case 3: g3::restoreSignalHandler(o.sig); break;
         case 4: g3::overrideSetupSignals(o.set); break;
         case 6: g3::internal::restoreFatalHandlingToDefault(); break;
         default:
            worker.reset();
            worker = g3::LogWorker::createLogWorker();
            g3::initializeLogging(worker.get());
         }
         for (int x = 1; x <= 64; ++x) {
            if (!catchable(x)) continue;
            Disp q = query(x);
            const Disp& w = expect[i][size_t(x)].first;
            bool same = w.kind == 5 ? q.kind == 5 : q.kind == w.kind && q.flags == w.flags && q.mask == w.mask;
            PBT_ASSERT(same, "after step %zu: the disposition of signal %d is %s, expected %s", i + 1, x, show(q).c_str(), show(w).c_str());
         }
      }
      if (fin) raise(fin);
      _exit(55);
   }
   int st = 0;
   double waited = 0;
   for (useconds_t nap = 30;; nap = nap < 2000 ? nap * 2 : nap) {
      if (waitpid(pid, &st, WNOHANG) == pid) break;
      usleep(nap);
      pbt::beat();
      waited += nap * 1e-6;
      if (waited > 20) {
         kill(pid, SIGKILL);
         waitpid(pid, &st, 0);
         PBT_ASSERT(false, "hang at step %d", O->step + 1);
      }
   }
   if (pbt::shm->failed || pbt::shm->inconclusive) _exit(77);
   if (fin) {
      const Disp& d = cur[fin];
      string what = "raise(" + std::to_string(fin) + ") with disposition " + show(d);
      if (d.kind == 0) {
         bool ignored = fin == SIGCHLD || fin == SIGURG || fin == SIGWINCH;
         if (ignored) PBT_ASSERT(WIFEXITED(st) && WEXITSTATUS(st) == 55, "%s: the process did not survive (status %x)", what.c_str(), st);
         else PBT_ASSERT(WIFSIGNALED(st) && WTERMSIG(st) == fin, "%s: the process did not die by it (status %x)", what.c_str(), st);
         PBT_ASSERT(!O->ran_fatal && !O->ran_handler, "%s: handled all the same", what.c_str());
      } else {
         PBT_ASSERT(WIFEXITED(st) && WEXITSTATUS(st) == 55, "%s: the process did not survive (status %x)", what.c_str(), st);
         PBT_ASSERT(O->ran_handler == (d.kind >= 2 && d.kind <= 4 ? d.kind - 1 : 0), "%s: handler %d ran", what.c_str(), O->ran_handler);
         PBT_ASSERT(O->ran_fatal == (d.kind == 5), "%s: %d fatal events", what.c_str(), O->ran_fatal);
         if (d.kind == 5) PBT_ASSERT(O->fatal_sig == fin, "%s: the fatal event has signal %d", what.c_str(), O->fatal_sig);
      }
      pbt::label(d.kind == 5 ? "a handled signal was raised" : "another signal was raised");
   } else
      PBT_ASSERT(WIFEXITED(st) && WEXITSTATUS(st) == 55, "the process died at step %d (status %x)", O->step + 1, st);
   if (lib_ops >= 2 && (custom_taken || disabled)) pbt::nontrivial();
   if (inited) pbt::label("with initializeLogging");
}
