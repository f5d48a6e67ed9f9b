PROP="P11"
EDITS=[("src/crashhandler_unix.cpp","""         for (const auto& sig : gSignals) {
            restoreSignalHandler(sig.first);
         }

         std::cerr""","""         for (const auto& sig : kSignals) {
            restoreSignalHandler(sig.first);
         }

         std::cerr""")]
NEEDS="A signal set chosen with overrideSetupSignals that has a signal outside the default set, and a fatal event by that signal."
BREAKS="The original disposition of the chosen signal is not restored, so the process does not end by it."
TIMEOUT=60
DEMO=r'''
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
#include <cstdio>
int main() {
   int bad = 0;
   for (int sig : {SIGSEGV, SIGUSR1, SIGBUS}) {
      pid_t p = fork();
      if (!p) {
         rlimit none{0, 0}; setrlimit(RLIMIT_CORE, &none);
         alarm(8);
         auto w = g3::LogWorker::createLogWorker();
         g3::initializeLogging(w.get());
         g3::overrideSetupSignals({{SIGSEGV, "SIGSEGV"}, {SIGUSR1, "SIGUSR1"}, {SIGBUS, "SIGBUS"}});
         raise(sig);
         _exit(0);
      }
      int st = 0; waitpid(p, &st, 0);
      printf("signal %d: ended %s %d\n", sig, WIFSIGNALED(st) ? "by signal" : "with status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
      if (!WIFSIGNALED(st) || WTERMSIG(st) != sig) ++bad;
   }
   return bad ? 1 : 0;
}
'''
