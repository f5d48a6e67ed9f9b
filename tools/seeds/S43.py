PROP = 'P11'
EDITS = [('src/crashhandler_unix.cpp', '         for (const auto& sig : gSignals) {\n            restoreSignalHandler(sig.first);\n         }\n\n         std::cerr', '         restoreSignalHandler(signal_number);\n\n         std::cerr')]
NEEDS = "A fatal signal, and an own handler of it, which g3log restores and raises, that ends the process by another signal that g3log handled as well."
BREAKS = "That other signal still goes to g3log, which waits for the first one to end the process: the process hangs."
DEMO = r'''
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <cstdio>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
struct Sink { void recv(g3::LogMessageMover) {} };
static void own(int) {  // flush something of its own, then end as a terminated program
   sigset_t m;
   sigemptyset(&m);
   sigaddset(&m, SIGTERM);
   pthread_sigmask(SIG_UNBLOCK, &m, nullptr);
   raise(SIGTERM);
   _exit(7);
}
int main() {
   pid_t p = fork();
   if (p == 0) {
      signal(SIGFPE, own);
      auto w = g3::LogWorker::createLogWorker();
      w->addSink(std::make_unique<Sink>(), &Sink::recv);
      g3::initializeLogging(w.get());
      LOG(INFO) << "x";
      raise(SIGFPE);
      _exit(90);
   }
   int st = 0;
   for (int i = 0; i < 300; ++i) {
      if (waitpid(p, &st, WNOHANG) == p) {
         bool ok = WIFSIGNALED(st) && WTERMSIG(st) == SIGTERM;
         printf("the process ended with %s %d, expected signal %d\n", WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), SIGTERM);
         return ok ? 0 : 1;
      }
      usleep(50000);
   }
   kill(p, SIGKILL);
   waitpid(p, &st, 0);
   printf("the process hangs\n");
   return 1;
}
'''
