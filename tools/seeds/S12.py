PROP="P12"
EDITS=[("src/crashhandler_unix.cpp","""      for (const auto& sig : gSignals) {
         restoreSignalHandler(sig.first);
      }

      gSignals = overrideSignals;""","""      // signals of both sets stay handled: no moment without a handler
      for (const auto& sig : gSignals) {
         if (overrideSignals.count(sig.first) == 0) {
            restoreSignalHandler(sig.first);
         } else if (overrideSignals.size() == gSignals.size()) {
            return;
         }
      }

      gSignals = overrideSignals;""")]
NEEDS="Overriding the set with another one of the same size that shares a signal with it."
BREAKS="The requested set is not installed: signals of the new set stay unhandled, signals of the old set stay handled."
DEMO=r'''
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <csignal>
#include <cstdio>
static bool handled(int s) { struct sigaction a; sigaction(s, nullptr, &a); return (a.sa_flags & SA_SIGINFO) && a.sa_sigaction != nullptr; }
int main() {
   g3::overrideSetupSignals({{SIGUSR1, "SIGUSR1"}, {SIGTERM, "SIGTERM"}});
   g3::overrideSetupSignals({{SIGTERM, "SIGTERM"}, {SIGUSR2, "SIGUSR2"}});
   bool u1 = handled(SIGUSR1), u2 = handled(SIGUSR2), t = handled(SIGTERM), b = handled(SIGABRT);
   printf("USR1 %d USR2 %d TERM %d ABRT %d\n", u1, u2, t, b);
   return !u1 && u2 && t && !b ? 0 : 1;
}
'''
