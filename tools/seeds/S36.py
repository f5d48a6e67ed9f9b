PROP="P12"
EDITS=[("src/crashhandler_unix.cpp","""      gSavedSigActions.erase(old_action_it);
""","""      // (kept: it may be restored again)
"""),
("src/crashhandler_unix.cpp","""      for (const auto& sig_pair : gSignals) {
         struct sigaction old_action;
         memset(&old_action, 0, sizeof(old_action));
""","""      for (const auto& sig_pair : gSignals) {
         struct sigaction old_action;
         memset(&old_action, 0, sizeof(old_action));
         if (0 == sig_pair.first) {
            continue;
         }
""")]
NEEDS="A signal restored, then given another handler by the program, then a second restore or override of the set while g3log does not handle the signal."
BREAKS="The program's newer handler is replaced by the one from before."
DEMO=r'''
#include <g3log/g3log.hpp>
#include <g3log/crashhandler.hpp>
#include <csignal>
#include <cstdio>
static void mine(int) {}
int main() {
   g3::installCrashHandler();
   g3::restoreSignalHandler(SIGTERM);
   signal(SIGTERM, mine);
   g3::restoreSignalHandler(SIGTERM);
   auto now = signal(SIGTERM, SIG_DFL);
   printf("%s\n", now == mine ? "mine" : "lost");
   return now == mine ? 0 : 1;
}
'''
