PROP="P13"
EDITS=[("src/g3log.cpp","""         fatalhook();
         message""","""         if (g_fatal_hook_recursive_counter.load() == 1) {  // not again in a recursive crash
            fatalhook();
         }
         message""")]
NEEDS="A custom exit handler that keeps the process alive, a hook that is set again after a first fatal event, and a second fatal event."
BREAKS="The hook set at that time is not run for the second fatal event."
DEMO=r'''
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <cstdio>
#include <stdexcept>
int main() {
   int hooks = 0, fatals = 0;
   auto w = g3::LogWorker::createLogWorker();
   g3::initializeLogging(w.get());
   g3::setFatalExitHandler([&](g3::FatalMessagePtr) { ++fatals; });
   for (int i = 0; i < 3; ++i) {
      g3::setFatalPreLoggingHook([&] { ++hooks; });
      LOG(FATAL) << "event " << i;
   }
   printf("%d fatal events, hook ran %d times\n", fatals, hooks);
   return fatals == 3 && hooks == 3 ? 0 : 1;
}
'''
