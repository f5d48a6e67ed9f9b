PROP="P08"
EDITS=[("src/g3log/g3log.hpp","""   if (!g3::logLevel(level) || false == (boolean_expression)) {} else INTERNAL_LOG_MESSAGE(level).capturef""","""   if (false == (boolean_expression) || !g3::logLevel(level)) {} else INTERNAL_LOG_MESSAGE(level).capturef""")]
NEEDS="A LOGF_IF at a disabled level (dynamic levels) whose condition has a side effect."
BREAKS="The condition of LOGF_IF is evaluated although the level is disabled."
DEFS=["#define G3LOG_DEBUG DEBUG","#define G3_DYNAMIC_LOGGING"]
DEMO=r'''
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <cstdio>
static int evaluated = 0;
static bool cond() { ++evaluated; return true; }
int main() {
   auto w = g3::LogWorker::createLogWorker();
   g3::initializeLogging(w.get());
   g3::log_levels::disable(INFO);
   LOG_IF(INFO, cond()) << "x"; LOGF_IF(INFO, cond(), "%d", 1);
   printf("evaluated %d times at a disabled level\n", evaluated);
   int at_disabled = evaluated;
   g3::log_levels::enable(INFO);
   LOGF_IF(INFO, cond(), "%d", 1);
   return at_disabled == 0 && evaluated == 1 ? 0 : 1;
}
'''
