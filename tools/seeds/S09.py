PROP="P09"
EDITS=[("src/loglevels.cpp","""      void addLogLevel(LEVELS level) {\n         addLogLevel(level, true);""","""      void addLogLevel(LEVELS level) {\n         internal::g_log_levels().insert({level.value, {level}});  // enabled, unless it is there already""")]
NEEDS="Adding a level with the one-argument addLogLevel that is known and disabled at that time."
BREAKS="addLogLevel(level) does not enable a level that was known and disabled."
DEFS=["#define G3LOG_DEBUG DEBUG","#define G3_DYNAMIC_LOGGING"]
DEMO=r'''
#include <g3log/g3log.hpp>
#include <cstdio>
int main() {
   const LEVELS mine{320, "MINE"}, renamed{320, "OTHER"};
   g3::only_change_at_initialization::addLogLevel(mine);
   bool a = g3::logLevel(mine);
   g3::log_levels::disable(mine);
   bool b = g3::logLevel(mine);
   g3::only_change_at_initialization::addLogLevel(renamed);
   bool c = g3::logLevel(renamed);
   auto all = g3::log_levels::getAll();
   printf("added %d, disabled %d, added again %d as %s\n", a, b, c, all[320].level.text.c_str());
   return a && !b && c && all[320].level.text == "OTHER" ? 0 : 1;
}
'''
