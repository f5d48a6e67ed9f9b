PROP="P13"
EDITS=[("src/g3log.cpp","""      // recursive crash counter re-set to zero
      g_fatal_hook_recursive_counter.store(0);
""","""      // recursive crash counter re-set to zero
      if (g_fatal_hook_recursive_counter.load() > 1) {
         g_fatal_hook_recursive_counter.store(0);
      }
""")]
NEEDS="A fatal event taken by a custom exit handler, then a new worker with initializeLogging, then another fatal event."
BREAKS="The first fatal event of the new worker's life claims to be a recursive crash."
DEMO=r'''
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <cstdio>
#include <string>
static std::string last;
static int life() {
   auto w = g3::LogWorker::createLogWorker();
   g3::initializeLogging(w.get());
   LOG(FATAL) << "fatal";
   return last.find("recursive crash") == std::string::npos ? 0 : 1;
}
int main() {
   g3::setFatalExitHandler([](g3::FatalMessagePtr m) { last = m.get()->toString(); });
   int a = life(), b = life();
   printf("%d %d\n", a, b);
   return a + b;
}
'''
