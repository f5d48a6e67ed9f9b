PROP="P14"
EDITS=[("src/g3log.cpp","""         if (isLoggingInitialized() && nullptr != active && (active != g_logger_instance)) {""","""         // (the instance may be gone already when two workers are destroyed at the same time)
         static LogWorker* last_ignored = nullptr;
         if (isLoggingInitialized() && nullptr != active && (active != g_logger_instance) && active != last_ignored) {
            last_ignored = active;""")]
NEEDS="Two workers, one after the other at the same address, destroyed while a third one is the active one."
BREAKS="Destroying the second of them shuts logging down although another worker is active."
DEMO=r'''
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <atomic>
#include <cstdio>
static std::atomic<int> n{0};
struct K { void r(g3::LogMessageMover m) { if (m.get().message() == "entry") ++n; } };
int main() {
   {
      auto w = g3::LogWorker::createLogWorker();
      w->addSink(std::make_unique<K>(), &K::r);
      g3::initializeLogging(w.get());
      for (int i = 0; i < 20; ++i) {
         auto other = g3::LogWorker::createLogWorker();
         other.reset();
         LOG(INFO) << "entry";
      }
   }
   printf("%d of 20\n", n.load());
   return n == 20 ? 0 : 1;
}
'''
