PROP="P10"
EDITS=[("src/logworker.cpp","""      flushSinks();
      _sinks.clear();  // flush all queues
""","""      // flush all queues. Sinks that hang must not keep the process alive for ever
      auto flushed = std::async(std::launch::async, [this] { flushSinks(); _sinks.clear(); });
      if (flushed.wait_for(std::chrono::seconds(5)) != std::future_status::ready) {
         std::cerr << "g3log: a sink does not finish, giving up on it" << std::endl;
      }
""")]
NEEDS="A sink that needs more than five seconds for the entries it still has when the fatal event comes."
BREAKS="The process dies before that sink has received its entries and the fatal entry."
DEMO=r'''
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <cstdio>
#include <chrono>
#include <thread>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
static int* n;
struct K { void r(g3::LogMessageMover) { std::this_thread::sleep_for(std::chrono::milliseconds(700)); ++*n; } };
int main() {
   n = (int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   if (fork() == 0) {
      auto w = g3::LogWorker::createLogWorker();
      w->addSink(std::make_unique<K>(), &K::r);
      g3::initializeLogging(w.get());
      for (int i = 0; i < 9; ++i) LOG(INFO) << i;
      LOG(FATAL) << "the end";
   }
   int st;
   wait(&st);
   printf("%d of 10\n", *n);
   return *n == 10 ? 0 : 1;
}
'''
