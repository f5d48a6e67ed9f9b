PROP="P10"
EDITS=[("src/logworker.cpp","""      flushSinks();
      _sinks.clear();  // flush all queues
""","""      // flush all queues, but a sink that is stuck must not keep the process alive
      std::thread flush([this] { flushSinks(); _sinks.clear(); _flushed = true; });
      for (int tenths = 0; tenths < 40 && !_flushed; ++tenths) {
         std::this_thread::sleep_for(std::chrono::milliseconds(100));
      }
      flush.detach();
"""),("src/logworker.cpp","#include <iostream>\n","#include <atomic>\n#include <chrono>\n#include <iostream>\n#include <thread>\n"),
("src/logworker.cpp","""   LogWorkerImpl::LogWorkerImpl() :""","""   static std::atomic<bool> _flushed{false};

   LogWorkerImpl::LogWorkerImpl() :""")]
NEEDS="A fatal event while a sink needs more than four seconds for its pending entries."
BREAKS="The process dies before the slow sink has received everything logged before the fatal event."
DEMO=r'''
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <sys/wait.h>
#include <unistd.h>
#include <chrono>
#include <cstdio>
#include <thread>
static int fd[2];
struct Slow { void rec(g3::LogMessageMover) { std::this_thread::sleep_for(std::chrono::milliseconds(1000)); write(fd[1], "x", 1); } };
int main() {
   pipe(fd);
   pid_t p = fork();
   if (!p) {
      auto w = g3::LogWorker::createLogWorker();
      w->addSink(std::make_unique<Slow>(), &Slow::rec);
      g3::initializeLogging(w.get());
      for (int i = 0; i < 7; ++i) LOG(INFO) << i;
      LOG(FATAL) << "end";
      _exit(0);
   }
   close(fd[1]);
   int n = 0, st = 0; char c;
   while (read(fd[0], &c, 1) == 1) ++n;
   waitpid(p, &st, 0);
   printf("received %d of 8, signal %d\n", n, WIFSIGNALED(st) ? WTERMSIG(st) : 0);
   return n == 8 && WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT ? 0 : 1;
}
'''
