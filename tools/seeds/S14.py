PROP="P14"
EDITS=[("src/g3log.cpp","""      g_logger_instance = bgworker;
      // by default""","""      // by default"""),
("src/g3log.cpp","""      // Save the first uninitialized message, if any
      std::call_once""","""      g_logger_instance = bgworker;
      // Save the first uninitialized message, if any
      std::call_once""")]
NEEDS="An entry logged before any worker exists, and another thread that logs at the very moment the first worker is initialized."
BREAKS="The saved first uninitialized entry can be delivered after an entry of another thread instead of before all others."
TIMEOUT=200
DEMO=r'''
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <thread>
// an allocator that is slow for the initializing thread: the other threads get the chance to run at every allocation
static thread_local bool slow = false;
void* operator new(size_t n) { if (slow) std::this_thread::sleep_for(std::chrono::milliseconds(3)); if (void* p = malloc(n)) return p; throw std::bad_alloc(); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
static std::string first;
struct S { void rec(g3::LogMessageMover m) { if (first.empty()) first = m.get().message(); } };
int main() {
   int bad = 0, runs = 0;
   for (; runs < 40 && !bad; ++runs) {
      pid_t p = fork();
      if (!p) {
         close(2); open("/dev/null", O_WRONLY);
         LOG(INFO) << "early";
         auto w = g3::LogWorker::createLogWorker();
         w->addSink(std::make_unique<S>(), &S::rec);
         std::atomic<bool> up{false}, stop{false};
         std::thread t([&] { up = true; while (!stop) if (g3::internal::isLoggingInitialized()) { LOG(INFO) << "later"; break; } });
         while (!up) {}
         slow = true;
         g3::initializeLogging(w.get());
         slow = false;
         stop = true;
         t.join();
         w.reset();
         _exit(first.find("LOGGER NOT INITIALIZED") == 0 ? 0 : 1);
      }
      int st = 0; waitpid(p, &st, 0);
      if (!WIFEXITED(st) || WEXITSTATUS(st)) ++bad;
   }
   printf("%d runs, %d with the saved entry not first\n", runs, bad);
   return bad ? 1 : 0;
}
'''
