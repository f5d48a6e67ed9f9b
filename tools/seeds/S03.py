PROP="P03"
EDITS=[("src/g3log/logworker.hpp","""               auto token_done = g3::spawn_task(bg_removesink_call, _impl._bg.get());
               token_done.wait();""","""               auto token_done = g3::spawn_task(bg_removesink_call, _impl._bg.get());
               token_done.wait_for(std::chrono::seconds(3));  // do not hang on a sink that is stuck""")]
NEEDS="A sink that needs more than three seconds to work off its pending entries when it is removed."
BREAKS="removeSink returns while the sink is alive and still receives entries: it is neither flushed nor destroyed when the call returns."
DEMO=r'''
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
static std::atomic<int> received{0}, destroyed{0};
struct Slow { ~Slow() { ++destroyed; } void rec(g3::LogMessageMover) { std::this_thread::sleep_for(std::chrono::milliseconds(1500)); ++received; } };
int main() {
   auto w = g3::LogWorker::createLogWorker();
   auto h = w->addSink(std::make_unique<Slow>(), &Slow::rec);
   g3::initializeLogging(w.get());
   for (int i = 0; i < 4; ++i) LOG(INFO) << i;
   w->removeSink(std::move(h));
   int r = received, d = destroyed;
   printf("when removeSink returned: received %d of 4, destroyed %d\n", r, d);
   return r == 4 && d == 1 ? 0 : 1;
}
'''
