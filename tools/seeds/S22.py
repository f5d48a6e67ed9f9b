PROP="P22"
EDITS=[("src/g3log/active.hpp","""         mq_.push(msg_);
      }
""","""         mq_.push(msg_);
      }

      unsigned pending() const {
         return mq_.size();
      }
"""),("src/g3log/sink.hpp","""         void send(LogMessageMover msg) override {
""","""         void send(LogMessageMover msg) override {
            // back-pressure: let a slow sink catch up instead of piling up entries
            while (_bg->pending() >= 20000) {
               std::this_thread::sleep_for(std::chrono::milliseconds(1));
            }
""")]
NEEDS="A sink that is blocked until 20000 entries are pending for it."
BREAKS="The worker waits for the blocked sink: the other sinks get no more entries while it is blocked."
DEMO=r'''
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <future>
#include <thread>
std::promise<void> open_gate; std::shared_future<void> gate = open_gate.get_future().share();
static std::atomic<long> received{0};
struct Stuck { void rec(g3::LogMessageMover m) { gate.wait(); } };
struct Fine { void rec(g3::LogMessageMover m) { ++received; } };
int main() {
   auto w = g3::LogWorker::createLogWorker();
   w->addSink(std::make_unique<Stuck>(), &Stuck::rec);
   w->addSink(std::make_unique<Fine>(), &Fine::rec);
   g3::initializeLogging(w.get());
   for (long i = 0; i < 40000; ++i) LOG(INFO) << i;
   long last = -1;
   for (int quiet = 0; quiet < 30 && received < 40000;) { long r = received; if (r == last) ++quiet; else quiet = 0; last = r; std::this_thread::sleep_for(std::chrono::milliseconds(100)); }
   long r = received;
   open_gate.set_value();
   printf("%ld of 40000 received by the other sink\n", r);
   return r == 40000 ? 0 : 1;
}
'''
