PROP="P22"
EDITS=[("src/g3log/sink.hpp","""         void send(LogMessageMover msg) override {
            _bg->send([this, msg] {
               _default_log_call(msg);
            });
         }""","""         void send(LogMessageMover msg) override {
            // at most so many entries at a time are kept for a sink
            std::unique_lock<std::mutex> lock(_room_mutex);
            _room.wait(lock, [this] { return _pending < 12000; });
            ++_pending;
            lock.unlock();
            _bg->send([this, msg] {
               {
                  std::lock_guard<std::mutex> taken(_room_mutex);
                  --_pending;
               }
               _room.notify_one();
               _default_log_call(msg);
            });
         }"""),
("src/g3log/sink.hpp","""         std::unique_ptr<kjellkod::Active> _bg;
""","""         std::mutex _room_mutex;
         std::condition_variable _room;
         size_t _pending = 0;
         std::unique_ptr<kjellkod::Active> _bg;
"""),
("src/g3log/sink.hpp","""#include <functional>
#include <memory>""","""#include <condition_variable>
#include <functional>
#include <mutex>
#include <memory>""")]
NEEDS="One sink stuck while more than 12000 entries are logged, and another sink attached."
BREAKS="The worker waits for the stuck sink: the other sink receives nothing more until it resumes."
DEMO=r'''
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
std::atomic<bool> gate{false};
std::atomic<int> n{0};
struct Stuck { void r(g3::LogMessageMover) { while (!gate) std::this_thread::sleep_for(std::chrono::milliseconds(1)); } };
struct K { void r(g3::LogMessageMover) { ++n; } };
int main() {
   auto w = g3::LogWorker::createLogWorker();
   w->addSink(std::make_unique<Stuck>(), &Stuck::r);
   w->addSink(std::make_unique<K>(), &K::r);
   g3::initializeLogging(w.get());
   for (int i = 0; i < 20000; ++i) LOG(INFO) << i;
   for (int i = 0; i < 200 && n < 20000; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(50));
   int got = n;
   gate = true;
   w.reset();
   printf("the free sink got %d of 20000 while the other one was stuck\n", got);
   return got == 20000 ? 0 : 1;
}
'''
