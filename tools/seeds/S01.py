PROP="P01"
EDITS=[("src/g3log/shared_queue.hpp","""         queue_.push(std::move(item));
      }
      data_cond_""","""         // a stuck consumer must not make the queue grow without limit
         while (queue_.size() >= 32768) {
            queue_.pop();
         }
         queue_.push(std::move(item));
      }
      data_cond_""")]
NEEDS="A sink (or the worker) that is stuck long enough for more than 32768 entries to be pending."
BREAKS="The queue silently drops its oldest pending elements, so entries accepted by log calls never reach the sink."
DEMO=r'''
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <atomic>
#include <cstdio>
#include <future>
std::promise<void> open_gate; std::shared_future<void> gate = open_gate.get_future().share();
static long received = 0, wrong = 0;
struct Slow { void rec(g3::LogMessageMover m) { if (received == 0) gate.wait(); if (std::to_string(received) != m.get().message()) ++wrong; ++received; } };
int main() {
   const long n = 60000;
   {
      auto w = g3::LogWorker::createLogWorker();
      w->addSink(std::make_unique<Slow>(), &Slow::rec);
      g3::initializeLogging(w.get());
      for (long i = 0; i < n; ++i) LOG(INFO) << i;
      open_gate.set_value();
   }
   printf("received %ld of %ld, out of place %ld\n", received, n, wrong);
   return received == n && wrong == 0 ? 0 : 1;
}
'''
