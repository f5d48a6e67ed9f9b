PROP="P02"
EDITS=[("src/logworker.cpp","""      _impl._bg->send([this, msg] { _impl.bgSave(msg); });
""","""      // with a single sink there is nothing to distribute: hand the entry straight to it
      if (_impl._sinks.size() == 1) {
         _impl._sinks.front()->send(LogMessageMover(LogMessage(*(msg._move_only))));
         return;
      }
      _impl._bg->send([this, msg] { _impl.bgSave(msg); });
""")]
NEEDS="Two sinks, one of which is removed by one thread while another thread logs: entries still queued at the worker are overtaken by later ones that take the shortcut."
BREAKS="Entries of one thread reach the remaining sink in an order different from the order of the log calls."
DEMO=r'''
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
static long last = -1, bad = 0;
struct Keep { void rec(g3::LogMessageMover m) { long v = std::stol(m.get().message()); if (v < last) ++bad; last = v; } };
struct Slow { int n = 0; void rec(g3::LogMessageMover m) { if (n++ < 20) std::this_thread::sleep_for(std::chrono::milliseconds(5)); } };
int main() {
   std::atomic<bool> stop{false};
   auto w = g3::LogWorker::createLogWorker();
   w->addSink(std::make_unique<Keep>(), &Keep::rec);
   auto h = w->addSink(std::make_unique<Slow>(), &Slow::rec);
   g3::initializeLogging(w.get());
   std::thread t([&] { for (long i = 0; i < 2000000 && !stop; ++i) LOG(INFO) << i; });
   std::this_thread::sleep_for(std::chrono::milliseconds(250));
   w->removeSink(std::move(h));
   std::this_thread::sleep_for(std::chrono::milliseconds(50));
   stop = true; t.join(); w.reset();
   printf("last %ld, %ld out of order\n", last, bad);
   return bad ? 1 : 0;
}
'''
