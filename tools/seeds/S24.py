PROP="P24"
EDITS=[("src/g3log/sinkhandle.hpp","""         try {
            std::shared_ptr<internal::Sink<T>> sink(_sink);
            return sink->async(func, std::forward<Args>(args)...);
         } catch (const std::bad_weak_ptr& e) {
            typedef""","""         if (!_sink.expired()) {
            auto* sink = _sink.lock().get();
            return sink->async(func, std::forward<Args>(args)...);
         } else {
            std::bad_weak_ptr e;
            typedef""")]
NEEDS="A call through a handle on one thread at the very moment another thread removes the sink (or destroys the worker)."
BREAKS="The call no longer keeps the sink alive while it is handed over: the sink is used after it was freed."
FLAGS="-fsanitize=address"
DEMO=r'''
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
struct SlowCopy { SlowCopy() {} SlowCopy(const SlowCopy&) { std::this_thread::sleep_for(std::chrono::milliseconds(100)); } };
struct S { void rec(g3::LogMessageMover m) {} void take(SlowCopy) {} };
int main() {
   auto w = g3::LogWorker::createLogWorker();
   auto h = w->addSink(std::make_unique<S>(), &S::rec);
   g3::SinkHandle<S> other(*h);
   std::thread t([&] { SlowCopy c; try { other.call(&S::take, c).get(); } catch (const std::exception& e) { printf("%s\n", e.what()); } });
   std::this_thread::sleep_for(std::chrono::milliseconds(30));
   w->removeSink(std::move(h));
   t.join();
   printf("done\n");
   return 0;
}
'''
