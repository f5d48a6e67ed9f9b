PROP="P04"
EDITS=[("src/g3log/sink.hpp","""            return g3::spawn_task(std::bind(call, _real_sink.get(), std::forward<Args>(args)...), _bg.get());""","""            // arguments that are lvalues need not be copied
            return g3::spawn_task([call, sink = _real_sink.get(), bound = std::tuple<Args...>(std::forward<Args>(args)...)]() mutable {
               return std::apply([&](auto&... a) { return std::invoke(call, sink, a...); }, bound);
            },
                                  _bg.get());"""),
("src/g3log/sink.hpp","""#include <functional>
#include <memory>""","""#include <functional>
#include <tuple>
#include <memory>""")]
NEEDS="A handle call with a variable as argument that the caller changes (or destroys) before the sink's thread comes to the call."
BREAKS="The call runs with the changed argument instead of the given one."
DEMO=r'''
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <cstdio>
#include <chrono>
#include <thread>
struct K {
   void r(g3::LogMessageMover) {}
   void wait() { std::this_thread::sleep_for(std::chrono::milliseconds(300)); }
   std::string got;
   void set(const std::string& s) { got = s; }
   std::string get() { return got; }
};
int main() {
   auto w = g3::LogWorker::createLogWorker();
   auto h = w->addSink(std::make_unique<K>(), &K::r);
   h->call(&K::wait);
   std::string arg = "the first value";
   h->call(&K::set, arg);
   arg = "something else";
   std::string got = h->call(&K::get).get();
   printf("%s\n", got.c_str());
   return got == "the first value" ? 0 : 1;
}
'''
