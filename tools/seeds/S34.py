PROP="P03"
EDITS=[("src/g3log/logworker.hpp","""                     _impl._sinks.erase(std::remove(_impl._sinks.begin(), _impl._sinks.end(), shared_sink), _impl._sinks.end());
""","""                     // there is at most one: no need to move all the others
                     auto& sinks = _impl._sinks;
                     size_t at = 0;
                     while (at + 1 < sinks.size() && sinks[at] != shared_sink) ++at;
                     if (!sinks.empty()) {
                        std::swap(sinks[at], sinks.back());
                        sinks.pop_back();
                     }
""")]
NEEDS="removeSink for a sink that removeAllSinks has already taken out while the client still holds a shared pointer to it, with another sink added since."
BREAKS="The other sink is removed and receives nothing any more."
DEMO=r'''
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <cstdio>
static int n = 0;
struct A { void r(g3::LogMessageMover) {} };
struct B { void r(g3::LogMessageMover) { ++n; } };
int main() {
   {
      auto w = g3::LogWorker::createLogWorker();
      auto a = w->addSink(std::make_unique<A>(), &A::r);
      auto held = a->sink().lock();
      g3::initializeLogging(w.get());
      w->removeAllSinks();
      w->addSink(std::make_unique<B>(), &B::r);
      w->removeSink(std::move(a));
      for (int i = 0; i < 10; ++i) LOG(INFO) << i;
   }
   printf("%d of 10\n", n);
   return n == 10 ? 0 : 1;
}
'''
