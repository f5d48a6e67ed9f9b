PROP="P06"
EDITS=[("src/logcapture.cpp","""   char finished_message[kMaxMessageSize];""","""   static char finished_message[kMaxMessageSize];  // keep the frame small: this may run in a signal handler""")]
NEEDS="Two threads that format printf-style messages at the same time."
BREAKS="The text of a LOGF entry is mixed with that of another thread's entry."
DEMO=r'''
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <cstdio>
#include <thread>
static long n = 0, bad = 0;
struct S { void rec(g3::LogMessageMover m) { ++n; auto s = m.get().message(); if (s.size() != 1500 || s.find_first_not_of(s[0]) != std::string::npos) ++bad; } };
int main() {
   {
      auto w = g3::LogWorker::createLogWorker();
      w->addSink(std::make_unique<S>(), &S::rec);
      g3::initializeLogging(w.get());
      std::vector<std::thread> t;
      for (int k = 0; k < 6; ++k) t.emplace_back([k] { std::string s(1500, 'a' + k); for (int i = 0; i < 8000; ++i) LOGF(INFO, "%s", s.c_str()); });
      for (auto& x : t) x.join();
   }
   printf("%ld entries, %ld garbled\n", n, bad);
   return bad || n != 48000 ? 1 : 0;
}
'''
