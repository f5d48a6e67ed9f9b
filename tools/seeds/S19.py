PROP="P19"
EDITS=[("src/time.cpp","""      localtime_r(&ts, &tm_snapshot);  // POSIX""","""      tm_snapshot = *std::localtime(&ts);  // POSIX""")]
NEEDS="Two threads that format different instants at the same time."
BREAKS="The text of a time point can be that of another thread's time point, or a mixture of both."
DEMO=r'''
#include <g3log/time.hpp>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
#include <vector>
int main() {
   std::atomic<long> bad{0};
   std::vector<std::thread> th;
   for (int k = 0; k < 6; ++k) th.emplace_back([&, k] {
      g3::system_time_point tp{std::chrono::seconds(1000000007LL * (k + 1))};
      auto t = std::chrono::system_clock::to_time_t(tp); tm x; localtime_r(&t, &x); char b[64]; strftime(b, sizeof b, "%Y/%m/%d %H:%M:%S", &x);
      for (int i = 0; i < 60000; ++i) if (g3::localtime_formatted(tp, "%Y/%m/%d %H:%M:%S") != b) ++bad;
   });
   for (auto& t : th) t.join();
   printf("%ld wrong texts\n", bad.load());
   return bad ? 1 : 0;
}
'''
