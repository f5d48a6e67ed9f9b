PROP="P20"
EDITS=[("src/g3log/shared_queue.hpp","""      {
         std::lock_guard<std::mutex> lock(m_);
         queue_.push(std::move(item));
      }
      data_cond_.notify_one();
""","""      bool was_empty;
      {
         std::lock_guard<std::mutex> lock(m_);
         was_empty = queue_.empty();
         queue_.push(std::move(item));
      }
      if (was_empty) {  // otherwise the consumers are awake anyhow
         data_cond_.notify_one();
      }
""")]
NEEDS="Two consumers waiting and two elements pushed before the first consumer has woken up."
BREAKS="One consumer keeps sleeping while an element is in the queue."
DEMO=r'''
#include <g3log/shared_queue.hpp>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
#include <unistd.h>
int main() {
   for (int round = 0; round < 300; ++round) {
      shared_queue<int> q;
      std::atomic<int> got{0};
      auto take = [&] { int x; q.wait_and_pop(x); ++got; };
      std::thread a(take), b(take);
      std::this_thread::sleep_for(std::chrono::milliseconds(5));
      q.push(1);
      q.push(2);
      for (int i = 0; i < 400 && got < 2; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(5));
      if (got < 2) {
         printf("round %d: a consumer sleeps, %u element(s) in the queue\n", round, q.size());
         fflush(stdout);
         _exit(1);
      }
      a.join();
      b.join();
   }
   printf("fine\n");
   return 0;
}
'''
