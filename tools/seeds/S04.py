PROP="P04"
EDITS=[("src/g3log/shared_queue.hpp","""   std::queue<T> queue_;
""","""   struct Items : public std::queue<T> {
      void push_front(T item) { this->c.push_front(std::move(item)); }
   } queue_;
"""),("src/g3log/shared_queue.hpp","""   /// \\return immediately, with true""","""   void push_urgent(T item) {
      {
         std::lock_guard<std::mutex> lock(m_);
         queue_.push_front(std::move(item));
      }
      data_cond_.notify_one();
   }

   /// \\return immediately, with true"""),
("src/g3log/active.hpp","""         mq_.push(msg_);
      }
""","""         mq_.push(msg_);
      }

      void sendUrgent(Callback msg_) {
         mq_.push_urgent(msg_);
      }
"""),("src/g3log/sink.hpp","""            return g3::spawn_task(std::bind(call, _real_sink.get(), std::forward<Args>(args)...), _bg.get());""",
"""            // somebody waits for the result: calls go before pending log entries
            typedef std::invoke_result_t<decltype(call), T, Args...> result_type;
            std::packaged_task<result_type()> task(std::bind(call, _real_sink.get(), std::forward<Args>(args)...));
            auto result = task.get_future();
            _bg->sendUrgent(MoveOnCopy<std::packaged_task<result_type()>>(std::move(task)));
            return result;""")]
NEEDS="A sink that is busy while one thread makes two calls through its handle without waiting for the first."
BREAKS="Pending calls of one thread run in reverse order on the real sink."
DEMO=r'''
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <chrono>
#include <cstdio>
#include <thread>
struct S { std::string seen; void rec(g3::LogMessageMover) {} void nap() { std::this_thread::sleep_for(std::chrono::milliseconds(200)); }
   void add(char c) { seen += c; } std::string get() { return seen; } };
int main() {
   auto w = g3::LogWorker::createLogWorker();
   auto h = w->addSink(std::make_unique<S>(), &S::rec);
   h->call(&S::nap);
   std::this_thread::sleep_for(std::chrono::milliseconds(50));
   auto a = h->call(&S::add, 'a'); auto b = h->call(&S::add, 'b'); auto c = h->call(&S::add, 'c');
   a.get(); b.get(); c.get();
   auto r = h->call(&S::get).get();
   printf("%s\n", r.c_str());
   return r == "abc" ? 0 : 1;
}
'''
