PROP="P20"
EDITS=[("src/g3log/active.hpp","""         mq_.push(msg_);
      }
""","""         if (std::this_thread::get_id() == thd_.get_id()) {
            msg_();  // already on the background thread
            return;
         }
         mq_.push(msg_);
      }
""")]
NEEDS="A task that sends another task to its own active object."
BREAKS="The second task runs in the middle of the first one and before tasks that were sent earlier."
DEMO=r'''
#include <g3log/active.hpp>
#include <cstdio>
#include <future>
#include <string>
int main() {
   std::string seq;
   std::promise<void> go; auto f = go.get_future().share();
   {
      auto a = kjellkod::Active::createActive();
      auto* p = a.get();
      std::promise<void> done;
      a->send([&, f] { f.wait(); seq += "1"; p->send([&] { seq += "4"; done.set_value(); }); seq += "2"; });
      a->send([&] { seq += "3"; });
      go.set_value();
      done.get_future().wait();
   }
   printf("%s\n", seq.c_str());
   return seq == "1234" ? 0 : 1;
}
'''
