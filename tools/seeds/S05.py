PROP="P05"
EDITS=[("src/g3log.cpp","""         message.get()->write().append(entry);
""","""         std::string& text = message.get()->write();
         text.append(entry);
         // every entry is followed by a line break anyhow: no empty lines in the log
         while (!text.empty() && text.back() == '\\n') {
            text.pop_back();
         }
""")]
NEEDS="A message that ends with a line break."
BREAKS="The delivered message text is not the text that was streamed: trailing line breaks are lost."
DEMO=r'''
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <cstdio>
static std::vector<std::string> got;
struct S { void rec(g3::LogMessageMover m) { got.push_back(m.get().message()); } };
int main() {
   {
      auto w = g3::LogWorker::createLogWorker();
      w->addSink(std::make_unique<S>(), &S::rec);
      g3::initializeLogging(w.get());
      LOG(INFO) << "plain"; LOG(INFO) << "line\n"; LOGF(WARNING, "%s", "x\ny\n\n"); LOG(DEBUG) << "";
   }
   std::vector<std::string> want{"plain", "line\n", "x\ny\n\n", ""};
   for (auto& s : got) printf("[%s]\n", s.c_str());
   return got == want ? 0 : 1;
}
'''
