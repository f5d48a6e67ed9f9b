PROP="P06"
EDITS=[("src/logcapture.cpp","""   va_list arglist;
   va_start(arglist, printf_like_message);
""","""   if (nullptr == std::strchr(printf_like_message, '%')) {
      stream() << printf_like_message;  // nothing to format
      return;
   }

   va_list arglist;
   va_start(arglist, printf_like_message);
"""),
("src/logcapture.cpp","""#include "g3log/logcapture.hpp"
""","""#include "g3log/logcapture.hpp"
#include <cstring>
""")]
NEEDS="A format string without any conversion that is longer than the maximum message size."
BREAKS="The text is neither cut to the maximum size nor marked."
DEMO=r'''
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <cstdio>
static std::string got;
struct K { void r(g3::LogMessageMover m) { got = m.get().message(); } };
int main() {
   std::string fmt(3000, 'a');
   {
      auto w = g3::LogWorker::createLogWorker();
      w->addSink(std::make_unique<K>(), &K::r);
      g3::initializeLogging(w.get());
      LOGF(INFO, fmt.c_str());
   }
   printf("%zu\n", got.size());
   return got == std::string(2047, 'a') + "[...truncated...]" ? 0 : 1;
}
'''
