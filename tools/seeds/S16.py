PROP="P16"
EDITS=[("src/filesink.cpp","""      _log_file_with_path = std::move(prospect_log);
""","""      _log_file_with_path = std::move(prospect_log);
      _write_counter = 0;
""".replace("prospect_log);","prospect_log);  // and start counting anew"))]
NEEDS="A flush interval above 2 and a change of the log file while entries are buffered."
BREAKS="Entries buffered before the change do not count any more: the file lags by up to twice the interval."
DEMO=r'''
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <g3log/filesink.hpp>
#include <cstdio>
#include <thread>
#include <fstream>
#include <sstream>
int main() {
   auto w = g3::LogWorker::createLogWorker();
   auto h = w->addSink(std::make_unique<g3::FileSink>("t", "./", "id", 10), &g3::FileSink::fileWrite);
   g3::initializeLogging(w.get());
   for (int i = 0; i < 9; ++i) LOG(INFO) << "ENTRY" << i << ".";
   std::this_thread::sleep_for(std::chrono::milliseconds(300));
   std::string f = h->call(&g3::FileSink::changeLogFile, std::string("./"), std::string("other")).get();
   for (int i = 9; i < 15; ++i) LOG(INFO) << "ENTRY" << i << ".";
   std::this_thread::sleep_for(std::chrono::milliseconds(300));
   h->call(&g3::FileSink::fileName).get();
   std::ifstream in(f); std::stringstream s; s << in.rdbuf(); auto t = s.str();
   int n = 0; while (n < 15 && t.find("ENTRY" + std::to_string(n) + ".") != t.npos) ++n;
   printf("%d of 15 entries in the file, interval 10\n", n);
   return n >= 15 - 9 ? 0 : 1;
}
'''
