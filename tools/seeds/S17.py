PROP="P17"
EDITS=[("src/filesink.cpp","""      addLogFileHeader();
      std::ostringstream ss_change;""","""      addLogFileHeader();
      filestream() << _write_buffer;  // what is buffered belongs to the old file
      std::ostringstream ss_change;"""),
("src/filesink.cpp","""      _outptr = std::move(log_stream);
      ss""","""      if (_write_counter % _write_to_log_every_x_message == 0) _write_buffer.clear();
      _outptr = std::move(log_stream);
      ss""")]
NEEDS="A flush interval above 1 and a change of the log file while entries are buffered."
BREAKS="The buffered entries are written to the old file and once more to the new one."
DEMO=r'''
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <g3log/filesink.hpp>
#include <cstdio>
#include <thread>
#include <fstream>
#include <sstream>
static int count(const std::string& f, const std::string& what) { std::ifstream in(f); std::stringstream s; s << in.rdbuf(); auto t = s.str(); int n = 0; for (size_t p = 0; (p = t.find(what, p)) != t.npos; ++p) ++n; return n; }
int main() {
   std::string f1, f2;
   {
      auto w = g3::LogWorker::createLogWorker();
      auto h = w->addSink(std::make_unique<g3::FileSink>("t", "./", "id", 10), &g3::FileSink::fileWrite);
      g3::initializeLogging(w.get());
      f1 = h->call(&g3::FileSink::fileName).get();
      LOG(INFO) << "UNIQUE";
      std::this_thread::sleep_for(std::chrono::milliseconds(300));
      f2 = h->call(&g3::FileSink::changeLogFile, std::string("./"), std::string("other")).get();
   }
   int n = count(f1, "UNIQUE") + count(f2, "UNIQUE");
   printf("entry found %d times\n", n);
   return n == 1 ? 0 : 1;
}
'''
