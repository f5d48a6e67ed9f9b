PROP="P15"
EDITS=[("src/filesink.cpp","""      _write_buffer.append(data);
      if""","""      if (data.size() > 65536) {
         filestream() << data << std::flush;  // too big to be copied around
         return;
      }
      _write_buffer.append(data);
      if""")]
NEEDS="A flush interval above 1 and an entry of more than 64 KiB that follows smaller entries still in the buffer."
BREAKS="The big entry lands in the file before entries that were delivered before it."
DEMO=r'''
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <g3log/filesink.hpp>
#include <cstdio>
#include <fstream>
#include <sstream>
int main() {
   std::string file;
   {
      auto w = g3::LogWorker::createLogWorker();
      auto h = w->addSink(std::make_unique<g3::FileSink>("t", "./", "id", 10), &g3::FileSink::fileWrite);
      g3::initializeLogging(w.get());
      LOG(INFO) << "FIRST"; LOG(INFO) << "SECOND" << std::string(100000, 'x'); LOG(INFO) << "THIRD";
      file = h->call(&g3::FileSink::fileName).get();
   }
   std::ifstream in(file); std::stringstream s; s << in.rdbuf(); auto t = s.str();
   auto a = t.find("FIRST"), b = t.find("SECOND"), c = t.find("THIRD");
   printf("positions %zu %zu %zu\n", a, b, c);
   return a < b && b < c && c != t.npos ? 0 : 1;
}
'''
