PROP="P05"
EDITS=[("src/logmessage.cpp","""       _file(LogMessage::splitFileName(file))
""","""       _file(cachedFileName(file))
"""),
("src/logmessage.cpp","""   // helper for fatal signal
   std::string LogMessage::fatalSignalToString(""","""   // splitting the path is expensive: remember the last one of each thread
   static std::string cachedFileName(const std::string& path) {
      static thread_local std::string last_path, last_name;
      if (path.size() != last_path.size() || path.compare(path.size() / 2, std::string::npos, last_path, path.size() / 2, std::string::npos) != 0) {
         last_path = path;
         last_name = LogMessage::splitFileName(path);
      }
      return last_name;
   }

   // helper for fatal signal
   std::string LogMessage::fatalSignalToString(""")]
NEEDS="Two source files with paths of the same length and the same second half, logging one after the other from one thread, the first half holding the last slash."
BREAKS="The entry of the second file carries the first file's name."
DEMO=r'''
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <cstdio>
#include <vector>
static std::vector<std::string> files;
struct K { void r(g3::LogMessageMover m) { files.push_back(m.get().file()); } };
int main() {
   {
      auto w = g3::LogWorker::createLogWorker();
      w->addSink(std::make_unique<K>(), &K::r);
      g3::initializeLogging(w.get());
      LogCapture("/src/aaa_reader_implementation.cpp", 1, "f", INFO).stream() << "one";
      LogCapture("/src/bbb_reader_implementation.cpp", 1, "f", INFO).stream() << "two";
   }
   printf("%s %s\n", files[0].c_str(), files[1].c_str());
   return files[0] == "aaa_reader_implementation.cpp" && files[1] == "bbb_reader_implementation.cpp" ? 0 : 1;
}
'''
