PROP = 'P25'
EDITS = [('src/filesink.cpp', '      addLogFileHeader();\n      std::ostringstream ss_change;', '      filestream() << std::flush;\n      if (!filestream()) {  // the old file must get its end note\n         return {};\n      }\n\n      addLogFileHeader();\n      std::ostringstream ss_change;')]
NEEDS = 'A log file that could not be written (disk full), then a change to another place.'
BREAKS = 'The change is refused; nothing is ever logged again.'
DEMO = '\n#include <g3log/g3log.hpp>\n#include <g3log/logworker.hpp>\n#include <g3log/filesink.hpp>\n#include <cstdio>\n#include <signal.h>\n#include <fstream>\n#include <sstream>\n#include <sys/resource.h>\n#include <unistd.h>\n#include <sys/stat.h>\nstatic void limit(unsigned long n) { struct rlimit l; getrlimit(RLIMIT_FSIZE, &l); l.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &l); }\nstatic std::string slurp(const std::string& p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }\nstatic g3::LogMessageMover entry(int i) { g3::LogMessage m("f.cpp", i, "f", INFO); m.write().append("{{" + std::to_string(i) + "}}"); return g3::LogMessageMover(std::move(m)); }\n\nint main() {\n   signal(SIGXFSZ, SIG_IGN);\n   ::mkdir("other", 0755);\n   std::string first, second;\n   {\n      g3::FileSink sink("pre", "./", "id", 1);\n      first = sink.fileName();\n      limit(300);\n      for (int i = 0; i < 50; ++i) sink.fileWrite(entry(i));\n      limit(RLIM_INFINITY);\n      second = sink.changeLogFile("./other/", "id");\n      for (int i = 50; i < 60; ++i) sink.fileWrite(entry(i));\n   }\n   printf("changed to \'%s\'\\n", second.c_str());\n   return !second.empty() && slurp(second).find("{{55}}") != std::string::npos ? 0 : 1;\n}\n'
