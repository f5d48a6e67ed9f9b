PROP = 'P25'
EDITS = [('src/filesink.cpp', '         filestream() << _write_buffer << std::flush;\n         _write_buffer.clear();\n      }\n   }', '         filestream() << _write_buffer << std::flush;\n         if (filestream()) {\n            _write_buffer.clear();\n         } else {\n            filestream().clear();  // tried again with the next batch, or in the next log file\n         }\n      }\n   }')]
NEEDS = 'Writing a batch of several entries fails in the middle (disk full), then a change to a log file elsewhere.'
BREAKS = 'Entries of the batch that had been written completely are written again to the new file.'
DEMO = '\n#include <g3log/g3log.hpp>\n#include <g3log/logworker.hpp>\n#include <g3log/filesink.hpp>\n#include <cstdio>\n#include <signal.h>\n#include <fstream>\n#include <sstream>\n#include <sys/resource.h>\n#include <unistd.h>\n#include <sys/stat.h>\nstatic void limit(unsigned long n) { struct rlimit l; getrlimit(RLIMIT_FSIZE, &l); l.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &l); }\nstatic std::string slurp(const std::string& p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }\nstatic g3::LogMessageMover entry(int i) { g3::LogMessage m("f.cpp", i, "f", INFO); m.write().append("{{" + std::to_string(i) + "}}"); return g3::LogMessageMover(std::move(m)); }\n\nint main() {\n   signal(SIGXFSZ, SIG_IGN);\n   ::mkdir("other", 0755);\n   std::string first, second;\n   {\n      g3::FileSink sink("pre", "./", "id", 50);\n      first = sink.fileName();\n      int i = 0;\n      for (; i < 50; ++i) sink.fileWrite(entry(i));\n      struct stat st;\n      stat(first.c_str(), &st);\n      limit(st.st_size + 1000);\n      for (; i < 100; ++i) sink.fileWrite(entry(i));\n      second = sink.changeLogFile("./other/", "id");\n      limit(RLIM_INFINITY);\n      for (; i < 120; ++i) sink.fileWrite(entry(i));\n   }\n   std::string all = slurp(first) + slurp(second);\n   int twice = 0;\n   for (int i = 0; i < 120; ++i) {\n      std::string t = "{{" + std::to_string(i) + "}}";\n      size_t p = all.find(t);\n      if (p != std::string::npos && all.find(t, p + 1) != std::string::npos) ++twice;\n   }\n   printf("%d entries are there twice\\n", twice);\n   return twice == 0 && slurp(second).find("{{110}}") != std::string::npos ? 0 : 1;\n}\n'
