PROP = 'P25'
EDITS = [('src/filesink.cpp', '         filestream() << _write_buffer << std::flush;\n         _write_buffer.clear();\n      }\n   }', '         filestream() << _write_buffer << std::flush;\n         while (!filestream() && _write_buffer.size() < 4096) {\n            std::this_thread::sleep_for(std::chrono::milliseconds(10));  // wait until there is room again\n            filestream().clear();\n            filestream() << _write_buffer << std::flush;\n         }\n         _write_buffer.clear();\n      }\n   }'), ('src/filesink.cpp', '#include <chrono>\n', '#include <chrono>\n#include <thread>\n')]
NEEDS = 'The disk of the log file stays full.'
BREAKS = 'The sink waits for ever: handle calls do not complete, and neither does the destruction of the worker.'
DEMO = '\n#include <g3log/g3log.hpp>\n#include <g3log/logworker.hpp>\n#include <g3log/filesink.hpp>\n#include <cstdio>\n#include <signal.h>\n#include <fstream>\n#include <sstream>\n#include <sys/resource.h>\n#include <unistd.h>\n#include <sys/stat.h>\nstatic void limit(unsigned long n) { struct rlimit l; getrlimit(RLIMIT_FSIZE, &l); l.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &l); }\nstatic std::string slurp(const std::string& p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }\nstatic g3::LogMessageMover entry(int i) { g3::LogMessage m("f.cpp", i, "f", INFO); m.write().append("{{" + std::to_string(i) + "}}"); return g3::LogMessageMover(std::move(m)); }\n\nint main() {\n   signal(SIGXFSZ, SIG_IGN);\n   for (time_t t = time(nullptr), k = 0; k < 100; ++k, ++t) {  // the file about to be created is on a full device\n      char n[100];\n      struct tm tmv;\n      localtime_r(&t, &tmv);\n      strftime(n, sizeof n, "pre.id.%Y%m%d-%H%M%S.log", &tmv);\n      if (symlink("/dev/full", n)) return 2;\n   }\n   auto w = g3::LogWorker::createLogWorker();\n   auto h = w->addSink(std::make_unique<g3::FileSink>("pre", "./", "id", 1), &g3::FileSink::fileWrite);\n   g3::initializeLogging(w.get());\n   for (int i = 0; i < 20; ++i) LOG(INFO) << "entry " << i;\n   bool ok = h->call(&g3::FileSink::fileName).wait_for(std::chrono::seconds(10)) == std::future_status::ready;\n   printf("the handle call %s\\n", ok ? "completed" : "did not complete");\n   fflush(stdout);\n   _exit(ok ? 0 : 1);\n}\n'
