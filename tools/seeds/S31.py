PROP="P15"
EDITS=[("src/filesink.cpp","""      _header = change;
""","""      _header = change;
      _firstEntry = true;  // make sure that the new header gets into the file
""")]
NEEDS="overrideLogHeader after the first entry was handled, followed by another entry."
BREAKS="A second header, in the middle of the entries and even before buffered older entries."
DEMO=r'''
#include <g3log/g3log.hpp>
#include <g3log/filesink.hpp>
#include <cstdio>
#include <fstream>
#include <sstream>
int main() {
   std::string name;
   {
      g3::FileSink s("demo", ".", "id");
      name = s.fileName();
      s.fileWrite(g3::LogMessageMover(g3::LogMessage("f.cpp", 1, "f", INFO)));
      s.overrideLogHeader("a new header\n");
      s.fileWrite(g3::LogMessageMover(g3::LogMessage("f.cpp", 1, "f", INFO)));
   }
   std::ifstream f(name);
   std::stringstream ss;
   ss << f.rdbuf();
   size_t n = 0;
   for (size_t p = 0; (p = ss.str().find("g3log created log at", p)) != std::string::npos; ++p) ++n;
   printf("%zu headers\n", n);
   return n == 1 ? 0 : 1;
}
'''
