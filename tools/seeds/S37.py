PROP="P21"
EDITS=[("src/crashhandler_unix.cpp","""                  oss << "\\tstack dump [" << idx << "]  " << real_name << " + " << offset << std::endl;
               }  // otherwise""","""                  char line[400];  // no allocations more than necessary in a crashed process
                  snprintf(line, sizeof(line), "\\tstack dump [%zu]  %s + %s", idx, real_name, offset.c_str());
                  oss << line << std::endl;
               }  // otherwise""")]
NEEDS="A frame whose demangled name is longer than about 380 characters (templates)."
BREAKS="The line is cut: end of the name and the offset are missing."
DEMO=r'''
#include <g3log/g3log.hpp>
#include <g3log/crashhandler.hpp>
#include <cstdio>
#include <map>
#include <string>
#include <vector>
using T = std::map<std::string, std::map<std::string, std::map<std::string, std::vector<std::string>>>>;
template <class X> struct Holder {
   __attribute__((noinline)) static std::string dump() { std::string d = g3::internal::stackdump(nullptr); asm volatile("" ::: "memory"); return d; }
};
int main() {
   std::string d = Holder<T>::dump();
   size_t p = d.find("Holder<"), e = d.find('\n', p);
   std::string line = p == std::string::npos ? "" : d.substr(p, e - p);
   printf("%zu characters, ends with %s\n", line.size(), line.size() > 20 ? line.c_str() + line.size() - 20 : "");
   return line.find("::dump() + 0x") != std::string::npos || line.find("::dump[abi:cxx11]() + 0x") != std::string::npos ? 0 : 1;
}
'''
FLAGS="-rdynamic"
