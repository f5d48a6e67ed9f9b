PROP="P21"
EDITS=[("src/crashhandler_unix.cpp","""strMessage.find_last_of('(');""","""strMessage.find_first_of('(');""")]
NEEDS="A program or library whose path contains a '('."
BREAKS="The frames of that module are shown with a piece of the path instead of the demangled name."
FLAGS="-rdynamic"
RUNDIR="run(x)"
DEMO=r'''
#include <g3log/crashhandler.hpp>
#include <cstdio>
#include <string>
namespace outer { __attribute__((noinline)) std::string function_of_interest(int n) { auto s = g3::internal::stackdump(nullptr); if (n > 5) s += "!"; return s; } }
int main(int argc, char**) {
   auto s = outer::function_of_interest(argc);
   printf("%s\n", s.c_str());
   return s.find("]  outer::function_of_interest") != s.npos ? 0 : 1;
}
'''
