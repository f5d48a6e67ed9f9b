PROP="P07"
EDITS=[("src/logmessage.cpp","""      overrideLogDetailsFunc(formattingFunc);

      if (false""","""      if (&LogMessage::DefaultLogDetailsToString != formattingFunc) {  // the default is set at construction
         overrideLogDetailsFunc(formattingFunc);
      }

      if (false""")]
NEEDS="An entry that is formatted with other details first and with the default details afterwards."
BREAKS="A details function chosen for one call also shapes the text of a later default toString()."
DEMO=r'''
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <cstdio>
int main() {
   g3::LogMessage m("dir/f.cpp", 7, "fun", INFO);
   m.write().append("text");
   auto a = m.toString();
   auto b = m.toString(&g3::LogMessage::FullLogDetailsToString);
   auto c = m.toString();
   printf("%s%s%s", a.c_str(), b.c_str(), c.c_str());
   return a == c && a != b ? 0 : 1;
}
'''
