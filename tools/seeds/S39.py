PROP="P07"
EDITS=[("src/logmessage.cpp","""      return g3::localtime_formatted(to_system_time(_timestamp), time_look);
""","""      const auto now = to_system_time(_timestamp);
      if (time_look == internal::date_formatted + " " + internal::time_formatted) {
         // the default look: the date and the hour rarely change
         static thread_local int64_t hour = -1;
         static thread_local std::string text;
         const int64_t h = std::chrono::duration_cast<std::chrono::hours>(now.time_since_epoch()).count();
         if (h != hour) {
            text = g3::localtime_formatted(now, internal::date_formatted + " %H");
            hour = h;
         }
         return text + g3::localtime_formatted(now, ":%M:%S %f6");
      }
      return g3::localtime_formatted(now, time_look);
""")]
NEEDS="A time zone whose offset is no whole number of hours, and two entries on both sides of the turn of the local hour."
BREAKS="The entries after the turn of the hour show the old hour (and possibly the old date) until the hour of UTC turns too."
DEMO=r'''
#include <g3log/g3log.hpp>
#include <g3log/logmessage.hpp>
#include <cstdio>
#include <cstdlib>
#include <ctime>
int main() {
   setenv("TZ", "IST-5:30", 1);
   tzset();
   g3::LogMessage a("f.cpp", 1, "f", INFO), b(a);
   a._timestamp = g3::high_resolution_time_point(std::chrono::seconds(1700000000 - 1700000000 % 3600 + 1500));
   b._timestamp = g3::high_resolution_time_point(std::chrono::seconds(1700000000 - 1700000000 % 3600 + 2500));
   std::string x = a.toString(), y = b.toString();
   printf("%s%s", x.c_str(), y.c_str());
   time_t t = 1700000000 - 1700000000 % 3600 + 2500;
   char want[40];
   strftime(want, sizeof want, "%Y/%m/%d %H:%M:%S", localtime(&t));
   return y.substr(0, 19) == want ? 0 : 1;
}
'''
