PROP="P18"
EDITS=[("src/filesinkhelper.ipp","""         oss_name << g3::localtime_formatted(now, file_name_time_formatted);""","""         std::time_t seconds = std::chrono::system_clock::to_time_t(now);
         std::tm utc;
         gmtime_r(&seconds, &utc);
         oss_name << g3::put_time(&utc, file_name_time_formatted.c_str());""")]
NEEDS="A time zone other than UTC."
BREAKS="The file name carries the UTC time instead of the local creation time."
DEMO=r'''
#include <g3log/g3log.hpp>
#include <g3log/filesink.hpp>
#include <g3log/time.hpp>
#include <cstdio>
#include <cstdlib>
#include <ctime>
static std::string name(time_t t) { tm x; localtime_r(&t, &x); char b[64]; strftime(b, sizeof b, "./t.id.%Y%m%d-%H%M%S.log", &x); return b; }
int main() {
   setenv("TZ", "ABC-5:30", 1); tzset();
   time_t t0 = time(nullptr);
   g3::FileSink s("t", "./", "id");
   time_t t1 = time(nullptr);
   auto f = s.fileName();
   printf("%s, expected %s\n", f.c_str(), name(t0).c_str());
   for (time_t t = t0; t <= t1; ++t) if (f == name(t)) return 0;
   return 1;
}
'''
