From 1993a119c264b849b9bbbc6b7782730fe0166397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 01/22] fix: splitFileName must not treat "(" as a directory
 separator

---
 src/logmessage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logmessage.cpp b/src/logmessage.cpp
index 5e6faa9..16f80cc 100644
--- a/src/logmessage.cpp
+++ b/src/logmessage.cpp
@@ -15,7 +15,7 @@ namespace g3 {
 
    std::string LogMessage::splitFileName(const std::string& str) {
       size_t found;
-      found = str.find_last_of("(/\\");
+      found = str.find_last_of("/\\");
       return str.substr(found + 1);
    }
 
-- 
2.43.0


From 992ac32b23642f5611e10b16cc140f2a52c63e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 02/22] fix: LogMessage swap and assignment must transfer the
 file path and details function

---
 src/g3log/logmessage.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/g3log/logmessage.hpp b/src/g3log/logmessage.hpp
index 9fc2d23..6898d56 100644
--- a/src/g3log/logmessage.hpp
+++ b/src/g3log/logmessage.hpp
@@ -116,9 +116,11 @@ namespace g3 {
 
       friend void swap(LogMessage& first, LogMessage& second) {
          using std::swap;
+         swap(first._logDetailsToStringFunc, second._logDetailsToStringFunc);
          swap(first._timestamp, second._timestamp);
          swap(first._call_thread_id, second._call_thread_id);
          swap(first._file, second._file);
+         swap(first._file_path, second._file_path);
          swap(first._line, second._line);
          swap(first._function, second._function);
          swap(first._level, second._level);
-- 
2.43.0


From 44a0cd65f42bb93bcdbd79b3a1f4ba7ebac5bb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 03/22] fix: mark a printf-style message as truncated when it
 is exactly one byte too long

---
 src/logcapture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logcapture.cpp b/src/logcapture.cpp
index ad448c9..d4f138b 100644
--- a/src/logcapture.cpp
+++ b/src/logcapture.cpp
@@ -105,7 +105,7 @@ void LogCapture::capturef(const char* printf_like_message, ...) {
    if (nbrcharacters < 0) {
       stream() << "\n\tERROR LOG MSG NOTIFICATION: Failure to successfully parse the message";
       stream() << '"' << printf_like_message << '"' << std::endl;
-   } else if (nbrcharacters > finished_message_len) {
+   } else if (nbrcharacters >= finished_message_len) {
       stream() << finished_message << kTruncatedWarningText;
    } else {
       stream() << finished_message;
-- 
2.43.0


From 0d8abfaaedf127849bf6af27257deb1c24e0a899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:45 +0000
Subject: [PATCH 04/22] fix: format time points before 1970 that have a
 fraction of a second

---
 src/time.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/time.cpp b/src/time.cpp
index a94d394..8dc2b0a 100644
--- a/src/time.cpp
+++ b/src/time.cpp
@@ -50,7 +50,8 @@ namespace g3 {
       // 1 ns --> 000000001
       std::string to_string(const g3::system_time_point& ts, Fractional fractional) {
          auto duration = ts.time_since_epoch();
-         auto sec_duration = std::chrono::duration_cast<std::chrono::seconds>(duration);
+         // rounding down: the fraction is never negative, also before the epoch
+         auto sec_duration = std::chrono::floor<std::chrono::seconds>(duration);
          duration -= sec_duration;
          auto ns = std::chrono::duration_cast<std::chrono::nanoseconds>(duration).count();
 
@@ -144,7 +145,7 @@ namespace g3 {
 
    std::string localtime_formatted(const g3::system_time_point& ts, const std::string& time_format) {
       auto format_buffer = internal::localtime_formatted_fractions(ts, time_format);
-      auto time_point = std::chrono::system_clock::to_time_t(ts);
+      auto time_point = std::chrono::system_clock::to_time_t(std::chrono::floor<std::chrono::seconds>(ts));
       std::tm t = localtime(time_point);
       return g3::put_time(&t, format_buffer.c_str());  // format example: //"%Y/%m/%d %H:%M:%S");
    }
-- 
2.43.0


From 1aeb6087e163b7b6b5f6d7b8b40e37eec3928ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 05/22] fix: an escaped percent sign followed by "f" is not a
 fraction of a second

---
 src/time.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/time.cpp b/src/time.cpp
index 8dc2b0a..df6b00f 100644
--- a/src/time.cpp
+++ b/src/time.cpp
@@ -84,8 +84,12 @@ namespace g3 {
          // iterating through every "%f" instance in the format string
          auto identifierExtraSize = 0;
          for (size_t pos = 0;
-              (pos = format_buffer.find(g3::internal::kFractionalIdentier, pos)) != std::string::npos;
+              (pos = format_buffer.find('%', pos)) != std::string::npos;
               pos += g3::internal::kFractionalIdentierSize + identifierExtraSize) {
+            // any other conversion, or an escaped percent sign: "%%f" is the text "%f"
+            if (format_buffer.compare(pos, g3::internal::kFractionalIdentierSize, g3::internal::kFractionalIdentier) != 0) {
+               continue;
+            }
             // figuring out whether this is nano, micro or milli identifier
             auto type = g3::internal::getFractional(format_buffer, pos);
             auto value = g3::internal::to_string(ts, type);
-- 
2.43.0


From 02f47ec44555b4faed23e098f1ddb1e3f62da4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:52 +0000
Subject: [PATCH 06/22] fix: querying or logging an unknown level must not add
 it to the levels

---
 src/loglevels.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/loglevels.cpp b/src/loglevels.cpp
index a148e8f..5077bf8 100644
--- a/src/loglevels.cpp
+++ b/src/loglevels.cpp
@@ -119,7 +119,11 @@ namespace g3 {
    bool logLevel(const LEVELS& log_level) {
 #ifdef G3_DYNAMIC_LOGGING
       int level = log_level.value;
-      bool status = internal::g_log_levels[level].status.value();
+      const auto it = internal::g_log_levels.find(level);
+      if (internal::g_log_levels.end() == it) {
+         return false;  // never added: it stays absent
+      }
+      bool status = it->second.status.value();
       return status;
 #else
       return true;
-- 
2.43.0


From 31cbee4c2d6ff657fb44f530918f0eebc5b6965b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:02 +0000
Subject: [PATCH 07/22] fix: opening a log file no longer erases a file of the
 same name

Two changes of the log file (or a restart) within one second give the same
file name; opening it with trunc erased all entries already in it.
---
 src/filesinkhelper.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filesinkhelper.ipp b/src/filesinkhelper.ipp
index 1e42999..5fdb2e1 100644
--- a/src/filesinkhelper.ipp
+++ b/src/filesinkhelper.ipp
@@ -99,7 +99,7 @@ namespace g3 {
 
       bool openLogFile(const std::string &complete_file_with_path, std::ofstream &outstream) {
          std::ios_base::openmode mode = std::ios_base::out; // for clarity: it's really overkill since it's an ofstream
-         mode |= std::ios_base::trunc;
+         mode |= std::ios_base::app;  // a log file may be opened again within the same second: never erase what it already holds
          outstream.open(complete_file_with_path, mode);
          if (!outstream.is_open()) {
             std::ostringstream ss_error;
-- 
2.43.0


From fef5737e76c5d65883cd516a1b7065a7b874c5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:55 +0000
Subject: [PATCH 08/22] fix: a fatal event before initializeLogging must not
 call an empty hook

---
 src/g3log.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index a5bfa52..3db2a18 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -41,7 +41,7 @@ namespace {
    std::once_flag g_set_first_uninitialized_flag;
    std::once_flag g_save_first_uninitialized_flag;
    const std::function<void(void)> g_pre_fatal_hook_that_does_nothing = [] { /*does nothing */ };
-   std::function<void(void)> g_fatal_pre_logging_hook;
+   std::function<void(void)> g_fatal_pre_logging_hook = g_pre_fatal_hook_that_does_nothing;
 
    std::atomic<size_t> g_fatal_hook_recursive_counter = {0};
 }  // namespace
-- 
2.43.0


From e73466c346c130b500dd6da507e69b936ed97014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:07 +0000
Subject: [PATCH 09/22] fix: installing the crash handler again must not save
 g3log's own handler as the original one

---
 src/crashhandler_unix.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crashhandler_unix.cpp b/src/crashhandler_unix.cpp
index 9c40449..937a1ef 100644
--- a/src/crashhandler_unix.cpp
+++ b/src/crashhandler_unix.cpp
@@ -102,7 +102,8 @@ namespace {
          if (sigaction(sig_pair.first, &action, &old_action) < 0) {
             std::string signalerror = "sigaction - " + sig_pair.second;
             perror(signalerror.c_str());
-         } else {
+         } else if (!(old_action.sa_flags & SA_SIGINFO) || old_action.sa_sigaction != &signalHandler) {
+            // (when installed repeatedly: never save our own handler as the one to restore)
             gSavedSigActions[sig_pair.first] = old_action;
          }
       }
-- 
2.43.0


From 9a054530d4f5381ded5109355c9f33f2f3cd8f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 10/22] fix: unblock the fatal signal before exiting with it

---
 src/crashhandler_unix.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/crashhandler_unix.cpp b/src/crashhandler_unix.cpp
index 937a1ef..412c7ba 100644
--- a/src/crashhandler_unix.cpp
+++ b/src/crashhandler_unix.cpp
@@ -233,6 +233,12 @@ namespace g3 {
                    << __FUNCTION__ << ":" << __LINE__ << ". Exiting due to " << level.text << ", " << signal_number << "   \n\n"
                    << std::flush;
 
+         // The signal is blocked here if this runs inside our signal handler (there was no worker to hand the
+         // fatal event to) or if this thread was created while the signal was blocked.
+         sigset_t exit_signal;
+         sigemptyset(&exit_signal);
+         sigaddset(&exit_signal, signal_number);
+         pthread_sigmask(SIG_UNBLOCK, &exit_signal, nullptr);
          raise(signal_number);
 
          // When running as PID1 the above kill doesn't have any effect (execution simply passes through it, contrary
-- 
2.43.0


From 6059629a2db4b381827d8a23f09ae42bcff4aba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:07 +0000
Subject: [PATCH 11/22] fix: an illegal initialization must not hold the init
 lock while it exits

---
 src/g3log.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index 3db2a18..005ac29 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -56,7 +56,7 @@ namespace g3 {
       std::call_once(g_initialize_flag, [] {
          installCrashHandler();
       });
-      std::lock_guard<std::mutex> lock(g_logging_init_mutex);
+      std::unique_lock<std::mutex> lock(g_logging_init_mutex);
       if (internal::isLoggingInitialized() || nullptr == bgworker) {
          std::ostringstream exitMsg;
          exitMsg << __FILE__ "->" << __FUNCTION__ << ":" << __LINE__ << std::endl;
@@ -64,6 +64,7 @@ namespace g3 {
          exitMsg << "\t(due to multiple initializations? : " << std::boolalpha << internal::isLoggingInitialized();
          exitMsg << ", due to nullptr == bgworker? : " << std::boolalpha << (nullptr == bgworker) << ")";
          std::cerr << exitMsg.str() << std::endl;
+         lock.unlock();  // a LogWorker of static storage is destroyed by exit, and takes this lock
          std::exit(EXIT_FAILURE);
       }
 
-- 
2.43.0


From da8edaf7e4d6afdc02a3628bcd96bb24184e2689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 12/22] fix: a log call must not use the logger instance after
 a concurrent fatal event reset it

---
 src/g3log.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index 005ac29..57c86cf 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -34,7 +34,7 @@
 
 namespace {
    std::once_flag g_initialize_flag;
-   g3::LogWorker* g_logger_instance = nullptr;  // instantiated and OWNED somewhere else (main)
+   std::atomic<g3::LogWorker*> g_logger_instance{nullptr};  // instantiated and OWNED somewhere else (main)
    std::mutex g_logging_init_mutex;
 
    std::unique_ptr<g3::LogMessage> g_first_uninitialized_msg = {nullptr};
@@ -192,8 +192,11 @@ namespace g3 {
             * @param log_entry to save to logger
             */
       void pushMessageToLogger(LogMessagePtr incoming) {  // todo rename to Push SavedMessage To Worker
+         // A fatal event on another thread may shut the logging down at any time: look at the instance only once
+         g3::LogWorker* logger = g_logger_instance;
+
          // Uninitialized messages are ignored but does not CHECK/crash the logger
-         if (!internal::isLoggingInitialized()) {
+         if (!logger) {
             std::call_once(g_set_first_uninitialized_flag, [&] {
                g_first_uninitialized_msg = incoming.release();
                std::string err = {"LOGGER NOT INITIALIZED:\n\t\t"};
@@ -206,7 +209,7 @@ namespace g3 {
          }
 
          // logger is initialized
-         g_logger_instance->save(incoming);
+         logger->save(incoming);
       }
 
       /** Fatal call saved to logger. This will trigger SIGABRT or other fatal signal
@@ -215,7 +218,8 @@ namespace g3 {
           * message and kills the software with the fatal signal.
           */
       void pushFatalMessageToLogger(FatalMessagePtr message) {
-         if (!isLoggingInitialized()) {
+         g3::LogWorker* logger = g_logger_instance;
+         if (!logger) {
             std::ostringstream error;
             error << "FATAL CALL but logger is NOT initialized\n"
                   << "CAUSE: " << message.get()->reason()
@@ -224,7 +228,7 @@ namespace g3 {
             std::cerr << error.str() << std::flush;
             internal::exitWithDefaultSignalHandler(message.get()->_level, message.get()->_signal_id);
          }
-         g_logger_instance->fatal(message);
+         logger->fatal(message);
          while (shouldBlockForFatalHandling()) {
             std::this_thread::sleep_for(std::chrono::seconds(1));
          }
-- 
2.43.0


From 15087010ce1f72ee112424f23029860642535775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:08 +0000
Subject: [PATCH 13/22] fix: the first uninitialized log entry must not race
 with initializeLogging taking it over

---
 src/g3log.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index 57c86cf..22db484 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -197,15 +197,20 @@ namespace g3 {
 
          // Uninitialized messages are ignored but does not CHECK/crash the logger
          if (!logger) {
-            std::call_once(g_set_first_uninitialized_flag, [&] {
-               g_first_uninitialized_msg = incoming.release();
-               std::string err = {"LOGGER NOT INITIALIZED:\n\t\t"};
-               err.append(g_first_uninitialized_msg->message());
-               std::string& str = g_first_uninitialized_msg->write();
-               str.clear();
-               str.append(err); // replace content
-               std::cerr << str << std::endl; });
-            return;
+            // initializeLogging, possibly running on another thread right now, takes over the first message
+            std::lock_guard<std::mutex> lock(g_logging_init_mutex);
+            logger = g_logger_instance;
+            if (!logger) {
+               std::call_once(g_set_first_uninitialized_flag, [&] {
+                  g_first_uninitialized_msg = incoming.release();
+                  std::string err = {"LOGGER NOT INITIALIZED:\n\t\t"};
+                  err.append(g_first_uninitialized_msg->message());
+                  std::string& str = g_first_uninitialized_msg->write();
+                  str.clear();
+                  str.append(err); // replace content
+                  std::cerr << str << std::endl; });
+               return;
+            }
          }
 
          // logger is initialized
-- 
2.43.0


From ec9ac526a64f9780c6b53d40e80dd77e5873f233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:22 +0000
Subject: [PATCH 14/22] fix: symbol texts with a '+' in the path or at the end
 must not garble or break stack dumps

---
 src/crashhandler_unix.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crashhandler_unix.cpp b/src/crashhandler_unix.cpp
index 412c7ba..4c9a6b9 100644
--- a/src/crashhandler_unix.cpp
+++ b/src/crashhandler_unix.cpp
@@ -161,11 +161,11 @@ namespace g3 {
                }
             } else {
                /// we did not found brackets, looking for "_mangled_name + offset"
-               const auto plusSign = strMessage.find_first_of('+');
+               const auto plusSign = strMessage.rfind(" + ");
                const auto lastUnderscore = strMessage.rfind(" _");
-               if (plusSign != strMessage.npos && lastUnderscore != strMessage.npos) {
-                  mangled_name = strMessage.substr(lastUnderscore + 1, plusSign - lastUnderscore - 2);
-                  offset = strMessage.substr(plusSign + 2, strMessage.npos);
+               if (plusSign != strMessage.npos && lastUnderscore != strMessage.npos && lastUnderscore < plusSign) {
+                  mangled_name = strMessage.substr(lastUnderscore + 1, plusSign - lastUnderscore - 1);
+                  offset = strMessage.substr(plusSign + 3, strMessage.npos);
                }
             }
 
-- 
2.43.0


From 952c93b9c8c194ae38ce5193c7c9cb13780752e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:02 +0000
Subject: [PATCH 15/22] fix: a contract whose expression is a non-zero number
 other than 1 holds

CHECK, CHECKF and CHECK_F compared their expression with true, so a fulfilled
contract such as CHECK(flags & 4) was reported as broken and ended the program.
---
 src/g3log/g3log.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/g3log/g3log.hpp b/src/g3log/g3log.hpp
index af5363d..1a936c8 100644
--- a/src/g3log/g3log.hpp
+++ b/src/g3log/g3log.hpp
@@ -154,7 +154,7 @@ namespace g3 {
 // 'Design By Contract' stream API. Broken Contracts will exit the application by using fatal signal SIGABRT
 //  For unit testing, you can override the fatal handling using setFatalExitHandler(...). See tes_io.cpp for examples
 #define CHECK(boolean_expression)        \
-   if (true == (boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).stream()
+   if (static_cast<bool>(boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).stream()
 
 
 /** For details please see this
@@ -216,12 +216,12 @@ And here is possible output
 // Calls the signal handler if the contract failed with the default exit for a failed contract. This is typically SIGABRT
 // See g3log, setFatalExitHandler(...) which can be overriden for unit tests (ref test_io.cpp)
 #define CHECKF(boolean_expression, printf_like_message, ...)    \
-   if (true == (boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).capturef(printf_like_message, ##__VA_ARGS__)
+   if (static_cast<bool>(boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).capturef(printf_like_message, ##__VA_ARGS__)
 
 // Backwards compatible. The same as CHECKF.
 // Design By Contract, printf-like API syntax with variadic input parameters.
 // Calls the signal handler if the contract failed. See g3log, setFatalExitHandler(...) which can be overriden for unit tests
 // (ref test_io.cpp)
 #define CHECK_F(boolean_expression, printf_like_message, ...)    \
-   if (true == (boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).capturef(printf_like_message, ##__VA_ARGS__)
+   if (static_cast<bool>(boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).capturef(printf_like_message, ##__VA_ARGS__)
    // clang-format on
\ No newline at end of file
-- 
2.43.0


From b3d02a3ef9d2b34e8a7e5a5efd5081d1e023947e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:07 +0000
Subject: [PATCH 16/22] fix: toggling a known log level changes only its status

set (and with it enable, disable, setHighest) also assigned the level's value
and name, which getAll and to_string on other threads read at the same time.
---
 src/loglevels.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loglevels.cpp b/src/loglevels.cpp
index 5077bf8..c57185c 100644
--- a/src/loglevels.cpp
+++ b/src/loglevels.cpp
@@ -63,7 +63,7 @@ namespace g3 {
       void set(LEVELS level, bool enabled) {
          auto it = internal::g_log_levels.find(level.value);
          if (it != internal::g_log_levels.end()) {
-            internal::g_log_levels[level.value] = {level, enabled};
+            it->second.status = enabled;
          }
       }
 
-- 
2.43.0


From a80150f347cd6fcb2f72358921372d0162af6751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:31 +0000
Subject: [PATCH 17/22] fix: fatal events on several threads raced for the
 pre-logging hook

saveFatalMessage copied the hook without the lock that guards setting it: with a
custom exit handler two threads could read and replace the std::function at the
same time. One of them now takes it.
---
 src/g3log.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index 22db484..452cd3a 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -42,6 +42,7 @@ namespace {
    std::once_flag g_save_first_uninitialized_flag;
    const std::function<void(void)> g_pre_fatal_hook_that_does_nothing = [] { /*does nothing */ };
    std::function<void(void)> g_fatal_pre_logging_hook = g_pre_fatal_hook_that_does_nothing;
+   std::mutex g_fatal_pre_logging_hook_mutex;
 
    std::atomic<size_t> g_fatal_hook_recursive_counter = {0};
 }  // namespace
@@ -90,8 +91,7 @@ namespace g3 {
    *     so please call this function, if you ever need to, after initializeLogging(...)
    */
    void setFatalPreLoggingHook(std::function<void(void)> pre_fatal_hook) {
-      static std::mutex m;
-      std::lock_guard<std::mutex> lock(m);
+      std::lock_guard<std::mutex> lock(g_fatal_pre_logging_hook_mutex);
       g_fatal_pre_logging_hook = pre_fatal_hook;
    }
 
@@ -156,10 +156,13 @@ namespace g3 {
       }
 
       void saveFatalMessage(const char* stack_trace, g3::LogMessagePtr& message, int& fatal_signal) {
-         auto fatalhook = g_fatal_pre_logging_hook;
          // In case the fatal_pre logging actually will cause a crash in its turn
-         // let's not do recursive crashing!
-         setFatalPreLoggingHook(g_pre_fatal_hook_that_does_nothing);
+         // let's not do recursive crashing! Fatal events on several threads: only one of them gets the hook
+         auto fatalhook = g_pre_fatal_hook_that_does_nothing;
+         {
+            std::lock_guard<std::mutex> lock(g_fatal_pre_logging_hook_mutex);
+            fatalhook.swap(g_fatal_pre_logging_hook);
+         }
          ++g_fatal_hook_recursive_counter;  // thread safe counter
          // "benign" race here. If two threads crashes, with recursive crashes
          // then it's possible that the "other" fatal stack trace will be shown
-- 
2.43.0


From fed655822a81e86c184c446d031d931a9b2851ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:24 +0000
Subject: [PATCH 18/22] fix: a log call in a static constructor was taken for
 fatal

LOG(INFO) in the constructor of a static object that comes before the static
objects of the library compared with the value of FATAL before it was
constructed (0): the process was ended by a log entry that is not fatal.
---
 src/loglevels.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loglevels.cpp b/src/loglevels.cpp
index c57185c..6e39fb2 100644
--- a/src/loglevels.cpp
+++ b/src/loglevels.cpp
@@ -14,7 +14,7 @@
 namespace g3 {
    namespace internal {
       bool wasFatal(const LEVELS& level) {
-         return level.value >= FATAL.value;
+         return level.value >= g3::kFatalValue;  // not FATAL: log calls in static constructors may come before it is constructed
       }
 
 #ifdef G3_DYNAMIC_LOGGING
-- 
2.43.0


From bbc9aa0df5ab0984bdacdf3b50a0b7ebae4d3a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:41 +0000
Subject: [PATCH 19/22] fix: log calls in static destructors used destroyed
 objects

The truncation mark of LOGF, the texts of fatal and custom level entries and
the first stack trace were static std::string: a log call in an atexit handler
or in the destructor of a static object that runs after them used them after
they were destroyed.
---
 src/g3log.cpp      | 2 +-
 src/logcapture.cpp | 2 +-
 src/logmessage.cpp | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index 452cd3a..2fac3e7 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -167,7 +167,7 @@ namespace g3 {
          // "benign" race here. If two threads crashes, with recursive crashes
          // then it's possible that the "other" fatal stack trace will be shown
          // that's OK since it was anyhow the first crash detected
-         static const std::string first_stack_trace = stack_trace;
+         static const std::string& first_stack_trace = *new std::string(stack_trace);  // (never destroyed: needed while static objects are)
          fatalhook();
          message.get()->write().append(stack_trace);
 
diff --git a/src/logcapture.cpp b/src/logcapture.cpp
index d4f138b..5e79784 100644
--- a/src/logcapture.cpp
+++ b/src/logcapture.cpp
@@ -77,7 +77,7 @@ LogCapture::LogCapture(const char* file, const int line, const char* function, c
 * See also for the attribute formatting ref:  http://www.codemaestro.com/reviews/18
 */
 void LogCapture::capturef(const char* printf_like_message, ...) {
-   static const std::string kTruncatedWarningText = "[...truncated...]";
+   static const char* const kTruncatedWarningText = "[...truncated...]";  // (no object: logging goes on while static objects are destroyed)
 #ifdef G3_DYNAMIC_MAX_MESSAGE_SIZE
    std::vector<char> finished_message_backing(MaxMessageSize);
    char* finished_message = finished_message_backing.data();
diff --git a/src/logmessage.cpp b/src/logmessage.cpp
index 16f80cc..3fb3316 100644
--- a/src/logmessage.cpp
+++ b/src/logmessage.cpp
@@ -36,7 +36,7 @@ namespace g3 {
    // helper for fatal LOG
    std::string LogMessage::fatalLogToString(const LogMessage& msg) {
       auto out = msg._logDetailsToStringFunc(msg);
-      static const std::string fatalExitReason = {"EXIT trigger caused by LOG(FATAL) entry: "};
+      const std::string fatalExitReason = {"EXIT trigger caused by LOG(FATAL) entry: "};
       out.append("\n\t*******\t " + fatalExitReason + "\n\t" + '"' + msg.message() + '"');
       return out;
    }
@@ -44,7 +44,7 @@ namespace g3 {
    // helper for fatal CHECK
    std::string LogMessage::fatalCheckToString(const LogMessage& msg) {
       auto out = msg._logDetailsToStringFunc(msg);
-      static const std::string contractExitReason = {"EXIT trigger caused by broken Contract:"};
+      const std::string contractExitReason = {"EXIT trigger caused by broken Contract:"};
       out.append("\n\t*******\t " + contractExitReason + " CHECK(" + msg.expression() + ")\n\t" + '"' + msg.message() + '"');
       return out;
    }
@@ -102,7 +102,7 @@ namespace g3 {
 
       // What? Did we hit a custom made level?
       auto out = _logDetailsToStringFunc(*this);
-      static const std::string errorUnknown = {"UNKNOWN or Custom made Log Message Type"};
+      const std::string errorUnknown = {"UNKNOWN or Custom made Log Message Type"};
       out.append("\t*******" + errorUnknown + "\n\t" + message() + '\n');
       return out;
    }
-- 
2.43.0


From 8f8d94b04d895feb739eaf3cf504a9560db9f4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:56 +0000
Subject: [PATCH 20/22] fix: a fatal event after the static destructors ended
 by the wrong signal

The maps of signals and saved signal actions were destroyed while log calls
are still possible: a fatal event in a later static destructor used them after
they were destroyed and the process died by SIGSEGV.
---
 src/crashhandler_unix.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/crashhandler_unix.cpp b/src/crashhandler_unix.cpp
index 4c9a6b9..0ad4bb6 100644
--- a/src/crashhandler_unix.cpp
+++ b/src/crashhandler_unix.cpp
@@ -39,7 +39,8 @@ namespace {
 
    std::atomic<bool> gBlockForFatal{true};
 
-   const std::map<int, std::string> kSignals = {
+   // The maps are never destroyed: a fatal event may come while, or after, static objects are destroyed
+   const std::map<int, std::string>& kSignals = *new std::map<int, std::string>{
       {SIGABRT, "SIGABRT"},
       {SIGFPE, "SIGFPE"},
       {SIGILL, "SIGILL"},
@@ -47,8 +48,8 @@ namespace {
       {SIGTERM, "SIGTERM"},
    };
 
-   std::map<int, std::string> gSignals = kSignals;
-   std::map<int, struct sigaction> gSavedSigActions;
+   std::map<int, std::string>& gSignals = *new std::map<int, std::string>(kSignals);
+   std::map<int, struct sigaction>& gSavedSigActions = *new std::map<int, struct sigaction>();
 
    bool shouldDoExit() {
       static std::atomic<uint64_t> firstExit{0};
-- 
2.43.0


From ea5f2fc7147919d42d0989d0e6404fd79dee7482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:10 +0000
Subject: [PATCH 21/22] fix: dynamic levels were used before construction and
 after destruction

With dynamic log levels, entries of static constructors that come before the
level table is constructed were dropped, and log calls in static destructors
that come after it was destroyed used the destroyed table.
---
 src/loglevels.cpp | 47 ++++++++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/loglevels.cpp b/src/loglevels.cpp
index 6e39fb2..48a5eb2 100644
--- a/src/loglevels.cpp
+++ b/src/loglevels.cpp
@@ -18,13 +18,18 @@ namespace g3 {
       }
 
 #ifdef G3_DYNAMIC_LOGGING
-      const std::map<int, LoggingLevel> g_log_level_defaults = {
-         {G3LOG_DEBUG.value, {G3LOG_DEBUG}},
-         {INFO.value, {INFO}},
-         {WARNING.value, {WARNING}},
-         {FATAL.value, {FATAL}}};
+      std::map<int, LoggingLevel> g_log_level_defaults() {
+         return {{g3::kDebugValue, {LEVELS{g3::kDebugValue, "DEBUG"}}},
+                 {g3::kInfoValue, {LEVELS{g3::kInfoValue, "INFO"}}},
+                 {g3::kWarningValue, {LEVELS{g3::kWarningValue, "WARNING"}}},
+                 {g3::kFatalValue, {LEVELS{g3::kFatalValue, "FATAL"}}}};
+      }
 
-      std::map<int, g3::LoggingLevel> g_log_levels = g_log_level_defaults;
+      // Created at the first use and never destroyed: static objects log in their constructors and destructors
+      std::map<int, g3::LoggingLevel>& g_log_levels() {
+         static auto& levels = *new std::map<int, g3::LoggingLevel>(g_log_level_defaults());
+         return levels;
+      }
 #endif
    }  // namespace internal
 
@@ -33,7 +38,7 @@ namespace g3 {
 
       void addLogLevel(LEVELS lvl, bool enabled) {
          int value = lvl.value;
-         internal::g_log_levels[value] = {lvl, enabled};
+         internal::g_log_levels()[value] = {lvl, enabled};
       }
 
       void addLogLevel(LEVELS level) {
@@ -41,16 +46,16 @@ namespace g3 {
       }
 
       void reset() {
-         g3::internal::g_log_levels = g3::internal::g_log_level_defaults;
+         g3::internal::g_log_levels() = g3::internal::g_log_level_defaults();
       }
    }  // namespace only_change_at_initialization
 
    namespace log_levels {
 
       void setHighest(LEVELS enabledFrom) {
-         auto it = internal::g_log_levels.find(enabledFrom.value);
-         if (it != internal::g_log_levels.end()) {
-            for (auto& v : internal::g_log_levels) {
+         auto it = internal::g_log_levels().find(enabledFrom.value);
+         if (it != internal::g_log_levels().end()) {
+            for (auto& v : internal::g_log_levels()) {
                if (v.first < enabledFrom.value) {
                   disable(v.second.level);
                } else {
@@ -61,8 +66,8 @@ namespace g3 {
       }
 
       void set(LEVELS level, bool enabled) {
-         auto it = internal::g_log_levels.find(level.value);
-         if (it != internal::g_log_levels.end()) {
+         auto it = internal::g_log_levels().find(level.value);
+         if (it != internal::g_log_levels().end()) {
             it->second.status = enabled;
          }
       }
@@ -76,13 +81,13 @@ namespace g3 {
       }
 
       void disableAll() {
-         for (auto& v : internal::g_log_levels) {
+         for (auto& v : internal::g_log_levels()) {
             v.second.status = false;
          }
       }
 
       void enableAll() {
-         for (auto& v : internal::g_log_levels) {
+         for (auto& v : internal::g_log_levels()) {
             v.second.status = true;
          }
       }
@@ -96,17 +101,17 @@ namespace g3 {
       }
 
       std::string to_string() {
-         return to_string(internal::g_log_levels);
+         return to_string(internal::g_log_levels());
       }
 
       std::map<int, g3::LoggingLevel> getAll() {
-         return internal::g_log_levels;
+         return internal::g_log_levels();
       }
 
       // status : {Absent, Enabled, Disabled};
       status getStatus(LEVELS level) {
-         const auto it = internal::g_log_levels.find(level.value);
-         if (internal::g_log_levels.end() == it) {
+         const auto it = internal::g_log_levels().find(level.value);
+         if (internal::g_log_levels().end() == it) {
             return status::Absent;
          }
 
@@ -119,8 +124,8 @@ namespace g3 {
    bool logLevel(const LEVELS& log_level) {
 #ifdef G3_DYNAMIC_LOGGING
       int level = log_level.value;
-      const auto it = internal::g_log_levels.find(level);
-      if (internal::g_log_levels.end() == it) {
+      const auto it = internal::g_log_levels().find(level);
+      if (internal::g_log_levels().end() == it) {
          return false;  // never added: it stays absent
       }
       bool status = it->second.status.value();
-- 
2.43.0


From 73c64abd66f42ebdb25b98011deb43c1d4d2cb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:15 +0000
Subject: [PATCH 22/22] fix: entries pending at a removed sink are handled
 before the removal (or shutdown) returns

A SinkHandle::call in progress on another thread, or a shared_ptr held by the
client, keeps the sink alive past its removal from the worker. Its destructor
then did not flush the queue inside removeSink, removeAllSinks, ~LogWorker or
the fatal shutdown: entries were received late or, after a fatal event, never.
---
 src/g3log/logworker.hpp   | 3 +++
 src/g3log/sink.hpp        | 6 ++++++
 src/g3log/sinkwrapper.hpp | 3 +++
 src/logworker.cpp         | 7 +++++++
 4 files changed, 19 insertions(+)

diff --git a/src/g3log/logworker.hpp b/src/g3log/logworker.hpp
index 844d91f..fd555a9 100644
--- a/src/g3log/logworker.hpp
+++ b/src/g3log/logworker.hpp
@@ -38,6 +38,7 @@ namespace g3 {
 
       void bgSave(g3::LogMessagePtr msgPtr);
       void bgFatal(FatalMessagePtr msgPtr);
+      void flushSinks();
 
       LogWorkerImpl(const LogWorkerImpl&) = delete;
       LogWorkerImpl& operator=(const LogWorkerImpl&) = delete;
@@ -108,6 +109,7 @@ namespace g3 {
                auto bg_removesink_call = [this, weak_ptr_sink] {
                   auto shared_sink = weak_ptr_sink.lock();
                   if (shared_sink) {
+                     shared_sink->flush();
                      _impl._sinks.erase(std::remove(_impl._sinks.begin(), _impl._sinks.end(), shared_sink), _impl._sinks.end());
                   }
                };
@@ -124,6 +126,7 @@ namespace g3 {
       /// handle then the sink will be removed internally but will live on in the client's instance
       void removeAllSinks() {
          auto bg_clear_sink_call = [this]() noexcept {
+            _impl.flushSinks();
             _impl._sinks.clear();
          };
          auto token_cleared = g3::spawn_task(bg_clear_sink_call, _impl._bg.get());
diff --git a/src/g3log/sink.hpp b/src/g3log/sink.hpp
index 61f8850..f3e410e 100644
--- a/src/g3log/sink.hpp
+++ b/src/g3log/sink.hpp
@@ -67,6 +67,12 @@ namespace g3 {
             });
          }
 
+         // The destructor does this as well, but a sink that is released by its LogWorker might be
+         // kept a while longer by a shared_ptr of the client or by a SinkHandle::call in progress.
+         void flush() override {
+            g3::spawn_task([] {}, _bg.get()).wait();
+         }
+
          template <typename Call, typename... Args>
          auto async(Call call, Args&&... args) -> std::future<std::invoke_result_t<decltype(call), T, Args...>> {
             return g3::spawn_task(std::bind(call, _real_sink.get(), std::forward<Args>(args)...), _bg.get());
diff --git a/src/g3log/sinkwrapper.hpp b/src/g3log/sinkwrapper.hpp
index f9c8fc2..a8e0058 100644
--- a/src/g3log/sinkwrapper.hpp
+++ b/src/g3log/sinkwrapper.hpp
@@ -16,6 +16,9 @@ namespace g3 {
       struct SinkWrapper {
          virtual ~SinkWrapper() {}
          virtual void send(LogMessageMover msg) = 0;
+
+         // returns when everything that was sent to the sink so far has been processed.
+         virtual void flush() {}
       };
    }  // namespace internal
 }  // namespace g3
diff --git a/src/logworker.cpp b/src/logworker.cpp
index 4bda245..fa5d316 100644
--- a/src/logworker.cpp
+++ b/src/logworker.cpp
@@ -60,6 +60,7 @@ namespace g3 {
 
       // This clear is absolutely necessary
       // All sinks are forced to receive the fatal message above before we continue
+      flushSinks();
       _sinks.clear();  // flush all queues
       internal::exitWithDefaultSignalHandler(level, fatal_id);
 
@@ -67,6 +68,12 @@ namespace g3 {
       perror("g3log exited after receiving FATAL trigger. Flush message status: ");
    }
 
+   void LogWorkerImpl::flushSinks() {
+      for (auto& sink : _sinks) {
+         sink->flush();
+      }
+   }
+
    LogWorker::~LogWorker() {
       g3::internal::shutDownLoggingForActiveOnly(this);
 
-- 
2.43.0

