// Deterministic, choice-driven thread scheduler (one runnable thread at a time).
//
// Code under test is compiled with -fsanitize=thread, but linked against the stubs in sched.cpp instead of the TSan
// runtime, so every memory access and atomic operation of the code under test is a possible preemption point.  The
// pthread primitives, std::future's futex, call_once, static-init guards, sleeps and yields are replaced by models.
// All decisions come from the pbt choice stream, so a schedule is replayable and shrinkable.  Blocking is modelled, so a
// deadlock ("no thread can run") is detected exactly, without timeouts.
#pragma once
#include "pbt.hpp"

namespace sched {
#ifdef USE_SCHED
constexpr bool kActive = true;
void begin(pbt::Source& s);   // calling thread becomes managed thread 0
void end();                   // all other managed threads must have been joined (or be parked forever)
bool active();
void point();                 // explicit preemption point
// deadlock => pbt::fail unless this is cleared
void deadlock_is_failure(bool b);
uint64_t steps();
uint64_t switches();
int live_threads();           // managed threads not yet finished
void label_stats();
void detect_races(bool b);     // before begin(): happens-before race and freed-memory detection
#else
constexpr bool kActive = false;
inline void begin(pbt::Source&) {}
inline void end() {}
inline bool active() { return false; }
inline void point() {}
inline void deadlock_is_failure(bool) {}
inline uint64_t steps() { return 0; }
inline uint64_t switches() { return 0; }
inline int live_threads() { return 0; }
inline void label_stats() {}
inline void detect_races(bool) {}
#endif
}  // namespace sched
