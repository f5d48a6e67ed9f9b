// A small property-based testing framework.
//
// A case is a pure function of a stream of choices (Hypothesis style): in search mode the choices come from a
// PRNG seeded from VERIF_SEED, in replay mode from a recorded byte string (exhausted stream => zeros, and zero always
// means "the simplest alternative").  The canonical value of every choice is recorded in shared memory, so it survives the
// death of the process that runs the case; failures are shrunk on the recorded bytes.
//
// Cases run in forked workers, `batch` cases per worker; a crash, a hang or an explicit failure of the case is seen by the
// supervising process, which replays it in fresh processes before it is believed, and shrinks it.
#pragma once
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

namespace pbt {

constexpr size_t kRecCap = 1u << 18;
constexpr size_t kMsgCap = 16384;
constexpr int kMaxLabels = 96;
constexpr int kMaxSamples = 6;
constexpr size_t kSampleCap = 1600;
constexpr size_t kHashCap = 1u << 20;

struct Shared {
   std::atomic<uint64_t> heartbeat;
   std::atomic<uint64_t> cases;      // finished cases
   std::atomic<uint64_t> started;
   std::atomic<uint64_t> nontrivial; // finished non-trivial ones (not distinct)
   std::atomic<uint64_t> discarded;  // inconclusive/discarded
   std::atomic<uint32_t> rec_len;
   std::atomic<uint32_t> failed;
   std::atomic<uint32_t> inconclusive;
   std::atomic<uint32_t> shape_len;  // prefix of rec that is case shape (informative)
   uint8_t rec[kRecCap];
   char msg[kMsgCap];
   char desc[kMsgCap];
   std::atomic<uint32_t> nlabels;
   char label_name[kMaxLabels][64];
   std::atomic<uint64_t> label_count[kMaxLabels];
   std::atomic<uint32_t> nsamples;
   char samples[kMaxSamples][kSampleCap];
   std::atomic<uint64_t> nhashes;
   uint64_t hashes[kHashCap];
   std::atomic<uint32_t> user_lock;
   uint8_t user[1 << 20];            // scratch shared memory for harnesses
};

extern Shared* shm;

struct Source {
   const uint8_t* data = nullptr;
   size_t n = 0, pos = 0;
   bool random = false;
   uint64_t rng[2];
   // All members are defined in pbt.cpp: they must not be compiled with instrumentation.
   uint64_t nextrand();
   uint64_t below(uint64_t lim);      // uniform value in [0, lim); lim == 0 means full 64 bit range
   void record(uint64_t v, int bytes);
   int64_t range(int64_t lo, int64_t hi);
   bool boolean();
   bool chance(unsigned num, unsigned den);  // true with probability num/den; simplest is false
   template <class T>
   const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
   size_t size(size_t max);  // small-biased size in [0, max]
};

// --- called by harnesses -------------------------------------------------------------------------------------------
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void inconclusive(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // gives up on this case, never an alarm
void label(const char* name, uint64_t add = 1);
void nontrivial();                                   // this case is non-trivial
bool is_nontrivial();
void describe(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // appended to the case description
void describe_str(const std::string& s);
void beat();
uint64_t case_index();
bool thorough();
bool verbose();
const char* scratch();                               // per-shard scratch directory, exists, removed at the end
std::string show(const std::string& s, size_t max = 200);  // printable rendering

// --- supplied by harnesses -----------------------------------------------------------------------------------------
// Run one case.  Returns normally when the property held.
}  // namespace pbt
void pbt_case(pbt::Source& s);
void pbt_init();                                     // once in every worker process before the first case
extern const char* pbt_rule;                         // what makes a case non-trivial
extern int pbt_default_batch;                        // cases per worker process (1 = fork per case)
extern double pbt_hang_s;                            // no heartbeat for this long = hang
extern bool pbt_hang_is_violation;                   // does a confirmed hang violate the property

#define PBT_ASSERT(cond, ...)            \
   do {                                  \
      if (!(cond)) ::pbt::fail(__VA_ARGS__); \
   } while (0)
