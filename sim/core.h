// Simulator core: choice tapes, event trace, outcome record, scenario registry.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- choice tapes
// Every nondeterministic decision of a run is one value drawn from one of three
// tapes. In a seeded run the values come from splitmix64(seed, tape); they are
// recorded in memory shared with the parent, so a crashed run still has them. In a
// replay the values come from the file; past its end every draw is 0, the simplest
// choice.
enum Tape { GEN = 0, FAULT = 1, SCHED = 2, NTAPES = 3 };
uint32_t draw(Tape t, uint32_t n);                       // 0..n-1
inline uint32_t gen(uint32_t n) { return draw(GEN, n); }
inline uint32_t flt(uint32_t n) { return draw(FAULT, n); }
inline int range(Tape t, int lo, int hi) { return lo + int(draw(t, uint32_t(hi - lo + 1))); }
inline bool chance(Tape t, uint32_t num, uint32_t den) { return draw(t, den) >= den - num; }  // 0 means no
template <class V> const typename V::value_type& pick(Tape t, const V& v) { return v[draw(t, uint32_t(v.size()))]; }

// ---------------------------------------------------------------- trace / outcome
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));     // part of the hash
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));    // trace only, not hashed
void mix(uint64_t v);                                                      // into the hash only
void mixBytes(const void* p, size_t n);
[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harnessError(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void count(const char* name, uint64_t n = 1);            // fault kinds, probes
void state(uint64_t sig);                                // state / interleaving reached
void advance(uint64_t ns);                               // simulated clock
uint64_t now();
uint64_t runSeed();
bool verbose();
bool thorough();
#define SIM_CHECK(c, cls, ...) do { if (!(c)) ::sim::violation(cls, __VA_ARGS__); } while (0)

std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull);

// ---------------------------------------------------------------- sub-processes
// Runs f in a forked child that shares the simulated disk and the run record.
// Returns the wait status decoded: >=0 exit code, -sig for a signal.
// Exit code 77 is reserved for a simulated crash.
int subprocess(const std::function<int()>& f, std::string* out = nullptr);
constexpr int CRASH_EXIT = 77;
void symbols(void** addresses, int k, int skip, char* out, size_t n);   // "f < g < h"
void* sharedAlloc(size_t n);                             // zygote-time only: survives forks

// ---------------------------------------------------------------- scenarios
struct Scenario {
    const char* prop;
    const char* name;
    void (*fn)();
    int weight;
};
std::vector<Scenario>& scenarios();
struct Reg {
    Reg(const char* p, const char* n, void (*f)(), int w = 1) { scenarios().push_back({p, n, f, w}); }
};
#define SCENARIO(prop, name, weight)                                   \
    static void scn_##prop##_##name();                                 \
    static ::sim::Reg reg_##prop##_##name(#prop, #name, scn_##prop##_##name, weight); \
    static void scn_##prop##_##name()

void eckitInit();      // eckit::Main::initialise once per process
void resetStep();      // reset of per-run budgets
void step(uint64_t n = 1);   // progress budget: past the limit the run is a hang

extern uint8_t memFill;                  // fill byte for fresh memory this run
}  // namespace sim
