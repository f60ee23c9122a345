// Deterministic simulation core: choice streams, tracked heap, trace hash,
// violations, counters.  One run is a pure function of (world, property,
// choice streams); the choice streams are a pure function of the seed.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <queue>
#include <functional>
#include <algorithm>

namespace dst {

enum Stream { CFG = 0, APP, NET, SCHED, DATA, AUX, STREAM_COUNT };

// Properties as a bit set: P(1) is C01.
constexpr uint32_t P(int n) { return 1u << n; }
constexpr uint32_t ALL = 0xffffffffu;

struct Violation {
    std::string kind;
    std::string msg;
};

// Thrown to end a run early without a violation.
struct RunEnd {};

// --- choices -----------------------------------------------------------
// Returns a value in [0, n).  0 is by convention the simplest choice
// (no fault, stop, default): the minimiser drives choices towards 0.
uint32_t draw(Stream s, uint32_t n);
// true with probability num/den; choice 0 means false.
inline bool chance(Stream s, uint32_t num, uint32_t den) {
    if (num == 0) { return false; }
    uint32_t v = draw(s, den);
    return v >= den - std::min(num, den);
}
inline int range(Stream s, int lo, int hi) { return lo + (int) draw(s, (uint32_t) (hi - lo + 1)); }
// 32-bit value: mostly "interesting" ones
uint32_t draw_u32(Stream s);
template <typename T> T pick(Stream s, std::initializer_list<T> l) { return *(l.begin() + draw(s, (uint32_t) l.size())); }

// --- run state ---------------------------------------------------------
int target();                 // the property number being checked (1 = C01)
bool verbose();
extern int64_t trace_now;    // simulated time shown in traces, ns (-1: none)               // a replay with a printed trace
void note(char const * fmt, ...) __attribute__((format(printf, 1, 2)));
// record one simulated event: goes into the run's hash (and the trace)
void ev(char const * name, int64_t a = 0, int64_t b = 0, int64_t c = 0, int64_t d = 0);
// A property violation.  Throws when the target property is in props,
// otherwise only counts (and the run goes on).
void violate(uint32_t props, char const * kind, char const * fmt, ...) __attribute__((format(printf, 3, 4)));
// one simulated step: bounded, see set_step_limit
void step(void);
void set_step_limit(uint64_t limit);
uint64_t steps(void);
void sim_time(int64_t ns);    // add simulated time covered
void fault(char const * name, uint64_t n = 1);  // a fault that actually fired
void probe(char const * name, uint64_t n = 1);  // a rare situation that was reached
void cover(uint64_t h);       // an abstract state reached
void nontrivial(void);        // this run exercised what its world is about

uint64_t mix(uint64_t x);
inline uint64_t mix2(uint64_t a, uint64_t b) { return mix(a * 0x9e3779b97f4a7c15ull + mix(b)); }

// small deterministic generator for derived data (payloads...)
struct Prng {
    uint64_t s;
    explicit Prng(uint64_t seed) : s(mix(seed)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    uint32_t below(uint32_t n) { return (uint32_t) (next() % n); }
};

// --- heap --------------------------------------------------------------
struct HeapStats { size_t live_blocks, live_bytes; uint64_t allocs, frees, failed; };
HeapStats heap();
// decides whether an allocation fails: called for malloc and calloc of the
// code under test.  Cleared at the start of each run.
void heap_fail_hook(std::function<bool(size_t)> fn);
void * heap_alloc(size_t sz);    // from the harness, same tracked heap
void heap_free(void * p);
bool heap_owns(void * p, size_t sz);  // p..p+sz lies in one live block

// expect_fatal: run fn, and report whether the code under test asserted.
bool asserts(std::function<void()> fn);
// sees each assertion before it ends the code under test.  Cleared at the start of each run.
void fatal_hook(void (*fn)(char const * file, int line, char const * msg));

// --- tasks ---------------------------------------------------------------
// Runs the functions as cooperative tasks, each on a stack of its own; the
// seeded scheduler may switch between them in every step(), so also inside
// callbacks of the code under test.  Returns when all of them have returned.
// With one function it is just called.  At most 3, and never nested.
void tasks(std::vector<std::function<void()>> const & fns);
int task();                      // the number of the running task
// a reference to a pointer of the running task
void * & task_local();

// --- worlds ------------------------------------------------------------
struct Scenario { char const * name; int prop; std::function<void()> fn; };
struct World {
    char const * name;
    std::vector<int> props;
    void (*run)();
    std::vector<Scenario> scenarios;
};
extern World const world;  // defined by each world

}  // namespace dst
