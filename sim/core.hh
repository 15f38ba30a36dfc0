// Core of the deterministic simulator: plans, the PRNG, the per-run context, the run/minimise/replay machinery.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1): s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  int64_t range(int64_t a, int64_t b) { return b <= a ? a : a + int64_t(next() % uint64_t(b - a + 1)); }
  bool chance(int num, int den) { return range(0, den - 1) < num; }
  template<class T> const T& pick(const std::vector<T>& v) { return v[size_t(range(0, int64_t(v.size()) - 1))]; }
  // Skewed towards small values, with a tail up to b.
  int64_t small(int64_t a, int64_t b) {
    switch (range(0, 3)) {
    case 0: return range(a, std::min(b, a + 2));
    case 1: return range(a, std::min(b, a + 8));
    case 2: return range(a, std::min(b, a + 40));
    default: return range(a, b);
    }
  }
};
uint64_t mix(uint64_t a, uint64_t b);
uint64_t hash_str(const std::string&);

// ---------------------------------------------------------------- Plans
// A plan is everything one simulated run depends on. Keys starting with "L<w>." hold lists of w-tuples
// (operations, faults, context switches): minimisation drops tuples. Other keys are scalars. Executors clamp
// every value they read, so that every plan, however shrunk, is a legal run.
struct Plan {
  std::map<std::string, std::vector<int64_t>> m;
  bool has(const std::string& k) const { return m.count(k) > 0; }
  int64_t get(const std::string& k, int64_t def = 0) const {
    auto it = m.find(k);
    return it == m.end() || it->second.empty() ? def : it->second[0];
  }
  int64_t get(const std::string& k, int64_t def, int64_t lo, int64_t hi) const {
    int64_t v = get(k, def);
    return v < lo ? lo : v > hi ? hi : v;
  }
  void set(const std::string& k, int64_t v) { m[k] = {v}; }
  const std::vector<int64_t>& list(const std::string& k) const {
    static const std::vector<int64_t> empty;
    auto it = m.find(k);
    return it == m.end() ? empty : it->second;
  }
  std::vector<int64_t>& mut(const std::string& k) { return m[k]; }
  std::string text() const;
  static Plan parse(const std::string&);
};

// ---------------------------------------------------------------- Per-run context (lives in shared memory)
const int kMaxCounters = 200;
const int kMaxSwitches = 60000;
struct Counter { char name[44]; uint64_t n; };
struct Shared {
  int done;               // the executor finished
  int violated;
  char cls[160];          // violation class: what minimisation preserves
  char detail[2400];
  uint64_t hash;          // hash of the event log
  uint64_t cover;         // signature of the states or interleaving reached
  uint64_t steps;         // simulator events
  double sim_time;        // simulated seconds
  int nontrivial;         // the run exercised the property (its rule is in the evidence)
  int ncounters;
  Counter counters[kMaxCounters];
  int nswitches;          // context switches taken (pairs yield index, thread)
  int32_t switches[2 * kMaxSwitches];
};
extern Shared* sh;
extern FILE* trace;       // non-null when a readable event log is wanted

void ev(const char* tag, int64_t a = 0, int64_t b = 0, int64_t c = 0);
void evd(const char* tag, double a, double b = 0);
void cover(uint64_t h);
void count(const char* name, uint64_t n = 1);
uint64_t counter(const char* name);
inline void nontrivial() { sh->nontrivial = 1; }
[[noreturn]] void violate(const std::string& cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// One simulator event; a run that takes more than the limit has lost liveness.
extern uint64_t step_limit;
void step();

// Run f in a forked copy of this process; the return value is the wait status. Its output and error streams go to
// memory files whose content is returned.
struct Sub { int status = 0; std::string out, err; bool exited() const; int code() const; int sig() const; };
Sub run_sub(const std::function<void()>& f, const std::string& input = "", bool input_null = true, double cpu = 0);

// ---------------------------------------------------------------- Properties
struct Prop {
  const char* id;
  bool inst;              // decided by the instrumented simulator
  bool nondet;            // the violation itself may be nondeterminism: the replay must reproduce the class only
  Plan (*gen)(Rng&, int index, bool thorough);
  void (*exec)(const Plan&);
};
std::vector<Prop>& props();
struct Register { Register(const Prop& p) { props().push_back(p); } };

// ---------------------------------------------------------------- Environment under simulator control
namespace env {
extern bool on;                    // clocks, entropy and allocation are simulated
extern uint64_t now_ns;            // wall clock
extern uint64_t cpu_us;            // process CPU clock, as clock() reports it
extern uint64_t entropy;           // what random_device and friends draw from
extern int64_t clock_tick_us;      // how much each clock() call itself advances CPU time
extern int64_t alloc_fail_at;      // the n-th allocation from now fails (< 0: never)
extern int64_t alloc_count;
extern uint64_t alloc_limit;       // single allocations above this fail
extern int64_t alloc_fired;
}

} // namespace sim
