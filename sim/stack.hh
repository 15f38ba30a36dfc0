// The system under test for algorithm-level properties: real options, factories, controllers and algorithms around a
// simulated objective function.
#pragma once
#include <algorithm>
#include <cmath>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

#include "core.hh"
#include "par.hh"

#include "hnco/algorithms/all.hh"
#include "hnco/app/algorithm-factory.hh"
#include "hnco/app/decorated-function-factory.hh"
#include "hnco/app/function-factory.hh"
#include "hnco/app/hnco-options.hh"
#include "hnco/functions/all.hh"
#include "hnco/logging/log-context.hh"
#include "hnco/random.hh"

namespace sim {

typedef unsigned __int128 key_t64;       // a bit vector of up to 128 bits
struct KeyHash { size_t operator()(key_t64 k) const { return size_t(mix(uint64_t(k), uint64_t(k >> 64))); } };
inline int bits_of(key_t64 k) { return __builtin_popcountll(uint64_t(k)) + __builtin_popcountll(uint64_t(k >> 64)); }
inline uint64_t mixk(uint64_t a, key_t64 k) { uint64_t h = mix(a, uint64_t(k)); return k >> 64 ? mix(h, uint64_t(k >> 64)) : h; }
inline key_t64 mask_of(int n) { return n >= 128 ? ~key_t64(0) : (key_t64(1) << n) - 1; }
key_t64 key_of(const hnco::bit_vector_t& bv);
hnco::bit_vector_t bv_of(key_t64 k, int n);

// ---------------------------------------------------------------- simulated objective functions
const int kLandscapes = 14;
extern const char* const land_names[kLandscapes];
struct Landscape {
  int kind = 0, n = 1;
  uint64_t seed = 0;
  double operator()(key_t64 x) const;
  bool has_max() const { return kind == 0 || kind == 3 || kind == 4 || kind == 6 || kind == 7; }
  double max() const;
};

struct InjectedFailure { };       // thrown by the objective function at the planned evaluation
struct HarnessStop { };           // thrown when the run is long enough

struct Raw { key_t64 x; double v; int8_t kind; int8_t fn; int8_t thread; };   // kind 0 evaluate, 1 safe, 2 incremental

struct Ledger {
  std::vector<Raw> raw;                        // every computation of the objective, in order
  std::unordered_map<key_t64, int, KeyHash> seen;       // point -> index of its first computation
  uint64_t fail_mod = 0;                       // points whose hash is divisible by this fail (0: none)
  int64_t fail_at = -1;                        // the evaluation with that index fails
  int64_t slow_us = 0;                         // simulated cost of an evaluation
  uint64_t slow_seed = 0;
  bool isolate = true;
  std::vector<double> cost;                     // simulated microseconds of each computation
  double failed_cost = 0;
  int64_t max_raw = 60000;
};

class SimFunction: public hnco::function::Function {
  Landscape _land;
  Ledger& _led;
  int _id;
  bool _inc;
  int _busy = -1;
  double compute(key_t64 x, int kind);
public:
  SimFunction(const Landscape& l, Ledger& led, int id, bool inc): _land(l), _led(led), _id(id), _inc(inc) {}
  int get_bv_size() const override { return _land.n; }
  double get_maximum() const override { if (_land.has_max()) return _land.max(); throw std::runtime_error("SimFunction: unknown maximum"); }
  bool has_known_maximum() const override { return _land.has_max(); }
  bool provides_incremental_evaluation() const override { return _inc; }
  double evaluate(const hnco::bit_vector_t& x) override { return compute(key_of(x), 0); }
  double evaluate_safely(const hnco::bit_vector_t& x) override { return compute(key_of(x), 1); }
  double evaluate_incrementally(const hnco::bit_vector_t& x, double value, const hnco::sparse_bit_vector_t& flipped) override;
};

// ---------------------------------------------------------------- history at the top of the controller stack
enum OpType { EVAL = 0, INC = 1, SAFE = 2, UPDATE = 3 };
enum Exc { X_NONE = 0, X_LAST = 1, X_TARGET = 2, X_OTHER = 3 };
struct Op { int type; key_t64 x; double v; int exc; size_t raw0, raw1; int thread; };

class Spy: public hnco::function::Function {
  hnco::function::Function* _f;
public:
  std::vector<Op> ops;
  size_t max_ops = 100000;
  Ledger& led;
  std::function<void(const Op&)> after;     // invariant checked after each operation
  Spy(hnco::function::Function* f, Ledger& l): _f(f), led(l) {}
  int get_bv_size() const override { return _f->get_bv_size(); }
  double get_maximum() const override { return _f->get_maximum(); }
  bool has_known_maximum() const override { return _f->has_known_maximum(); }
  bool provides_incremental_evaluation() const override { return _f->provides_incremental_evaluation(); }
  double evaluate(const hnco::bit_vector_t& x) override;
  double evaluate_incrementally(const hnco::bit_vector_t& x, double v, const hnco::sparse_bit_vector_t& fl) override;
  double evaluate_safely(const hnco::bit_vector_t& x) override;
  void update(const hnco::bit_vector_t& x, double v) override;
  void display(std::ostream& s) const override { _f->display(s); }
  void describe(const hnco::bit_vector_t& x, std::ostream& s) override { _f->describe(x, s); }
};

// ---------------------------------------------------------------- algorithms
struct AlgInfo { int id; const char* name; bool parallel; bool incremental; bool iterations; };
extern const std::vector<AlgInfo> ALGS;
int alg_index(int id);

enum Outcome { RETURNED = 0, BUDGET = 1, TARGET = 2, FAILURE = 3, STOPPED = 4, ERROR = 5 };
extern const char* const outcome_names[];

class SimFunctionFactory: public hnco::app::FunctionFactory {
  Landscape _l; Ledger& _led; bool _inc; int _next = 0;
public:
  SimFunctionFactory(const Landscape& l, Ledger& led, bool inc): _l(l), _led(led), _inc(inc) {}
  hnco::function::Function* make() override { return new SimFunction(_l, _led, _next++, _inc); }
};

struct Run {
  Plan plan;
  std::vector<std::string> args;
  const AlgInfo* info = nullptr;
  int n = 0, threads = 1;
  int64_t budget = 0;
  bool cache = false, cache_budget = false, has_target = false, on_max = false, minimize = false, restart = false;
  double target = 0;
  Landscape land;
  Ledger led;
  std::unique_ptr<hnco::app::HncoOptions> options;
  std::unique_ptr<SimFunctionFactory> ff;
  std::unique_ptr<hnco::app::DecoratedFunctionFactory> dff;
  std::unique_ptr<hnco::app::CommandLineAlgorithmFactory> af;
  hnco::logging::LogContext* log_context = nullptr;
  std::vector<hnco::function::Function*> fns;
  Spy* spy = nullptr;
  hnco::function::controller::ProgressTracker* tracker = nullptr;
  hnco::algorithm::Algorithm* algorithm = nullptr;
  std::string error;
  bool finalized = false, has_start = false;
  key_t64 start = 0;                     // the starting point given to a local search

  explicit Run(const Plan& p);
  void make_functions();                 // as the application does
  void make_algorithm();
  Outcome maximize();                    // one call of maximize
  bool finalize();                       // false if it failed
  double truth(key_t64 x) const { double v = land(x); return minimize ? -v : v; }
};

struct GenOpts { bool parallel_only = false; bool no_self_stop = false; int max_n = 24; int64_t max_budget = 400; bool many_algs = true; bool controllers = true; bool fail = false; bool restart = true; bool threads = true; bool wide = false; };
void gen_run(Plan& p, Rng& r, const GenOpts& o);
std::vector<std::string> run_args(const Plan& p);
void cover_run(const Run& r, Outcome o);
const AlgInfo& plan_alg(const Plan& p);
std::string show(key_t64 x, int n);

// Evidence that mutants are too far from every possible parent. Each entry is a likelihood-ratio martingale: as long as the
// number of bits flipped is binomial, the mean of its exponential is at most one, whatever the parents chosen.
struct MinDist {
  int n; double tail[5]; double l[8] = {0, 0, 0, 0, 0, 0, 0, 0};
  MinDist(int n, double q, bool allow);
  void add(int d) { for (int i = 0; i < 8; i++) { double w = i < 4 ? 0.5 : 0.05, t = tail[i % 4 + 1]; if (t > 1e-300 && t < 1) l[i] += std::log(1 - w + (d > i % 4 ? w / t : 0)); } }
  double top() const { return *std::max_element(l, l + 8); }
};

// Parse options from a vector of strings as the command line would be.
std::unique_ptr<hnco::app::HncoOptions> make_options(const std::vector<std::string>& args);

} // namespace sim
