#include "stack.hh"

#include <cmath>
#include <cstring>
#include <getopt.h>
#include <iostream>

#include "hnco/algorithms/decorators/restart.hh"

using namespace sim;
using namespace hnco;
using namespace hnco::function;
using namespace hnco::algorithm;

namespace sim {

key_t64 key_of(const bit_vector_t& bv) {
  key_t64 k = 0;
  for (size_t i = 0; i < bv.size() && i < 128; i++) if (bv[i]) k |= key_t64(1) << i;
  return k;
}
bit_vector_t bv_of(key_t64 k, int n) {
  bit_vector_t b((size_t(n)));
  for (int i = 0; i < n; i++) b[size_t(i)] = (k >> i) & 1;
  return b;
}
std::string show(key_t64 x, int n) {
  std::string s;
  for (int i = 0; i < n; i++) s += char('0' + ((x >> i) & 1));
  return s;
}

const char* const land_names[kLandscapes] = {"onemax", "plateaus", "negative-plateaus", "constant", "needle", "real", "very-negative",
                                             "leading-ones", "rugged-sum", "large", "low-below-int", "trap", "last-digit", "tiny"};

double Landscape::operator()(key_t64 x) const {
  int w = bits_of(x);
  switch (kind) {
  case 0: return w;
  case 1: return double(mixk(seed, x) % 6);
  case 2: return -1.0 - double(mixk(seed, x) % 6);
  case 3: return double(int64_t(seed % 5)) - 2;
  case 4: return x == ((key_t64(n > 64 ? mix(seed, 78) : 0) << 64 | mix(seed, 77)) & mask_of(n)) ? 1 : 0;
  case 5: return double(mixk(seed, x) >> 11) * 0x1p-53;
  case 6: return -1e9 + w;
  case 7: { int k = 0; while (k < n && ((x >> k) & 1)) k++; return k; }
  case 8: {
    double s = 0;
    for (int i = 0; i + 1 < n; i++) s += double(int64_t(mix(seed + uint64_t(i), uint64_t(x >> i) & 3) % 2001) - 1000) / 8;
    return s;
  }
  case 9: return 1e15 + w + double(mixk(seed, x) % 3);
  case 10: return -4e9 - double(mixk(seed, x) % 1000);
  case 12: return 1 + 0x1p-52 * double(mixk(seed, x) % 64);           // values differ in their last digit only
  case 13: return 1e-13 * double(int64_t(mixk(seed, x) % 1000) - 500);
  default: return w == n ? n + 1 : n - 1 - w;
  }
}
double Landscape::max() const {
  switch (kind) {
  case 0: return n;
  case 3: return double(int64_t(seed % 5)) - 2;
  case 4: return 1;
  case 6: return -1e9 + n;
  case 7: return n;
  default: return 0;
  }
}

double SimFunction::compute(key_t64 x, int kind) {
  std::unique_ptr<par::Shield> shield(new par::Shield);
  step();
  if (_busy >= 0 && _led.isolate)
    violate("shared-function-object", "function object %d is used by thread %d while thread %d is evaluating with it", _id, par::self(), _busy);
  int64_t idx = int64_t(_led.raw.size());
  if (idx >= _led.max_raw) { count("harness-stop"); throw HarnessStop(); }
  if (idx == _led.fail_at) {
    _led.fail_at = -1;
    uint64_t c = _led.slow_us > 0 ? uint64_t(_led.slow_us) / 2 : 0;
    env::cpu_us += c;
    _led.failed_cost += double(c);
    count("fault:evaluation-failure");
    ev("fail", idx);
    throw InjectedFailure();
  }
  if (_led.fail_mod && mixk(_led.fail_mod, x) % _led.fail_mod == 0) { count("fault:evaluation-failure"); throw InjectedFailure(); }
  _busy = par::self();
  int self = par::self();
  double v = _land(x);
  _led.raw.push_back(Raw{x, v, int8_t(kind), int8_t(_id), int8_t(self)});
  _led.seen.emplace(x, int(idx));
  // an evaluation takes simulated time
  uint64_t cost = _led.slow_us > 0 ? uint64_t(1 + mix(_led.slow_seed, uint64_t(idx)) % uint64_t(_led.slow_us)) : 0;
  env::cpu_us += cost;
  _led.cost.push_back(double(cost));
  env::now_ns += cost * 1000;
  sh->sim_time += 1e-6 * double(cost ? cost : 1);
  shield.reset();
  for (int i = 0; i < 3; i++) par::yield_point(1);
  shield.reset(new par::Shield);
  uint64_t b;
  memcpy(&b, &v, 8);
  if (!par::in_region()) ev("f", int64_t(x), int64_t(b), kind);
  _busy = -1;
  return v;
}

double SimFunction::evaluate_incrementally(const bit_vector_t& x, double value, const sparse_bit_vector_t& flipped) {
  key_t64 k = key_of(x), f = 0;
  for (auto i : flipped) {
    if (int(i) >= _land.n) violate("incremental-bit-out-of-range", "incremental evaluation with flipped bit %d of %d", int(i), _land.n);
    f ^= key_t64(1) << i;
  }
  if (value != _land(k))
    violate("incremental-stale-value", "incremental evaluation starts from x=%s with value %.17g, but f(x)=%.17g", show(k, _land.n).c_str(), value, _land(k));
  return compute(k ^ f, 2);
}

// ---------------------------------------------------------------- Spy
#define SPY(TYPE, X, CALL, VAL) \
  Op op; op.type = TYPE; op.x = X; op.v = 0; op.exc = X_NONE; op.raw0 = led.raw.size(); op.thread = par::self(); \
  if (ops.size() >= max_ops) { count("harness-stop"); throw HarnessStop(); } \
  auto fin = [&]() { op.raw1 = led.raw.size(); ops.push_back(op); if (after) after(ops.back()); }; \
  try { CALL; VAL; } \
  catch (const hnco::exception::TargetReached&) { op.exc = X_TARGET; fin(); throw; } \
  catch (const hnco::exception::LastEvaluation&) { op.exc = X_LAST; fin(); throw; } \
  catch (...) { op.exc = X_OTHER; fin(); throw; } \
  fin();

double Spy::evaluate(const bit_vector_t& x) {
  SPY(EVAL, key_of(x), op.v = _f->evaluate(x), )
  return op.v;
}
double Spy::evaluate_incrementally(const bit_vector_t& x, double v, const sparse_bit_vector_t& fl) {
  key_t64 f = 0;
  for (auto i : fl) f ^= key_t64(1) << i;
  SPY(INC, key_of(x) ^ f, op.v = _f->evaluate_incrementally(x, v, fl), )
  return op.v;
}
double Spy::evaluate_safely(const bit_vector_t& x) {
  double v = _f->evaluate_safely(x);
  par::Shield shield;
  ops.push_back(Op{SAFE, key_of(x), v, X_NONE, 0, 0, par::self()});
  return v;
}
void Spy::update(const bit_vector_t& x, double v) {
  SPY(UPDATE, key_of(x), op.v = v; _f->update(x, v), )
}

// ---------------------------------------------------------------- algorithms
const std::vector<AlgInfo> ALGS = {
  // id, name, parallel evaluation, incremental evaluation, bounded by num_iterations
  {100, "random local search", false, true, true},
  {300, "(1+1) EA", false, true, true},
  {310, "(mu+lambda) EA", true, false, true},
  {320, "(mu,lambda) EA", true, false, true},
  {400, "genetic algorithm", true, false, true},
  {450, "(1+(lambda,lambda)) GA", true, false, true},
  {500, "PBIL", true, false, true},
  {501, "NPS-PBIL", true, false, true},
  {600, "UMDA", true, false, true},
  {700, "compact GA", false, false, true},
  {800, "MMAS", false, false, true},
  {200, "simulated annealing", false, false, true},
  {150, "steepest ascent hill climbing", false, false, true},
  {160, "first ascent hill climbing", false, false, true},
  {10, "random search", false, false, true},
  {20, "random walk", false, true, true},
  {0, "complete search", false, false, false},
  {301, "self-adjusting (1+1) EA", false, true, true},
  {330, "two-rate (1+lambda) EA", true, false, true},
  {340, "information-theoretic EA", true, false, true},
  {610, "RAM-UMDA", true, false, true},
  {612, "RAM-UMDA 2", true, false, true},
  {900, "HEA", true, false, true},
  {901, "HEA (triangular)", true, false, true},
  {1000, "BM-PBIL", true, false, true},
  {1001, "BM-PBIL (triangular)", true, false, true},
  {1100, "MIMIC", true, false, true},
  {1110, "HBOA", false, false, false},
  {1200, "LTGA", false, false, false},
  {1250, "GOMEA", false, false, false},
  {1300, "P3", false, false, false},
};
int alg_index(int id) { for (size_t i = 0; i < ALGS.size(); i++) if (ALGS[i].id == id) return int(i); return 0; }
const AlgInfo& plan_alg(const Plan& p) { return ALGS[size_t(p.get("alg", 0, 0, int64_t(ALGS.size()) - 1))]; }
const char* const outcome_names[] = {"returned", "budget", "target", "failure", "stopped", "error"};

std::unique_ptr<app::HncoOptions> make_options(const std::vector<std::string>& args) {
  static std::vector<std::vector<std::string>*> keep;
  auto* copy = new std::vector<std::string>(args);
  keep.push_back(copy);
  auto* argv = new std::vector<char*>;
  argv->push_back((char*)"hnco");
  for (auto& a : *copy) argv->push_back((char*)a.c_str());
  argv->push_back(nullptr);
  optind = 0;
  return std::unique_ptr<app::HncoOptions>(new app::HncoOptions(int(argv->size()) - 1, argv->data()));
}

// 330: the bounds on its rate cross below 8 bits; 1250: see KNOWN-FINDINGS.
static int64_t min_bits(int alg) { return alg == 330 ? 8 : alg == 1250 ? 3 : 2; }
static std::string num(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }

void gen_run(Plan& p, Rng& r, const GenOpts& o) {
  std::vector<int> cand;
  for (size_t i = 0; i < ALGS.size(); i++) if (!o.parallel_only || ALGS[i].parallel) cand.push_back(int(i));
  p.set("alg", r.pick(cand));
  const AlgInfo& a = plan_alg(p);
  p.set("n", r.chance(1, 8) ? r.range(2, 4) : r.range(3, o.max_n));
  p.set("land", r.range(0, kLandscapes - 1));
  p.set("lseed", r.range(0, 1000));
  p.set("seed", r.chance(1, 20) ? r.range(0, 1) : r.range(0, 1000000));
  p.set("budget", r.chance(1, 5) ? r.range(1, 12) : r.chance(1, 3) ? r.range(1, 60) : r.range(1, o.max_budget));
  p.set("pop", r.chance(1, 3) ? r.range(2, 6) : r.range(4, 24));
  p.set("sel", r.range(1, 8));
  p.set("mu", r.range(1, 8));
  p.set("lambda", r.range(1, 12));
  p.set("lr", r.range(0, 3));
  p.set("nb", r.range(0, 3));
  p.set("radius", r.range(1, 3));
  p.set("nbit", r.range(0, 1));
  p.set("flags", r.range(0, 1023));
  p.set("iters", a.iterations && r.chance(1, 5) ? r.range(1, 30) : 0);
  p.set("patience", r.range(0, 20));
  p.set("rate", r.chance(1, 3) ? r.range(1, 9) : 0);
  p.set("mode", r.range(0, 5));
  p.set("inc", a.incremental && r.chance(1, 2));
  p.set("more", r.chance(1, 3) ? 0 : r.range(0, (int64_t(1) << 40) - 1));
  p.set("algolog", 1);
  if (o.controllers) {
    p.set("cache", r.chance(1, 4));
    p.set("cachebudget", r.chance(1, 2));
    p.set("target", r.chance(1, 4) ? r.range(1, 3) : 0);
    p.set("targetpos", r.range(0, 30));
    p.set("minimize", r.chance(1, 8));
  }
  if (o.restart) p.set("restart", r.chance(1, 10));
  if (o.threads) { p.set("threads", a.parallel && r.chance(1, 3) ? r.range(2, 4) : 1); par::gen(p, r, false); }
  if (o.fail && r.chance(1, 5)) p.set("failat", r.small(0, o.max_budget));
  p.set("slow", r.chance(1, 2) ? r.range(1, 100000) : 0);
  p.set("entropy", r.range(0, 1 << 30));
  p.set("clock", r.range(0, 1 << 30));
  if (o.wide && r.chance(1, 24)) p.set("n", r.range(33, 120));
  if (o.wide && r.chance(1, 24)) { p.set("pop", r.range(24, 60)); p.set("sel", r.range(1, 30)); p.set("mu", r.range(1, 40)); p.set("lambda", r.range(1, 60)); }
  if (o.wide && r.chance(1, 60)) { p.set("budget", r.range(o.max_budget, 2000)); if (p.get("iters")) p.set("iters", r.range(30, 300)); }
  p.set("start", r.chance(1, 6) ? r.range(1, 1 << 30) : 0);
}

std::vector<std::string> run_args(const Plan& p) {
  const AlgInfo& a = plan_alg(p);
  std::vector<std::string> v;
  auto add = [&](const char* o, const std::string& x) { v.push_back(std::string("--") + o + "=" + x); };
  auto addi = [&](const char* o, int64_t x) { add(o, std::to_string(x)); };
  int64_t n = p.get("n", 8, 2, 120);
  int64_t pop = p.get("pop", 10, 2, 60), sel = p.get("sel", 1, 1, 60), flags = p.get("flags");
  addi("algorithm", a.id);
  n = std::max<int64_t>(n, min_bits(a.id));
  addi("bv-size", n);
  addi("budget", p.get("budget", 50, 0, 1000000));
  addi("seed", p.get("seed", 0, 0, 1 << 30));
  addi("num-iterations", p.get("iters", 0, 0, 1000));
  sel = std::min(sel, std::max<int64_t>(1, pop / 2));
  addi("population-size", pop);
  addi("selection-size", sel);
  int64_t mu = p.get("mu", 2, 1, 40), lam = p.get("lambda", 4, 1, 60);
  if (a.id == 320) lam = std::max(mu, lam);
  if (a.id == 330) lam = std::max<int64_t>(2, lam + lam % 2);
  if (a.id == 450) mu = std::min<int64_t>(std::max<int64_t>(2, mu), n);
  if (a.id == 400) mu = std::max<int64_t>(4, mu);
  addi("ea-mu", mu);
  addi("ea-lambda", lam);
  static const char* lr[] = {"0.001", "0.1", "0.5", "0.02"};
  add("learning-rate", lr[p.get("lr", 0, 0, 3)]);
  addi("neighborhood", p.get("nb", 0, 0, 3));
  addi("neighborhood-iterator", p.get("nbit", 0, 0, 1));
  addi("radius", std::min<int64_t>(p.get("radius", 2, 1, 4), n));
  addi("rls-patience", p.get("patience", 0, 0, 100));
  addi("sa-num-transitions", 1 + p.get("mode", 0, 0, 5) * 5);
  addi("sa-num-trials", 1 + p.get("patience", 0, 0, 40));
  if (flags & 1) v.push_back("--rls-strict");
  if (flags & 2) v.push_back("--ea-allow-no-mutation");
  if (flags & 4) v.push_back("--mmas-strict");
  if (flags & 8) v.push_back("--bm-negative-positive-selection");
  addi("bm-num-gs-steps", p.get("gs", 5, 1, 50));
  addi("bm-sampling-mode", p.get("mode", 0, 0, 5) % 3);
  addi("bm-reset-mode", p.has("bmreset") ? p.get("bmreset", 0, 0, 2) : p.get("mode", 0, 0, 5) / 3);
  add("hea-randomize-bit-order", (flags & 16) ? "true" : "false");
  add("hea-bound-moment", (flags & 32) ? "true" : "false");
  addi("hea-reset-period", (flags & 64) ? 3 : 0);
  addi("ea-it-replacement", p.get("mode", 0, 0, 5) % 5);
  addi("ram-ts-length-mode", p.get("mode", 0, 0, 5));
  addi("ram-ts-length", 3);
  // further parameters, most of them of a few algorithms each
  int64_t more = p.get("more", 0, 0, (int64_t(1) << 40) - 1);
  auto bits = [&](int n) { int64_t b = more & ((int64_t(1) << n) - 1); more >>= n; return b; };
  auto choose = [&](const char* o, std::vector<const char*> xs) { const char* x = xs[size_t(bits(xs.size() > 2 ? 2 : 1)) % xs.size()]; if (*x) add(o, x); };
  if (more) {
    choose("ram-ts-length-increment-period", {"", "1", "2", "3"});
    choose("ram-ts-length-lower-bound", {"", "2"});
    choose("ram-ts-length-upper-bound", {"", "4"});
    choose("ram-ts-length-distribution-parameter", {"", "0.5"});
    choose("ram-crossover-probability", {"", "0", "1", "0.6"});
    choose("ram-latent-space-probability", {"", "0", "1", "0.8"});
    choose("ea-crossover-bias", {"", "0.1", "0.9", "0.99"});
    choose("ea-crossover-probability", {"", "0", "1", "0.9"});
    choose("ea-success-ratio", {"", "1"});
    choose("ea-update-strength", {"", "1.5"});
    choose("ea-mutation-rate-max", {"", n >= 4 ? "0.3" : ""});
    choose("ea-mutation-rate-min", {"", "0.01"});
    choose("sa-initial-acceptance-probability", {"", "0.1"});
    choose("sa-beta-ratio", {"", "1.5"});
    choose("bm-num-gs-cycles", {"", "2"});
    addi("ea-it-initial-hamming-weight", bits(4) % (n + 1));
    if (p.get("logall", 0, 0, 1) || !p.get("algolog", 0, 0, 1)) more = 0;
    if (bits(1)) v.push_back("--ea-log-mutation-rate");
    if (bits(1)) v.push_back("--ea-it-log-center-fitness");
    if (bits(1)) { v.push_back("--pv-log-pv"); v.push_back("--pv-log-entropy"); }
    if (bits(1)) v.push_back("--rw-log-value");
  }
  if (p.get("logall", 0, 0, 1)) {
    for (auto o : {"ea-log-mutation-rate", "ea-it-log-center-fitness", "pv-log-pv", "pv-log-entropy", "rw-log-value"}) v.push_back(std::string("--") + o);
    addi("pv-log-num-components", n);
  }
  if (p.get("logint", 0, 0, 2) == 1) v.push_back("--hea-log-target");
  if (p.get("logint", 0, 0, 2) == 2)
    for (auto o : {"hea-log-delta-norm", "hea-log-herding-error", "hea-log-target-norm", "bm-log-norm-1", "bm-log-norm-infinite"}) v.push_back(std::string("--") + o);
  if (p.get("tiny", 0, 0, 1)) add("ea-mutation-rate", "0.004");
  else if (p.get("rate", 0, 0, 9)) add("ea-mutation-rate", num(0.05 * double(p.get("rate", 0, 0, 9))));
  addi("ea-tournament-size", 2 + ((flags >> 7) & 1));
  if (p.get("inc", 0, 0, 1)) v.push_back("--incremental-evaluation");
  if (p.get("cache", 0, 0, 1)) { v.push_back("--cache"); if (p.get("cachebudget", 0, 0, 1)) v.push_back("--cache-budget"); }
  if (p.get("minimize", 0, 0, 1)) v.push_back("--minimize");
  // Noise draws from the library's generator: threads would share it.
  int64_t noise = p.get("threads", 1, 1, 4) == 1 ? p.get("noise", 0, 0, 3) : 0;
  if (noise & 1) { v.push_back("--additive-gaussian-noise"); add("noise-stddev", "0.5"); }
  if (noise & 2) { v.push_back("--prior-noise"); addi("pn-neighborhood", p.get("nb", 0, 0, 3)); addi("pn-radius", 1); }
  addi("num-threads", p.get("threads", 1, 1, 4));
  if (p.get("restart", 0, 0, 1)) v.push_back("--restart");
  return v;
}

Run::Run(const Plan& p): plan(p) {
  info = &plan_alg(p);
  args = run_args(p);
  n = int(p.get("n", 8, min_bits(info->id), 120));
  budget = p.get("budget", 50, 0, 1000000);
  threads = int(p.get("threads", 1, 1, 4));
  cache = p.get("cache", 0, 0, 1);
  cache_budget = p.get("cachebudget", 0, 0, 1);
  minimize = p.get("minimize", 0, 0, 1);
  restart = p.get("restart", 0, 0, 1);
  land.kind = int(p.get("land", 0, 0, kLandscapes - 1));
  land.n = n;
  land.seed = uint64_t(p.get("lseed", 0));
  int t = int(p.get("target", 0, 0, 3));
  if (t == 1 && (!land.has_max() || minimize)) t = 2;
  if (t == 1) { on_max = has_target = true; target = land.max(); args.push_back("--stop-on-maximum"); }
  else if (t) {
    has_target = true;
    // the value of some point, so that ties with the target occur
    Rng r(uint64_t(p.get("lseed", 0)) * 31 + uint64_t(p.get("targetpos", 0)));
    key_t64 mask = mask_of(n);
    double best = truth(r.next() & mask);
    for (int i = 0; i < int(p.get("targetpos", 0, 0, 200)); i++) best = std::max(best, truth(r.next() & mask));
    target = t == 3 ? best + 0.5 : best;
    char b[64];
    snprintf(b, sizeof b, "--target=%.17g", target);
    args.push_back(b);
  }
  led.fail_at = p.get("failat", -1);
  led.slow_us = p.get("slow", 0, 0, int64_t(1) << 36);
  led.slow_seed = uint64_t(p.get("seed", 0));
  options = make_options(args);
  ff.reset(new SimFunctionFactory(land, led, p.get("inc", 0, 0, 1)));
  dff.reset(new app::DecoratedFunctionFactory(*options, *ff));
  af.reset(new app::CommandLineAlgorithmFactory(*options));
}

extern "C" void omp_set_num_threads(int);

void Run::make_functions() {
  env::on = true;
  env::entropy = uint64_t(plan.get("entropy", 1));
  env::now_ns = 1700000000ull * 1000000000ull + uint64_t(plan.get("clock", 0, 0, int64_t(1) << 40)) * 1000000ull;
  par::configure(plan);
  random::Generator::set_seed(unsigned(plan.get("seed", 0, 0, 1 << 30)));
  omp_set_num_threads(threads);
  fns.assign(size_t(threads), nullptr);
  for (auto& f : fns) { random::Generator::reset(); f = dff->make_function_modifier(); }
  fns[0] = dff->make_function_controller(fns[0]);
  tracker = dff->get_tracker();
  tracker->set_record_bit_vector(true);
  spy = new Spy(fns[0], led);
  fns[0] = spy;
}

void Run::make_algorithm() {
  algorithm = af->make(fns[0]->get_bv_size());
  log_context = new logging::ProgressTrackerContext(tracker);
  algorithm->set_log_context(log_context);
  if (int64_t k = plan.get("start", 0, 0, 1 << 30)) {
    Rng g{uint64_t(k)};
    bit_vector_t x(size_t(n), 0);
    for (auto& b : x) b = bit_t(g.range(0, 1));
    bool set = true;
    if (auto* a = dynamic_cast<hnco::algorithm::LocalSearchAlgorithm<neighborhood::Neighborhood>*>(algorithm)) { a->set_random_initialization(false); a->set_starting_point(x); }
    else if (auto* b = dynamic_cast<hnco::algorithm::LocalSearchAlgorithm<neighborhood::NeighborhoodIterator>*>(algorithm)) { b->set_random_initialization(false); b->set_starting_point(x); }
    else set = false;
    if (set) { has_start = true; start = key_of(x); count("starting point given"); }
  }
  if (restart) algorithm = new Restart(algorithm);
}

Outcome Run::maximize() {
  try {
    algorithm->maximize(fns);
    return RETURNED;
  }
  catch (const hnco::exception::TargetReached&) { return TARGET; }
  catch (const hnco::exception::LastEvaluation&) { return BUDGET; }
  catch (const InjectedFailure&) { return FAILURE; }
  catch (const HarnessStop&) { return STOPPED; }
  catch (const std::exception& e) { error = e.what(); return ERROR; }
}
bool Run::finalize() {
  try { algorithm->finalize(); finalized = true; return true; }
  catch (const std::exception& e) { error = e.what(); return false; }
  catch (const InjectedFailure&) { error = "injected"; return false; }
  catch (const HarnessStop&) { error = "stop"; return false; }
}

MinDist::MinDist(int n_, double q, bool allow): n(n_) {
  double p[5], c = 1;
  for (int k = 0; k < 5; k++) p[k] = k > n ? 0 : std::exp(std::lgamma(n + 1) - std::lgamma(k + 1) - std::lgamma(n - k + 1)) * std::pow(q, k) * std::pow(1 - q, n - k);
  if (!allow) { c = 1 - p[0]; p[0] = 0; }
  // tail[t]: probability of at least t flips, rounded up
  double sum = 0;
  for (int t = 0; t < 5; t++) { tail[t] = std::max(1e-12, 1 - sum) ; if (c > 0) sum += p[t] / c; tail[t] = std::min(1.0, tail[t] * (1 + 1e-6) + 1e-12); }
}

void cover_run(const Run& r, Outcome o) {
  cover(mix(uint64_t(r.info->id), mix(uint64_t(o), mix(uint64_t(r.land.kind), r.led.raw.size()))));
  cover(mix(uint64_t(r.cache) | uint64_t(r.cache_budget) << 1 | uint64_t(r.has_target) << 2 | uint64_t(r.restart) << 3, uint64_t(r.threads)));
}

} // namespace sim
