// H33: no point is out of reach.
#include "stack.hh"
#include "hnco/multiobjective/algorithms/nsga2.hh"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <set>
using namespace sim;
using namespace hnco;

namespace {

// Algorithms from which any point can follow any other, and those that start from a random point each time they are restarted.
const int kGlobal[] = {0, 10, 20, 300, 301, 310, 320, 330, 340, 400, 450, 500, 501, 600, 610, 612, 700, 800, 1100, 1250, 1300};
const int kLocal[] = {100, 150, 160, 200, 1110, 1200};

struct MoFlat: multiobjective::function::Function {
  Landscape a, b;
  size_t all = 0, calls = 0;
  int64_t fail_at = -1;
  std::set<key_t64> seen;
  int get_bv_size() const override { return a.n; }
  int get_output_size() const override { return 2; }
  void evaluate(const bit_vector_t& x, multiobjective::function::value_t& v) override {
    step();
    if (int64_t(calls++) == fail_at) { count("fault:evaluation-failure"); throw InjectedFailure(); }
    key_t64 k = key_of(x);
    v = {a(k), b(k)};
    seen.insert(k);
    ev("mo", int64_t(k));
    if (seen.size() == all || calls > 40000) throw HarnessStop();
  }
};

Plan gen33(Rng& r, int, bool) {
  Plan p;
  GenOpts o;
  gen_run(p, r, o);
  bool local = r.chance(1, 4);
  size_t k = local ? r.pick(std::vector<int>(std::begin(kLocal), std::end(kLocal))) : r.pick(std::vector<int>(std::begin(kGlobal), std::end(kGlobal)));
  for (size_t i = 0; i < ALGS.size(); i++) if (ALGS[i].id == int(k)) p.set("alg", int64_t(i));
  p.set("restart", local);
  for (auto key : {"target", "cache", "cachebudget", "noise", "rate", "more", "start"}) p.set(key, 0);
  if (!plan_alg(p).parallel) p.set("threads", 1);
  if (!plan_alg(p).incremental) p.set("inc", 0);
  p.set("iters", local ? r.range(1, 20) : 0);
  bool flat = r.chance(1, 2);
  if (flat) p.set("land", r.chance(1, 2) ? 3 : 4);
  p.set("n", r.range(2, flat ? 4 : 3));
  if (k == 20 && p.get("nb") == 3) p.set("nb", 1);
  if (k == 301) p.set("n", r.range(2, 3));
  p.set("budget", 40000);
  p.set("failat", r.chance(1, 3) ? r.range(0, 40) : -1);
  p.set("nsga2", r.chance(1, 25));
  return p;
}
void exec33_mo(const Plan& p) {
  MoFlat f;
  f.a.n = f.b.n = int(p.get("n", 3, 2, 4));
  f.a.kind = int(p.get("land", 3, 0, kLandscapes - 1));
  f.b.kind = f.a.kind == 3 || f.a.kind == 4 ? 3 : 5;
  f.a.seed = uint64_t(p.get("lseed", 0));
  f.b.seed = f.a.seed + 1;
  f.all = size_t(1) << f.a.n;
  f.fail_at = p.get("failat", -1);
  random::Generator::set_seed(unsigned(p.get("seed", 0, 0, 1 << 30)));
  multiobjective::algorithm::Nsga2 alg(f.a.n, 2, int(p.get("pop", 10, 3, 60)));
  alg.set_tournament_size(2);
  alg.set_crossover_probability(double(p.get("mode", 0, 0, 5)) / 5);
  alg.set_mutation_rate(1.0 / f.a.n);
  alg.set_num_iterations(100000);
  std::vector<multiobjective::function::Function*> fs{&f};
  for (int turn = 0; turn < 2; turn++) {
    try { alg.minimize(fs); } catch (const InjectedFailure&) { continue; } catch (const HarnessStop&) { }
    break;
  }
  ev("seen", int64_t(f.seen.size()), int64_t(f.calls));
  cover(mix(mix(7, uint64_t(f.a.kind)), f.calls));
  if (f.seen.size() != f.all) violate("out-of-reach:nsga2", "after %zu evaluations NSGA-II has seen %zu of the %zu points", f.calls, f.seen.size(), f.all);
  nontrivial();
}
void exec33(const Plan& p0) {
  Plan p = p0;
  // whatever the minimiser leaves of a plan, only searches that get everywhere are judged
  int id = plan_alg(p).id;
  bool local = std::count(std::begin(kLocal), std::end(kLocal), id);
  if (!local && !std::count(std::begin(kGlobal), std::end(kGlobal), id)) return;
  bool flat = p.get("land", 3, 0, kLandscapes - 1) == 3 || p.get("land", 3, 0, kLandscapes - 1) == 4;
  p.set("n", p.get("n", 3, 2, flat && id != 301 ? 4 : 3));
  if (p.get("nsga2", 0, 0, 1)) return exec33_mo(p);
  for (auto key : {"target", "cache", "cachebudget", "noise", "rate", "tiny", "more", "start"}) p.set(key, 0);
  p.set("restart", local);
  p.set("iters", local ? p.get("iters", 1, 1, 20) : 0);
  if (id == 20 && p.get("nb") == 3) p.set("nb", 1);
  p.set("budget", 40000);
  Run r(p);
  r.make_functions();
  size_t all = size_t(1) << r.n;
  r.spy->after = [&](const Op&) { if (r.led.seen.size() == all) throw HarnessStop(); };
  r.make_algorithm();
  Outcome o = r.maximize();
  if (o == FAILURE) o = r.maximize();      // an evaluation failed: the run is started again
  ev("seen", int64_t(r.led.seen.size()), int64_t(r.led.raw.size()));
  count(outcome_names[o]);
  cover_run(r, o);
  uint64_t sig = uint64_t(r.info->id);
  for (auto& e : r.led.raw) sig = mix(sig, uint64_t(e.x));
  cover(sig);
  if (r.led.seen.size() != all) violate("out-of-reach:" + std::to_string(r.info->id), "after %zu evaluations %s has seen %zu of the %zu points", r.led.raw.size(), r.info->name, r.led.seen.size(), all);
  nontrivial();
}
Register R33(Prop{"H33", false, false, gen33, exec33});
} // namespace
