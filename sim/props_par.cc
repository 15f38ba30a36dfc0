// Parallel evaluation: real populations and algorithms on simulated threads.
#include "hist.hh"
#include "stack.hh"
#include "vdisk.hh"
#include "zoo.hh"
#include "hnco/algorithms/population.hh"
#include "hnco/multiobjective/algorithms/population.hh"
#include "hnco/multiobjective/app/function-factory.hh"
#include "hnco/multiobjective/app/hnco-mo-options.hh"
#include <cmath>
#include <getopt.h>
#include <unistd.h>
using namespace sim;
using namespace hnco;
extern "C" void omp_set_num_threads(int);

namespace {

Plan gen01(Rng& r, int index, bool t) {
  Plan p;
  static int tsp = -1;
  if (tsp < 0) for (size_t i = 0; i < ZOO.size(); i++) if (!strcmp(ZOO[i].name, "Tsp")) tsp = int(i);
  if (index <= 1) {             // the known findings, always shown
    p.set("driver", 1); p.set("zoo", index ? tsp : 0); p.set("n", 6); p.set("seed", 1); p.set("threads", 2); p.set("size", 4); p.set("noise", index ? 0 : 1); p.set("sched.mode", 1); p.set("sched.seed", 3); p.set("sched.period", 10);
    return p;
  }
  if (r.chance(1, 3)) {
    p.set("driver", 1);
    do p.set("zoo", r.range(0, int64_t(ZOO.size()) - 1)); while (p.get("zoo") == tsp && !r.chance(1, 30));
    p.set("n", r.range(2, t ? 24 : 14));
    p.set("seed", r.range(1, 1000000));
    p.set("mods", r.chance(1, 2) ? r.range(1, 1000000) : 0);
    p.set("threads", r.range(2, 4));
    p.set("size", r.range(1, 24));
    p.set("rounds", r.range(1, 3));
    p.set("noise", r.chance(1, 60) ? r.range(1, 2) : 0);
    p.set("fewer", r.chance(1, 8));
    par::gen(p, r, true);
    return p;
  }
  if (r.chance(1, 6)) {
    p.set("driver", 2);
    p.set("expr", r.range(0, 5));
    p.set("type", r.range(0, 9));
    p.set("threads", r.range(2, 4));
    p.set("size", r.range(1, 24));
    p.set("rounds", r.range(1, 3));
    p.set("seed", r.range(1, 1000000));
    par::gen(p, r, true);
    return p;
  }
  GenOpts o;
  o.parallel_only = true;
  o.max_budget = t ? 1200 : 250;
  o.max_n = 20;
  o.wide = t;
  gen_run(p, r, o);
  p.set("inc", 0);
  p.set("threads", r.range(2, 4));
  p.set("failmod", r.chance(1, 6) ? r.range(5, 300) : 0);
  par::gen(p, r, true);
  return p;
}

uint64_t bits(double v) { uint64_t b; memcpy(&b, &v, 8); return b; }

// ---------------------------------------------------------------- driver 0: algorithms
void algorithms(const Plan& p0) {
  Plan p = p0;
  if (p.get("cache", 0, 0, 1)) p.set("cachebudget", 1);
  p.set("inc", 0);
  p.set("failat", -1);
  int k = int(p.get("threads", 2, 2, 4));
  std::string id = std::to_string(plan_alg(p).id);
  History* h[2] = {new_history(), new_history()};
  uint64_t* pre = (uint64_t*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int i = 0; i < 2; i++) {
    Plan q = p;
    q.set("threads", i ? k : 1);
    Sub s = run_sub([&]() {
      par::race_tag = "";
      Run r(q);
      r.led.fail_mod = uint64_t(p.get("failmod", 0, 0, 100000));
      r.make_functions();
      if (i) {
        // One function object per thread is all that is promised: the runtime may not deliver more.
        omp_set_num_threads(k);
      }
      r.make_algorithm();
      Outcome o = r.maximize();
      record(r, o, h[i]);
      if (o == ERROR) violate("run-error:" + id, "maximize failed: %s", r.error.c_str());
      if (i) {
        cover_run(r, o); count(outcome_names[o]);
        *pre = par::preemptions();
        count("preemptions", par::preemptions());
        count("regions", par::regions());
      }
    });
    if (sh->violated) _exit(0);
    if (!s.exited() || s.code()) violate((i ? "parallel-run-died:" : "run-died:") + id, "a run died (status %d): %.300s", s.status, s.err.c_str());
  }
  ev("hist", int64_t(h[0]->hash), int64_t(h[0]->len));
  if (h[0]->len > 1 && *pre > 0) nontrivial();
  if (h[0]->outcome == STOPPED || h[1]->outcome == STOPPED) return;
  if (h[0]->outcome == FAILURE || h[1]->outcome == FAILURE) {
    // The generation that fails is charged up to the failure, or not at all.
    if (h[1]->outcome != FAILURE) violate("parallel-failure-lost:" + id, "an evaluation fails: the sequential run reports it, the parallel run ends with outcome %d", h[1]->outcome);
    if (h[1]->len > h[0]->len) violate("parallel-failure-history:" + id, "an evaluation fails: the sequential run had charged %lu evaluations, the parallel run %lu", (unsigned long)h[0]->len, (unsigned long)h[1]->len);
    for (uint64_t i = 0; i < h[1]->len && i < 4000; i++)
      if (h[0]->ops[i] != h[1]->ops[i]) violate("parallel-failure-history:" + id, "an evaluation fails: the runs differ before it, at evaluation %lu", (unsigned long)i + 1);
    return;
  }
  // Parallel evaluation bypasses the cache: repeated points are computed and counted again.
  if (p.get("cache", 0, 0, 1)) h[1]->calls = h[0]->calls;
  compare(h[0], h[1], "parallel-differs:" + id, "the same run with one and with several threads");
}

// ---------------------------------------------------------------- driver 1: populations on real functions
void functions(const Plan& p) {
  int z = int(p.get("zoo", 0, 0, int64_t(ZOO.size()) - 1));
  std::string tag = ZOO[size_t(z)].name;
  uint64_t seed = uint64_t(p.get("seed", 1, 1, 1 << 30));
  auto args = zoo_args(z, int(p.get("n", 8, 2, 30)), seed);
  auto make = [&]() { random::Generator::set_seed(unsigned(seed)); return zoo_make(args); };
  if (p.get("mods", 0)) {
    int n0 = make()->get_bv_size();
    Rng m(uint64_t(p.get("mods", 1)));
    for (auto& a : zoo_modifiers(m, n0, false)) args.push_back(a);
  }
  int noise = int(p.get("noise", 0, 0, 2));
  if (noise == 1) { args.push_back("--additive-gaussian-noise"); args.push_back("--noise-stddev=0.5"); }
  if (noise == 2) { args.push_back("--prior-noise"); args.push_back("--pn-neighborhood=0"); }
  // Noise and equal sort keys draw from the library's generator, which threads share: listed finding.
  par::race_tag = noise ? ":noise" : tag == "Tsp" ? ":sort-keys" : "";
  int k = int(p.get("threads", 2, 2, 4)), size = int(p.get("size", 4, 1, 64));
  function::Function* one = make();
  int n = one->get_bv_size();
  std::vector<function::Function*> fns;
  for (int i = 0; i < k; i++) fns.push_back(make());
  par::configure(p);
  omp_set_num_threads(p.get("fewer", 0, 0, 1) ? k - 1 : k);
  Rng g(seed + 11);
  algorithm::Population pop(size, n);
  uint64_t sig = mix(uint64_t(z), uint64_t(k));
  count(tag.c_str());
  for (int64_t r = p.get("rounds", 1, 1, 5); r > 0; r--) {
    for (auto& b : pop.bvs) for (auto& x : b) x = g.chance(1, 2);
    std::vector<double> ref;
    auto copy = pop.bvs;
    if (!noise && tag != "Tsp") for (auto& b : pop.bvs) ref.push_back(one->evaluate(b));
    step();
    pop.evaluate_in_parallel(fns);
    if (pop.bvs != copy) violate("population-changed:" + tag, "parallel evaluation changed the population");
    for (size_t i = 0; i < ref.size(); i++)
      if (bits(ref[i]) != bits(pop.values[i]) && ref[i] != pop.values[i])
        violate("parallel-value:" + tag, "%s: parallel evaluation of point %zu of %d gives %.17g, sequential evaluation %.17g", tag.c_str(), i + 1, size, pop.values[i], ref[i]);
    for (double v : ref) ev("v", int64_t(bits(v)));
  }
  count("preemptions", par::preemptions());
  if (par::preemptions()) nontrivial();
  sig = mix(sig, par::preemptions());
  cover(sig);
}

// ---------------------------------------------------------------- driver 2: multiobjective populations
void multi(const Plan& p) {
  static const int types[] = {520, 521, 522, 523, 524, 530, 531, 532, 533, 534};
  static const char* expr[] = {"x + y :: x * y", "x * x :: (x - 2) * (x - 2) :: y", "y :: x + 1", "1 / (x - 3) :: y", "x * y + 2 :: y * y - x :: x * y", "x :: 1 / y :: x - y"};
  int e = int(p.get("expr", 0, 0, 5)), ty = types[p.get("type", 0, 0, 9)];
  std::string rep;
  switch (ty % 10) {
  case 1: rep = "x: long(-9, 20); y: long(0, 6)"; break;
  case 2: rep = "x_re: double(-1, 1, size = 5); x_im: double(-2, 1, precision = 0.1); y_re: double(0, 1, size = 3); y_im: double(0, 1, size = 3)"; break;
  case 3: rep = "x: int(-3, 9); y: int(0, 4)"; break;
  case 4: rep = "x: long(0, 5); y: double(0, 2, size = 6)"; break;
  default: rep = "x: double(0, 3, size = 5); y: double(-1, 2, precision = 0.1)";
  }
  std::string xs = expr[e];
  if (ty % 10 == 2) rep = "x: double(-1, 1, size = 5); y: double(-2, 1, precision = 0.1)";
  std::vector<std::string>* a = new std::vector<std::string>{"hnco-mo", "--fp-expression=" + xs, "--function=" + std::to_string(ty), "--fp-representations=" + rep};
  auto* argv = new std::vector<char*>;
  for (auto& s : *a) argv->push_back((char*)s.c_str());
  argv->push_back(nullptr);
  optind = 0;
  auto* o = new multiobjective::app::HncoOptions(int(argv->size()) - 1, argv->data());
  multiobjective::app::CommandLineFunctionFactory ff(*o);
  int k = int(p.get("threads", 2, 2, 4)), size = int(p.get("size", 4, 1, 64));
  auto* one = ff.make();
  int n = one->get_bv_size(), m = one->get_output_size();
  std::vector<multiobjective::function::Function*> fns;
  for (int i = 0; i < k; i++) fns.push_back(ff.make());
  par::configure(p);
  omp_set_num_threads(k);
  Rng g(uint64_t(p.get("seed", 1)) + 11);
  multiobjective::algorithm::Population pop(size, n, m);
  count("multiobjective");
  for (int64_t r = p.get("rounds", 1, 1, 5); r > 0; r--) {
    for (auto& b : pop.bvs) for (auto& x : b) x = g.chance(1, 2);
    std::vector<multiobjective::function::value_t> ref;
    ref.assign(static_cast<size_t>(size), std::vector<double>(static_cast<size_t>(m), 0.0));
    std::string err, perr;
    try { for (size_t i = 0; i < pop.bvs.size(); i++) one->evaluate(pop.bvs[i], ref[i]); } catch (const std::exception& x) { err = x.what(); }
    auto copy = pop.bvs;
    step();
    try { pop.evaluate_in_parallel(fns); } catch (const std::exception& x) { perr = x.what(); }
    if (pop.bvs != copy) violate("population-changed:mo", "parallel evaluation changed the population");
    if (err.empty() != perr.empty()) violate("parallel-failure-lost:mo", "sequential evaluation fails with '%s', parallel evaluation with '%s'", err.c_str(), perr.c_str());
    if (!err.empty()) { count("fault:evaluation-failure"); continue; }
    for (size_t i = 0; i < ref.size(); i++)
      for (size_t j = 0; j < size_t(m); j++)
        if (ref[i].size() != pop.values[i].size() || (bits(ref[i][j]) != bits(pop.values[i][j]) && ref[i][j] != pop.values[i][j]))
          violate("parallel-value:mo", "expression '%s': parallel evaluation of point %zu differs from sequential evaluation in objective %zu", expr[e], i + 1, j + 1);
  }
  count("preemptions", par::preemptions());
  if (par::preemptions()) nontrivial();
  cover(mix(uint64_t(e), par::preemptions()));
}

void exec01(const Plan& p) {
  par::engine_from = (const char*)&random::Generator::engine;
  par::engine_to = par::engine_from + sizeof random::Generator::engine;
  switch (p.get("driver", 0, 0, 2)) {
  case 1: functions(p); break;
  case 2: multi(p); break;
  default: algorithms(p);
  }
}
Register R01(Prop{"H01", true, false, gen01, exec01});
} // namespace
