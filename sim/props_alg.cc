// Algorithms: what they hand over when they are interrupted, restarted, run again, or run in another environment.
#include "stack.hh"
#include "hist.hh"
#include "vdisk.hh"
#include "zoo.hh"
#include <iostream>
#include <malloc.h>
#include <cstring>
#include <unistd.h>
#include <sys/mman.h>
using namespace sim;
using namespace hnco;

namespace {

std::string tag_of(const Run& r) { return std::to_string(r.info->id) + (r.restart ? ":restart" : ""); }

// Points charged by one generation: what an interruption may leave unaccounted for.
int64_t generation_size(const Run& r) {
  const Plan& p = r.plan;
  int64_t pop = p.get("pop", 10, 2, 60), lam = std::max(p.get("lambda", 4, 1, 60), p.get("mu", 2, 1, 40)) + 1, mu = std::max<int64_t>(4, p.get("mu", 2, 1, 40));
  switch (r.info->id) {
  case 310: case 320: case 330: return std::max(mu, lam) + 1;
  case 400: return 2 * mu + 2;
  case 450: return 2 * std::max(mu, lam) + 2;
  case 500: case 501: case 600: case 610: case 612: case 900: case 901: case 1000: case 1001: case 1100: case 340: return pop;
  case 700: return 2;
  case 150: return 1 << 20;      // one neighbourhood, see neighbourhood_done
  default: return 0;
  }
}

Plan gen_alg(Rng& r, bool thorough, bool controllers, bool restart = true) {
  Plan p;
  GenOpts o;
  o.controllers = controllers;
  o.restart = restart;
  o.max_budget = thorough ? 2500 : 400;
  o.max_n = thorough ? 36 : 24;
  o.wide = true;
  gen_run(p, r, o);
  if (p.get("cache")) { p.set("inc", 0); p.set("cachebudget", 1); }
  return p;
}

// ---------------------------------------------------------------- H06 and H07: what a run hands over
Plan gen06(Rng& r, int, bool t) { return gen_alg(r, t, r.chance(1, 3)); }

void solution_check(const Plan& p0, bool best_only) {
  Plan p = p0;
  if (p.get("cache", 0, 0, 1)) { p.set("inc", 0); p.set("cachebudget", 1); }
  Run r(p);
  r.make_functions();
  r.make_algorithm();
  Outcome o = r.maximize();
  ev("outcome", o);
  count(outcome_names[o]);
  cover_run(r, o);
  std::string tag = tag_of(r);
  if (o == ERROR) violate("run-error:" + tag, "maximize failed: %s", r.error.c_str());
  if (o == TARGET || o == FAILURE || o == STOPPED) return;
  if (!r.finalize()) violate("finalize-error:" + tag, "finalize failed: %s", r.error.c_str());
  if (r.led.raw.empty()) return;
  nontrivial();
  auto s = r.algorithm->get_solution();
  key_t64 x = key_of(s.first);
  if (!best_only) {
    if (int(s.first.size()) != r.n) violate("solution-size:" + tag, "solution has %zu bits, function has %d", s.first.size(), r.n);
    if (!r.led.seen.count(x))
      violate("solution-not-evaluated:" + tag, "the run of %s (%s) hands over %s with value %.17g, a point it never evaluated (%zu evaluations); its value is %.17g",
              r.info->name, outcome_names[o], show(x, r.n).c_str(), s.second, r.led.raw.size(), r.truth(x));
    if (s.second != r.truth(x))
      violate("solution-wrong-value:" + tag, "the run of %s (%s) hands over %s with value %.17g; its value is %.17g", r.info->name, outcome_names[o],
              show(x, r.n).c_str(), s.second, r.truth(x));
    return;
  }
  std::vector<double> charged;
  for (auto& e : r.spy->ops) if (e.type != SAFE && e.exc == X_NONE) charged.push_back(r.truth(e.x));
  if (r.info->id == 450) return;   // selects among crossover offspring only, by definition
  size_t skip = o == RETURNED ? 0 : size_t(generation_size(r));
  if (charged.size() <= skip) return;
  double best = -1e300; size_t at = 0;
  for (size_t i = 0; i + skip < charged.size(); i++) if (charged[i] > best) { best = charged[i]; at = i; }
  if (r.truth(x) < best)
    violate("solution-not-best:" + tag, "the run of %s (%s after %zu evaluations) hands over a solution of value %.17g; evaluation %zu had value %.17g", r.info->name,
            outcome_names[o], charged.size(), r.truth(x), at + 1, best);
}
void exec06(const Plan& p) { solution_check(p, false); }
void exec07(const Plan& p) { solution_check(p, true); }
Register R06(Prop{"H06", false, false, gen06, exec06});
Register R07(Prop{"H07", false, false, gen06, exec07});

// ---------------------------------------------------------------- H08 restart
// Sits between Restart and the real algorithm and keeps what each run handed over.
struct Probe: algorithm::Algorithm {
  algorithm::Algorithm* a;
  std::vector<algorithm::solution_t> done;
  int started = 0;
  std::function<void()> on_start;
  Probe(algorithm::Algorithm* x, int n): Algorithm(n), a(x) {}
  void maximize(const std::vector<function::Function*>& f) override {
    started++;
    if (on_start) on_start();
    a->maximize(f);
    a->finalize();
    done.push_back(a->get_solution());
    last = done.back();
  }
  void finalize() override { a->finalize(); last = a->get_solution(); }
  const algorithm::solution_t& get_solution() override { return last; }
  algorithm::solution_t last;
};

Plan gen08(Rng& r, int, bool t) {
  Plan p = gen_alg(r, t, r.chance(1, 4), false);
  p.set("iters", r.small(1, 12));
  if (!plan_alg(p).iterations && r.chance(3, 4)) p.set("alg", r.range(0, 15));
  p.set("budget", r.range(1, t ? 1500 : 300));
  if (r.chance(1, 4)) { p.set("rounds", r.small(1, 20)); if (r.chance(3, 4)) p.set("budget", p.get("n") > 32 ? 1500 : 20000); }
  return p;
}
void exec08(const Plan& p0) {
  Plan p = p0;
  p.set("restart", 0);
  if (p.get("cache", 0, 0, 1)) { p.set("inc", 0); p.set("cachebudget", 1); }
  if (p.get("budget") <= 0) p.set("budget", 1);
  Run r(p);
  r.make_functions();
  r.make_algorithm();
  auto* probe = new Probe(r.algorithm, r.n);
  size_t ops_at_start = 0;
  probe->on_start = [&]() { ops_at_start = r.spy->ops.size(); };
  int rounds = int(p.get("rounds", 0, 0, 1000));
  auto* re = new algorithm::Restart(probe);
  if (rounds) re->set_num_iterations(rounds);
  r.algorithm = re;
  Outcome o = r.maximize();
  ev("outcome", o, probe->started);
  count(outcome_names[o]);
  count("restarts", uint64_t(probe->started));
  cover_run(r, o);
  std::string tag = std::to_string(r.info->id);
  if (o == ERROR) violate("run-error:" + tag, "maximize failed: %s", r.error.c_str());
  if (o == RETURNED && !rounds) violate("restart-gave-up:" + tag, "an unlimited sequence of restarts came to an end");
  if (o == RETURNED && probe->started != rounds) violate("restart-count:" + tag, "told to run the algorithm %d times, it was run %d times", rounds, probe->started);
  if (rounds && probe->started > rounds) violate("restart-count:" + tag, "told to run the algorithm %d times, run %d was started", rounds, probe->started);
  if (o != BUDGET && o != RETURNED) return;
  if (!r.finalize()) violate("finalize-error:" + tag, "finalize failed: %s", r.error.c_str());
  auto s = r.algorithm->get_solution();
  key_t64 x = key_of(s.first);
  // the last run, if it was interrupted, evaluated something
  bool last_has = o == RETURNED || r.spy->ops.size() > ops_at_start + 1;
  if (probe->started > 1 || last_has) {
    if (!r.led.seen.count(x)) violate("restart-not-evaluated:" + tag, "after %d runs the solution %s (value %.17g) is a point that was never evaluated", probe->started, show(x, r.n).c_str(), s.second);
    if (s.second != r.truth(x)) violate("restart-wrong-value:" + tag, "after %d runs the solution is reported with %.17g, its value is %.17g", probe->started, s.second, r.truth(x));
  }
  if (probe->started >= 2) nontrivial();
  for (size_t i = 0; i < probe->done.size(); i++)
    if (r.truth(x) < r.truth(key_of(probe->done[i].first)))
      violate("restart-lost-best:" + tag, "run %zu of %d handed over value %.17g, the restarted algorithm reports %.17g", i + 1, probe->started,
              r.truth(key_of(probe->done[i].first)), r.truth(x));
  auto last = probe->a->get_solution();
  key_t64 lx = key_of(last.first);
  if (last_has && r.led.seen.count(lx) && r.truth(x) < r.truth(lx))
    violate("restart-lost-last:" + tag, "the interrupted run %d had found value %.17g, the restarted algorithm reports %.17g", probe->started, r.truth(lx), r.truth(x));
}
Register R08(Prop{"H08", false, false, gen08, exec08});

// Leaves recognisable garbage on the stack and on the heap, different in each environment.
__attribute__((noinline)) void dirty_stack(int c) {
  volatile char buf[200000];
  for (size_t i = 0; i < sizeof buf; i++) buf[i] = char(c);
}
void dirty_heap(int c, Rng& g) {
  mallopt(M_PERTURB, c & 0xff);
  std::vector<void*> v;
  for (int i = 0; i < 2000; i++) v.push_back(malloc(size_t(g.range(1, 600))));
  for (auto p : v) { memset(p, c, 1); }
  for (size_t i = 0; i < v.size(); i++) if (g.chance(2, 3)) free(v[i]);
}

// ---------------------------------------------------------------- H09 reproducibility
Plan gen09(Rng& r, int, bool t) {
  if (r.chance(1, 6)) {
    Plan p;
    p.set("instances", 1);
    p.set("zoo", r.range(0, int64_t(ZOO.size()) - 1));
    p.set("n", r.range(2, 16));
    p.set("seed", r.chance(1, 10) ? r.range(0, 1) : r.range(0, 100000));
    p.set("mods", r.range(1, 100000));
    p.set("noise", r.range(0, 1));
    p.set("garbage", r.range(0, 255));
    p.set("clock", r.range(0, 1000000));
    p.set("entropy", r.range(0, 1000000));
    p.set("warm", r.range(0, 20));
    return p;
  }
  Plan p = gen_alg(r, t, r.chance(1, 3));
  p.set("garbage", r.range(0, 255));
  p.set("warm", r.chance(1, 3) ? r.range(1, 50) : 0);
  p.set("before", r.chance(1, 4) ? r.range(1, 1000) : 0);
  if (r.chance(1, 4)) { p.set("noise", r.range(1, 3)); p.set("threads", 1); p.set("target", 0); }
  return p;
}
// Instances, maps and noise drawn from the library's generator, in two environments.
void exec09_instances(const Plan& p) {
  struct Out { uint64_t file, values; int n; };
  Out* out = (Out*)mmap(nullptr, 2 * sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int z = int(p.get("zoo", 0, 0, int64_t(ZOO.size()) - 1));
  std::string tag = ZOO[size_t(z)].name;
  for (int k = 0; k < 2; k++) {
    Sub s = run_sub([&]() {
      env::on = true;
      env::entropy = uint64_t(p.get("entropy", 1) + 77 * k);
      env::now_ns = 1700000000ull * 1000000000ull + uint64_t(p.get("clock", 0, 0, int64_t(1) << 40) + 5 * k) * 1000000ull;
      Rng g(uint64_t(p.get("garbage") + 3 * k + 1));
      dirty_heap(k ? int(p.get("garbage", 0, 0, 255)) : 0x5a, g);
      if (k) for (int64_t i = 0; i < p.get("warm", 0, 0, 1000); i++) { if (i % 3 == 0) random::Generator::normal(); else random::Generator::uniform(); }
      dirty_stack(k ? int(p.get("garbage", 0, 0, 255)) : 0xa5);
      auto args = zoo_args(z, int(p.get("n", 8, 2, 16)), uint64_t(p.get("seed", 1)), "/sim/f");
      out[k].file = vd::exists("/sim/f") ? hash_str(vd::get("/sim/f")) : 0;
      Rng m(uint64_t(p.get("mods", 1)));
      int n0 = zoo_make(args)->get_bv_size();
      for (auto& a : zoo_modifiers(m, n0, p.get("noise", 0, 0, 1))) args.push_back(a);
      random::Generator::set_seed(unsigned(p.get("seed", 1)));
      double first = random::Generator::uniform();
      random::Generator::set_seed(unsigned(p.get("seed", 1)));
      function::Function* f = nullptr;
      try { f = zoo_make(args); } catch (std::exception&) { out[k].n = -1; _exit(0); }
      int n = f->get_bv_size();
      uint64_t h;
      memcpy(&h, &first, 8);
      random::Generator::reset();
      for (int i = 0; i < 40; i++) {
        bit_vector_t x(static_cast<size_t>(n));
        Rng q(uint64_t(p.get("seed", 1) * 100 + i));
        for (auto& b : x) b = q.chance(1, 2);
        double v = f->evaluate(x);
        uint64_t b; memcpy(&b, &v, 8);
        h = mix(h, b);
      }
      out[k].values = h;
      out[k].n = n;
    });
    count("fault:environment-change", uint64_t(k));
    if (sh->violated) _exit(0);
    if (!s.exited() || s.code()) violate("run-died:" + tag, "evaluating %s died (status %d): %.300s", tag.c_str(), s.status, s.err.substr(s.err.size() > 300 ? s.err.size() - 300 : 0).c_str());
  }
  ev("inst", int64_t(out[0].file), int64_t(out[0].values), out[0].n);
  if (out[0].n < 0) { count("rejected"); }
  if (out[0].n > 0) { nontrivial(); count("instances"); }
  cover(mix(out[0].file, out[0].values));
  if (out[0].file != out[1].file) violate("irreproducible-instance:" + tag, "the instance of %s generated from the same seed differs between two environments", tag.c_str());
  if (out[0].n != out[1].n || out[0].values != out[1].values) violate("irreproducible-values:" + tag, "%s, made and modified from the same seed, has different values in two environments", tag.c_str());
}
void exec09(const Plan& p0) {
  Plan p = p0;
  if (p.get("instances", 0, 0, 1)) { exec09_instances(p); return; }
  if (p.get("cache", 0, 0, 1)) { p.set("inc", 0); p.set("cachebudget", 1); }
  if (p.get("noise", 0, 0, 3)) p.set("target", 0);
  History* h[2] = {new_history(), new_history()};
  for (int k = 0; k < 2; k++) {
    Plan q = p;
    if (k) {
      q.set("entropy", p.get("entropy") + 987654);
      q.set("clock", p.get("clock") / 2 + 77);
      q.set("slow", p.get("slow", 0, 0, 1000000) ? 0 : 1234);
      q.set("sched.seed", p.get("sched.seed") + 1);
    }
    Sub s = run_sub([&]() {
      Rng g(uint64_t(p.get("garbage") + 3 * k + 1));
      dirty_heap(k ? int(p.get("garbage", 0, 0, 255)) : 0x5a, g);
      // random numbers drawn by something else before the run is seeded
      if (k) for (int64_t i = 0; i < p.get("warm", 0, 0, 1000); i++) { if (i % 3 == 0) random::Generator::normal(); else random::Generator::uniform(); }
      // another run in the same process, of another algorithm on another function
      if (k && p.get("before", 0, 0, 1000)) {
        Plan b = q;
        b.set("alg", p.get("before", 0, 0, 1000) % int64_t(ALGS.size()));
        b.set("budget", 1 + p.get("before", 0, 0, 1000) % 150);
        b.set("seed", p.get("seed") + 5);
        b.set("land", p.get("garbage", 0, 0, 255) % kLandscapes);
        b.set("threads", 1);
        b.set("inc", 0);
        b.set("cache", 0);
        b.set("target", 0);
        b.set("failat", -1);
        Run* e = new Run(b);
        e->make_functions();
        e->make_algorithm();
        Outcome o = e->maximize();
        if (o == RETURNED || o == BUDGET) e->finalize();
        count("fault:another-run-before");
      }
      Run r(q);
      r.make_functions();
      r.make_algorithm();
      dirty_stack(k ? int(p.get("garbage", 0, 0, 255)) : 0xa5);
      Outcome o = r.maximize();
      dirty_stack(k ? int(p.get("garbage", 0, 0, 255)) : 0xa5);
      record(r, o, h[k]);
      if (k == 0) { cover_run(r, o); count(outcome_names[o]); }
    });
    count("fault:environment-change", uint64_t(k));
    if (sh->violated) _exit(0);
    if (!s.exited() || s.code()) violate("run-died:" + std::to_string(plan_alg(p).id), "a run died (status %d): %.200s", s.status, s.err.c_str());
  }
  ev("hist", int64_t(h[0]->hash), int64_t(h[0]->len));
  if (h[0]->len > 1) nontrivial();
  compare(h[0], h[1], "irreproducible:" + std::to_string(plan_alg(p).id), "same seed, different clock, entropy source and memory content");
}
Register R09(Prop{"H09", false, true, gen09, exec09});

// ---------------------------------------------------------------- H10 the same object runs again
Plan gen10(Rng& r, int, bool t) {
  Plan p = gen_alg(r, t, r.chance(1, 3));
  p.set("budget1", r.chance(1, 3) ? r.range(1, 12) : r.range(1, 200));
  p.set("runs1", r.range(1, 3));
  if (r.chance(1, 4)) p.set("fail1", r.range(0, 60));
  p.set("n1land", r.range(0, kLandscapes - 1));
  if (r.chance(3, 5)) p.set("land", 5);
  return p;
}
void exec10(const Plan& p0) {
  Plan p = p0;
  p.set("restart", 0);
  if (p.get("cache", 0, 0, 1)) { p.set("inc", 0); p.set("cachebudget", 1); }
  if (p.get("budget") <= 0) p.set("budget", 1);
  History* h[2] = {new_history(), new_history()};
  std::string tag = std::to_string(plan_alg(p).id);
  for (int k = 0; k < 2; k++) {
    Sub s = run_sub([&]() {
      algorithm::Algorithm* used = nullptr;
      if (k) {
        // earlier runs of the same object, interrupted by the budget, a target or a failing evaluation
        for (int64_t j = 0; j < p.get("runs1", 1, 1, 4); j++) {
          Plan q = p;
          q.set("budget", std::max<int64_t>(1, p.get("budget1", 1, 1, 1000) + 7 * j));
          q.set("land", p.get("n1land", 0, 0, kLandscapes - 1));
          q.set("seed", p.get("seed") + 11 + j);
          q.set("sched.seed", p.get("sched.seed") + 11 + j);
          if (p.get("fail1", -1) >= 0 && p.get("threads", 1) == 1) q.set("failat", p.get("fail1"));
          Run* r1 = new Run(q);
          r1->make_functions();
          if (used) r1->algorithm = used; else r1->make_algorithm();
          used = r1->algorithm;
          Outcome o = r1->maximize();
          if (o == RETURNED || o == BUDGET) r1->finalize();
          char b[40]; snprintf(b, sizeof b, "fault:earlier-run-%s", outcome_names[o]);
          count(b);
        }
      }
      Run r(p);
      r.make_functions();
      if (used) {
        r.algorithm = used;
        r.log_context = new logging::ProgressTrackerContext(r.tracker);
        used->set_log_context(r.log_context);
      } else {
        r.make_algorithm();
      }
      random::Generator::reset();
      Outcome o = r.maximize();
      record(r, o, h[k]);
      if (k == 0) { cover_run(r, o); count(outcome_names[o]); }
      if (k && o == RETURNED && h[k]->outcome == 100) violate("rerun-finalize:" + tag, "finalize failed: %s", r.error.c_str());
      if (k && (o == RETURNED || o == BUDGET) && !r.led.raw.empty()) {
        if (!r.led.seen.count(h[k]->sol))
          violate("rerun-stale-solution:" + tag, "%s, run again on another function, hands over %s (value %.17g), which that run never evaluated", r.info->name,
                  show(h[k]->sol, r.n).c_str(), h[k]->solv);
        if (h[k]->solv != r.truth(h[k]->sol))
          violate("rerun-stale-value:" + tag, "%s, run again on another function, hands over %s with value %.17g; its value is %.17g", r.info->name,
                  show(h[k]->sol, r.n).c_str(), h[k]->solv, r.truth(h[k]->sol));
      }
    });
    if (sh->violated) _exit(0);
    if (!s.exited() || s.code()) violate("run-died:" + tag, "%s run died (status %d): %.200s", k ? "a repeated" : "a first", s.status, s.err.c_str());
  }
  ev("hist", int64_t(h[0]->hash), int64_t(h[0]->len));
  if (h[0]->len > 1) nontrivial();
  // Where values tie, the order in which an earlier run left the population decides; the genetic algorithm draws its
  // tournaments from that order, and the two-rate EA its rate from the position of the best of its offspring, which
  // may occur twice. None of this is part of the property.
  int alg = plan_alg(p).id;
  if (p.get("land", 0) == 5 && alg != 400 && !(alg == 330 && (h[0]->repeats || h[1]->repeats))) compare(h[0], h[1], "rerun-differs:" + tag, "a new object and one that has run before");
}
Register R10(Prop{"H10", false, false, gen10, exec10});

// ---------------------------------------------------------------- H19 termination, H20 failing allocations
Plan gen19(Rng& r, int index, bool t) {
  Plan p = gen_alg(r, t, r.chance(1, 2));
  if (index == 0) p.set("probe1250", 1);
  p.set("n", std::min<int64_t>(p.get("n"), 40));      // without a budget, large neighbourhoods take long
  if (plan_alg(p).iterations && r.chance(1, 3)) { p.set("iters", r.range(1, 25)); p.set("budget", 0); p.set("restart", 0); }
  return p;
}
void exec19(const Plan& p0) {
  Plan p = p0;
  if (p.get("probe1250", 0, 0, 1)) {
    // The generator keeps away from GOMEA on two variables, where its linkage learning never ends: one run shows it.
    Sub s = run_sub([&]() {
      auto o = make_options({"--function=0", "--bv-size=2", "--algorithm=1250", "--budget=100", "--seed=1"});
      app::CommandLineFunctionFactory ff(*o);
      app::DecoratedFunctionFactory dff(*o, ff);
      std::vector<function::Function*> fns{dff.make_function_controller(dff.make_function_modifier())};
      logging::ProgressTrackerContext lc(dff.get_tracker());
      app::CommandLineAlgorithmFactory af(*o);
      auto* a = af.make(fns[0]->get_bv_size());
      a->set_log_context(&lc);
      try { a->maximize(fns); } catch (...) {}
    }, "", true, 2);
    if (!s.exited()) violate("no-end-on-two-bits:1250", "GOMEA on two variables is still running after 2 s (status %d)", s.status);
    return;
  }
  if (p.get("cache", 0, 0, 1)) { p.set("inc", 0); p.set("cachebudget", 1); }
  if (!p.get("iters", 0, 0, 1000) || p.get("restart", 0, 0, 1)) p.set("budget", std::max<int64_t>(1, p.get("budget", 1)));
  // the neighbourhoods of long bit vectors are too large for hill climbers to be left to their iterations
  if ((plan_alg(p).id == 150 || plan_alg(p).id == 160) && p.get("n") > 20 && p.get("budget") <= 0) p.set("budget", 2000);
  Run r(p);
  r.make_functions();
  bool stopped = false;
  r.spy->after = [&](const Op& op) {
    if (stopped) violate("goes-on-after-stop:" + tag_of(r), "%s makes another evaluation after it was told to stop", r.info->name);
    if (op.exc == X_LAST || op.exc == X_TARGET) stopped = true;
  };
  r.make_algorithm();
  Outcome o = r.maximize();
  ev("outcome", o);
  count(outcome_names[o]);
  cover_run(r, o);
  if (o == ERROR) violate("run-error:" + tag_of(r), "maximize failed: %s", r.error.c_str());
  if (o == STOPPED) violate("no-end:" + tag_of(r), "%s is still running after %zu evaluations (budget %ld, %ld iterations)", r.info->name, r.led.raw.size(), long(r.budget), long(p.get("iters")));
  if (stopped && o == RETURNED) violate("stop-swallowed:" + tag_of(r), "%s was told to stop but returned as if it had finished", r.info->name);
  if (o != TARGET && !r.finalize()) violate("finalize-error:" + tag_of(r), "finalize failed: %s", r.error.c_str());
  // the number of iterations decides how many evaluations there are
  int64_t per, first = 1, its = r.options->get_num_iterations();
  const auto& opt = *r.options;
  switch (r.info->id) {
  case 300: case 301: case 10: case 20: case 800: per = 1; break;
  case 100: per = opt.get_rls_patience() > 0 ? 0 : 1; break;
  case 700: per = 2; break;
  case 310: first = opt.get_ea_mu(); [[fallthrough]];
  case 320: per = opt.get_ea_lambda(); break;
  case 400: first = per = opt.get_ea_mu(); break;
  case 450: per = 2 * opt.get_ea_mu(); break;
  case 330: per = opt.get_ea_lambda(); break;
  case 500: case 501: case 600: case 610: case 612: case 900: case 901: case 1000: case 1001: case 1100: per = opt.get_population_size(); break;
  case 340: per = opt.get_ea_it_replacement() == 2 || opt.get_ea_it_replacement() == 3 ? 0 : opt.get_population_size(); break;
  default: per = 0;
  }
  if (o == RETURNED && !r.restart && its > 0 && per > 0) {
    int64_t made = 0;
    for (auto& e : r.spy->ops) if (e.type != SAFE) made++;
    count("iterations counted");
    if (made != first + per * its)
      violate("iterations:" + tag_of(r), "%s makes %ld evaluations in %ld iterations of %ld after the first %ld", r.info->name, long(made), long(its), long(per), long(first));
  }
  // a search that gives up does so when its patience is at an end, or in a local maximum
  if (!r.restart && r.info->id == 100 && opt.get_rls_patience() > 0) {
    int64_t failures = 0, patience = opt.get_rls_patience(), made = 0;
    double cur = 0;
    for (auto& e : r.spy->ops) {
      if (e.type == SAFE || e.exc != X_NONE) continue;
      if (failures >= patience) violate("goes-on:100", "evaluation %ld after %ld failures in a row, patience %ld", long(made + 1), long(failures), long(patience));
      if (made == 0 || (opt.with_rls_strict() ? e.v > cur : e.v >= cur)) { cur = e.v; failures = 0; } else failures++;
      made++;
    }
    if (o == RETURNED && failures != patience && made - 1 != its) violate("gives-up:100", "the run ends after %ld evaluations with %ld failures in a row, patience %ld, iterations %ld", long(made), long(failures), long(patience), long(its));
    count("patience counted");
  }
  if (!r.restart && (r.info->id == 150 || r.info->id == 160)) {
    double size = 1;
    int d = opt.get_neighborhood_iterator() ? opt.get_radius() : 1;
    for (int i = 0; i < d; i++) size = size * (r.n - i) / (i + 1);
    double since = 0, best = -HUGE_VAL;
    for (auto& e : r.spy->ops) {
      if (e.type == SAFE || e.exc != X_NONE) continue;
      if (e.v > best) { best = e.v; since = 0; }
      else if (++since > 2 * size) violate("goes-on:" + tag_of(r), "%g evaluations without improvement, a point has %g neighbours", since, size);
    }
  }
  nontrivial();
}
Register R19(Prop{"H19", false, false, gen19, exec19});

Plan gen20(Rng& r, int, bool t) {
  Plan p = gen_alg(r, t, r.chance(1, 3));
  p.set("threads", 1);
  p.set("allocat", r.chance(1, 2) ? r.small(0, 400) : r.range(0, 6000));
  return p;
}
void exec20(const Plan& p0) {
  Plan p = p0;
  p.set("threads", 1);
  if (p.get("cache", 0, 0, 1)) { p.set("inc", 0); p.set("cachebudget", 1); }
  if (p.get("budget") <= 0) p.set("budget", 1);
  Run r(p);
  r.make_functions();
  bool stopped = false;
  r.spy->ops.reserve(10000);
  r.led.raw.reserve(20000);
  r.led.cost.reserve(20000);
  r.led.seen.reserve(20000);
  r.make_algorithm();
  std::string err;
  Outcome o;
  bool bad = false;
  env::alloc_fail_at = p.get("allocat", 0, 0, 1000000);
  try { o = RETURNED; r.algorithm->maximize(r.fns); }
  catch (const std::bad_alloc&) { bad = true; }
  catch (const hnco::exception::TargetReached&) { o = TARGET; }
  catch (const hnco::exception::LastEvaluation&) { o = BUDGET; }
  catch (const HarnessStop&) { o = STOPPED; }
  catch (const std::exception& e) { env::alloc_fail_at = -1; violate("alloc-other-error:" + tag_of(r), "a failing allocation surfaced as %s", e.what()); }
  env::alloc_fail_at = -1;
  bool fired = env::alloc_fired > 0;
  ev("outcome", o, bad, fired);
  count(bad ? "bad_alloc" : outcome_names[o]);
  if (fired) { count("fault:allocation"); nontrivial(); }
  cover_run(r, bad ? ERROR : o);
  if (fired && !bad) count("alloc-absorbed");
  if (!fired && bad) violate("alloc-spurious:" + tag_of(r), "an allocation failed that should not have");
  if (fired) {
    for (auto& e : r.spy->ops)
      if (e.exc == X_NONE && e.type != UPDATE && e.v != r.truth(e.x))
        violate("alloc-wrong-value:" + tag_of(r), "in a run with a failing allocation, the value of %s is said to be %.17g instead of %.17g", show(e.x, r.n).c_str(), e.v, r.truth(e.x));
    if (!bad && (o == RETURNED || o == BUDGET) && !r.led.raw.empty()) {
      if (!r.finalize()) violate("alloc-finalize-error:" + tag_of(r), "after an allocation that failed without notice, finalize failed: %s", r.error.c_str());
      auto s = r.algorithm->get_solution();
      key_t64 x = key_of(s.first);
      if (int(s.first.size()) != r.n || !r.led.seen.count(x) || s.second != r.truth(x))
        violate("alloc-wrong-solution:" + tag_of(r), "a run with a failing allocation hands over %s with value %.17g (true value %.17g, evaluated: %d)", show(x, r.n).c_str(), s.second, r.truth(x), int(r.led.seen.count(x)));
    }
  }
  if (bad) {
    // the failed run is over: another one on the same objects of the library works as usual
    Plan q = p;
    Run r2(q);
    r2.make_functions();
    if (r.restart) { r2.algorithm = r.algorithm; } else r2.algorithm = r.algorithm;
    r2.log_context = new logging::ProgressTrackerContext(r2.tracker);
    r2.algorithm->set_log_context(r2.log_context);
    Outcome o2 = r2.maximize();
    ev("second", o2);
    if (o2 == ERROR) violate("alloc-rerun-error:" + tag_of(r), "after a failed allocation, the next run failed: %s", r2.error.c_str());
    if (o2 == RETURNED || o2 == BUDGET) {
      if (!r2.finalize()) violate("alloc-rerun-error:" + tag_of(r), "after a failed allocation, the next run failed: %s", r2.error.c_str());
      auto s = r2.algorithm->get_solution();
      key_t64 x = key_of(s.first);
      if (int(s.first.size()) != r.n || !r2.led.seen.count(x) || s.second != r2.truth(x))
        violate("alloc-rerun-solution:" + tag_of(r), "after a failed allocation, the next run hands over %s with value %.17g (true value %.17g, evaluated: %d)",
                show(x, r.n).c_str(), s.second, r2.truth(x), int(r2.led.seen.count(x)));
    }
  }
}
Register R20(Prop{"H20", false, false, gen20, exec20});

} // namespace
