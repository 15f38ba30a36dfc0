// Controllers: budget, progress tracker, target, cache, time accounting. Two drivers feed the real controller stack:
// seeded sequences of operations with failing evaluations in between, and real algorithms run until something stops
// them. The checks are invariants after every operation, against a small reference model.
#include "stack.hh"
#include <cmath>
#include <iostream>
#include <sstream>
#include <unordered_set>
using namespace sim;
using namespace hnco;

namespace {

enum Focus { BUDGETF = 1, TRACK = 2, TARGETF = 4, CACHEF = 8, TIMEF = 16 };

struct Model {
  Run& r;
  int focus;
  int64_t charged = 0, failed = 0;          // at the budget
  int64_t calls = 0;                        // at the tracker
  bool have = false;
  double best = 0; key_t64 bestx = 0; int64_t bestk = 0;
  std::unordered_set<key_t64, KeyHash> evaled, updated;
  int64_t lookups = 0, evals = 0, updates = 0;
  std::string expected_log;
  bool budget_outside_cache() const { return !r.cache || (r.budget > 0 && r.cache_budget); }

  Model(Run& run, int f): r(run), focus(f) {}

  void check_tracker(const char* when) {
    if (!(focus & TRACK)) return;
    int64_t c = r.tracker->get_num_calls();
    if (c != calls) violate("tracker-count", "%s: the tracker reports %ld evaluations, %ld were carried out", when, long(c), long(calls));
    if (!have) return;
    const auto& e = r.tracker->get_last_improvement();
    if (e.solution.second != best || e.num_evaluations != bestk)
      violate("tracker-best", "%s: the tracker reports value %.17g at evaluation %d; the best of %ld evaluations is %.17g, first met at evaluation %ld", when,
              e.solution.second, e.num_evaluations, long(calls), best, long(bestk));
    if (key_of(e.solution.first) != bestx || int(e.solution.first.size()) != r.n)
      violate("tracker-solution", "%s: the tracker reports solution %s with value %.17g; that value belongs to %s", when, show(key_of(e.solution.first), r.n).c_str(),
              e.solution.second, show(bestx, r.n).c_str());
  }

  void after(const Op& op) {
    if (op.type == SAFE) return;
    double truth = r.truth(op.x);
    int64_t computed = 0;
    for (size_t i = op.raw0; i < op.raw1; i++) if (r.led.raw[i].kind != 1) computed++;
    bool done = op.exc == X_NONE || op.exc == X_TARGET;
    const char* tn = op.type == EVAL ? "evaluation" : op.type == INC ? "incremental evaluation" : "update";
    if (op.exc == X_OTHER) {
      if (!counter("fault:evaluation-failure")) violate("unexpected-error", "an unexpected error ended an operation");
      failed++;
    }
    bool hit = r.cache && op.type == EVAL && done && computed == 0;
    // H02
    bool is_charged = done && (budget_outside_cache() || !hit);
    if (focus & BUDGETF) {
      if (op.exc == X_LAST) {
        if (r.budget <= 0) violate("budget-refused-without-budget", "an %s was refused although there is no budget", tn);
        if (charged + failed < r.budget) violate("budget-refused-early", "%s refused after %ld charged evaluations; the budget is %ld", tn, long(charged), long(r.budget));
        if (op.raw1 != op.raw0) violate("budget-evaluated-then-refused", "%s refused, but the objective function was evaluated", tn);
        if (r.tracker->get_num_calls() != calls) violate("budget-refused-but-counted", "a refused %s was counted as evaluation %d", tn, r.tracker->get_num_calls());
      }
      if (is_charged && r.budget > 0 && charged >= r.budget)
        violate("budget-exceeded", "%s number %ld was carried out; the budget is %ld", tn, long(charged + 1), long(r.budget));
      if (r.budget > 0 && op.type != UPDATE && !r.cache && done && computed != 1)
        violate("budget-charged-without-evaluation", "one %s evaluated the objective function %ld times", tn, long(computed));
    }
    if (is_charged) charged++;
    // H03
    bool reached = done && !hit;
    if (reached) {
      calls++;
      if (!have || truth > best) {
        have = true; best = truth; bestx = op.x; bestk = calls;
        std::ostringstream s;
        s << calls << " " << truth << "\n";
        expected_log += s.str();
      }
    }
    check_tracker(tn);
    // H04
    if (focus & TARGETF) {
      if (op.exc == X_TARGET) {
        if (!r.has_target) violate("target-stop-without-target", "stopped on a target although there is none");
        if (truth < r.target) violate("target-stop-early", "stopped by %s with value %.17g below the target %.17g", show(op.x, r.n).c_str(), truth, r.target);
        auto t = r.dff->get_stop_on_target()->get_trigger();
        if (key_of(t.first) != op.x || t.second != truth || int(t.first.size()) != r.n)
          violate("target-wrong-solution", "stopped by %s with value %.17g, but the solution handed over is %s with value %.17g", show(op.x, r.n).c_str(), truth,
                  show(key_of(t.first), r.n).c_str(), t.second);
      } else if (op.exc == X_NONE && r.has_target && truth >= r.target)
        violate("target-missed", "%s of %s has value %.17g, target %.17g, but the run was not stopped", tn, show(op.x, r.n).c_str(), truth, r.target);
    }
    // H05 and the value returned
    if (op.exc == X_NONE && op.type != UPDATE && op.v != truth && (focus & (CACHEF | TRACK)))
      violate(r.cache ? "cache-wrong-value" : "wrong-value", "%s of %s returned %.17g, the value is %.17g", tn, show(op.x, r.n).c_str(), op.v, truth);
    if ((focus & CACHEF) && r.cache && done && op.type == EVAL) {
      if (computed > 1) violate("cache-many-evaluations", "one request made %ld evaluations", long(computed));
      if (computed == 1 && evaled.count(op.x)) violate("cache-reevaluated", "%s was evaluated again although its value is cached", show(op.x, r.n).c_str());
      if (computed == 0 && !evaled.count(op.x) && !updated.count(op.x))
        violate("cache-phantom-hit", "%s was answered from the cache although it was never evaluated", show(op.x, r.n).c_str());
    }
    if ((focus & CACHEF) && op.exc == X_OTHER && r.cache && evaled.count(op.x) && op.type == EVAL)
      violate("cache-reevaluated", "%s was evaluated again although its value is cached", show(op.x, r.n).c_str());
    if (op.type == EVAL) { if (!(op.exc == X_LAST && budget_outside_cache())) evals++; if (hit) lookups++; if (done) evaled.insert(op.x); }
    if (op.type == UPDATE) { updates++; if (done) updated.insert(op.x); }
    uint64_t b; memcpy(&b, &op.v, 8);
    ev("op", op.type, int64_t(op.x), int64_t(b) ^ op.exc);
  }
};

Plan gen_ctrl(Rng& r, bool cache, bool target, bool inc, bool thorough) {
  Plan p;
  GenOpts o;
  o.max_budget = thorough ? 1500 : 300;
  o.fail = true;
  o.restart = true;
  o.wide = true;
  gen_run(p, r, o);
  p.set("algolog", 0);      // standard output is looked at
  p.set("driver", r.chance(3, 5) ? 0 : 1);
  if (cache) p.set("cache", 1);
  if (target) p.set("target", r.range(1, 3));
  if (p.get("driver") == 0) {
    p.set("inc", !cache && (inc || r.chance(1, 2)) ? 1 : 0);
    if (p.get("inc")) p.set("cache", 0);
    p.set("n", r.range(2, 12));
    p.set("budget", r.chance(1, 5) ? 0 : r.range(1, 60));
    p.set("threads", 1);
    p.set("pool", r.range(1, 40));
    int64_t m = r.small(1, thorough ? 400 : 120);
    if (r.chance(1, 12)) p.set("n", r.range(13, 120));
    if (r.chance(1, 30)) { p.set("pool", r.range(40, 1000)); p.set("budget", r.range(0, 900)); m = r.range(120, 1000); }
    auto& l = p.mut("L3.ops");
    for (int64_t i = 0; i < m; i++) {
      int64_t t = r.range(0, 15);
      l.push_back(t < 6 ? EVAL : t < 9 ? INC : t < 11 ? SAFE : t < 14 ? UPDATE : 4);
      l.push_back(r.range(0, 1000));
      l.push_back(r.range(0, 1000));
    }
  } else {
    if (p.get("cache") && plan_alg(p).incremental && p.get("inc")) p.set("inc", 0);
    // Injected failures inside a parallel region end the process: that is how the threading model works, so failures
    // go with sequential evaluation.
    if (p.get("failat", -1) >= 0) p.set("threads", 1);
  }
  p.set("logimp", r.chance(1, 2));
  p.set("timed", 1);
  return p;
}

void drive(const Plan& p0, int focus) {
  Plan p = p0;
  if (p.get("cache", 0, 0, 1)) p.set("inc", 0);
  Run r(p);
  if (p.get("driver", 0, 0, 1) == 1) {
    // bounded: a cache outside the budget may answer for ever
    r.led.max_raw = 20000;
  }
  r.make_functions();
  r.spy->max_ops = 6000;
  std::ostringstream log;
  bool logging = p.get("logimp", 0, 0, 1);
  auto* old = std::cout.rdbuf();
  if (logging) { r.tracker->set_log_improvement(true); std::cout.rdbuf(log.rdbuf()); }
  if (focus & TIMEF) { r.tracker->set_record_evaluation_time(true); env::clock_tick_us = p.get("tick", 0, 0, 1000); }
  Model m(r, focus);
  r.spy->after = [&](const Op& op) { m.after(op); };
  m.check_tracker("before the run");
  if (p.get("driver", 0, 0, 1) == 0) {
    auto& ops = p.list("L3.ops");
    key_t64 mask = mask_of(r.n);
    int64_t pool = p.get("pool", 8, 1, 1000);
    // in wide vectors, also points which differ in a few bits only, anywhere
    auto point = [&](int64_t a) {
      uint64_t i = uint64_t(a % pool), h = mix(r.land.seed, i);
      key_t64 k = h;
      if (r.n > 64) { k |= key_t64(mix(h, 3)) << 64; if (i % 2) k = (key_t64(mix(r.land.seed, 7)) << 64 | mix(r.land.seed, 9)) ^ key_t64(1) << (h % uint64_t(r.n)); }
      return k & mask;
    };
    key_t64 cx = point(0);
    bool inc = p.get("inc", 0, 0, 1);
    for (size_t i = 0; i + 2 < ops.size(); i += 3) {
      int t = int(((ops[i] % 5) + 5) % 5);
      key_t64 x = point(std::llabs(ops[i + 1]));
      if (t == 4) { r.led.fail_at = int64_t(r.led.raw.size()); continue; }
      if (t == INC && !inc) t = EVAL;
      try {
        if (t == EVAL) { r.fns[0]->evaluate(bv_of(x, r.n)); cx = x; }
        if (t == SAFE) {
          int64_t f = r.led.fail_at; r.led.fail_at = -1;
          double v = r.fns[0]->evaluate_safely(bv_of(x, r.n));
          if (f >= 0) r.led.fail_at = int64_t(r.led.raw.size());
          if (v != r.truth(x)) violate("wrong-value", "safe evaluation of %s returned %.17g instead of %.17g", show(x, r.n).c_str(), v, r.truth(x));
          m.check_tracker("a safe evaluation");
        }
        if (t == UPDATE) r.fns[0]->update(bv_of(x, r.n), r.truth(x));
        if (t == INC) {
          key_t64 f = (key_t64(mix(uint64_t(ops[i + 2]), 5)) | key_t64(mix(uint64_t(ops[i + 2]), 6)) << 64) & mask;
          if (ops[i + 2] % 3) f = key_t64(1) << (uint64_t(ops[i + 2]) % uint64_t(r.n));
          if (!f) f = 1;
          sparse_bit_vector_t fl;
          for (int b = 0; b < r.n; b++) if ((f >> b) & 1) fl.push_back(b);
          r.fns[0]->evaluate_incrementally(bv_of(cx, r.n), r.truth(cx), fl);
          cx ^= f;
        }
      }
      catch (const hnco::exception::TargetReached&) { count("target-stop"); }
      catch (const hnco::exception::LastEvaluation&) { count("budget-stop"); }
      catch (const InjectedFailure&) {}
    }
    cover(mix(ops.size() / 3, r.led.raw.size()));
  } else {
    r.make_algorithm();
    Outcome o = r.maximize();
    count(outcome_names[o]);
    cover_run(r, o);
    ev("outcome", o);
    if (o == ERROR) violate("run-error", "maximize failed: %s", r.error.c_str());
    if ((focus & BUDGETF) && o == BUDGET && (r.spy->ops.empty() || r.budget <= 0))
      violate("budget-refused-without-budget", "the run was ended by the budget, but there is none");
    if ((focus & TARGETF) && o == TARGET) {
      bool t = false;
      for (auto& op : r.spy->ops) t = t || op.exc == X_TARGET;
      if (!t) violate("target-stop-early", "the run was ended by the target, but no evaluation reached it");
    }
    if ((focus & BUDGETF) && !r.spy->ops.empty() && o != BUDGET) {
      for (auto& op : r.spy->ops) if (op.exc == X_LAST) { violate("budget-stop-ignored", "an algorithm went on after its budget was used up"); }
    }
  }
  if (logging) {
    std::cout.rdbuf(old);
    if ((focus & TRACK) && log.str() != m.expected_log)
      violate("tracker-log", "the improvements logged differ from the improvements made: logged %zu bytes, expected %zu", log.str().size(), m.expected_log.size());
  }
  if ((focus & CACHEF) && r.cache && !m.updates && m.evals > 0 && !m.failed) {
    double lr = r.dff->get_cache()->get_lookup_ratio(), want = double(m.lookups) / double(m.evals);
    if (std::fabs(lr - want) > 1e-12) violate("cache-lookup-ratio", "lookup ratio %.17g, but %ld of %ld evaluations were answered from the cache", lr, long(m.lookups), long(m.evals));
  }
  if (focus & TIMEF) {
    double full = 0; int64_t nfull = 0;
    for (auto& op : r.spy->ops) if (op.type == EVAL) for (size_t i = op.raw0; i < op.raw1; i++) { full += r.led.cost[i]; nfull++; }
    double lo = full * 1e-6, t = r.tracker->get_evaluation_time();
    double hi = lo + 1e-6 * double(env::clock_tick_us) * double(nfull + m.failed) + 1e-6 * r.led.failed_cost;
    double eps = 1e-9 * (1 + hi);
    if (t < lo - eps || t > hi + eps) violate("evaluation-time", "recorded evaluation time is %.9f s; %ld full evaluations took %.9f s (at most %.9f with failed ones)", t, long(nfull), lo, hi);
    if (nfull) nontrivial();
  }
  bool budget_hit = false, target_hit = false;
  for (auto& op : r.spy->ops) { budget_hit |= op.exc == X_LAST; target_hit |= op.exc == X_TARGET; }
  if ((focus & BUDGETF) && budget_hit) nontrivial();
  if ((focus & TARGETF) && target_hit) nontrivial();
  if ((focus & CACHEF) && m.lookups) nontrivial();
  if ((focus & TRACK) && m.calls) nontrivial();
}

Plan g2(Rng& r, int, bool t) { Plan p = gen_ctrl(r, r.chance(1, 3), r.chance(1, 4), r.chance(1, 3), t); return p; }
Plan g3(Rng& r, int, bool t) { return gen_ctrl(r, r.chance(1, 4), false, r.chance(1, 2), t); }
Plan g4(Rng& r, int, bool t) { return gen_ctrl(r, r.chance(1, 4), true, r.chance(1, 2), t); }
Plan g5(Rng& r, int, bool t) { return gen_ctrl(r, true, r.chance(1, 4), false, t); }
Plan g17(Rng& r, int, bool t) {
  Plan p = gen_ctrl(r, r.chance(1, 4), r.chance(1, 4), r.chance(1, 4), t);
  p.set("slow", r.chance(1, 12) ? r.range(1, int64_t(1) << 36) : r.range(1, 500000));
  p.set("tick", r.chance(1, 2) ? r.range(1, 50) : 0);
  return p;
}
void e2(const Plan& p) { drive(p, BUDGETF); }
void e3(const Plan& p) { drive(p, TRACK); }
void e4(const Plan& p) { drive(p, TARGETF); }
void e5(const Plan& p) { drive(p, CACHEF); }
void e17(const Plan& p) { drive(p, TIMEF); }
Register R2(Prop{"H02", false, false, g2, e2});
Register R3(Prop{"H03", false, false, g3, e3});
Register R4(Prop{"H04", false, false, g4, e4});
Register R5(Prop{"H05", false, false, g5, e5});
Register R17(Prop{"H17", false, false, g17, e17});

} // namespace
