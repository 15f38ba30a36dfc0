// H23: what an algorithm learns from its samples. The log of the run (probability vector, entropy, mutation rate, centre,
// value) is compared, iteration by iteration, with an executable model of the published update rule that sees nothing but
// the evaluations of the run.
#include "stack.hh"
#include <algorithm>
#include <cmath>
#include <iostream>
#include <sstream>
using namespace sim;
using namespace hnco;

namespace {

const std::vector<int> LEARN = {500, 501, 600, 700, 800, 612, 610, 20, 301, 330, 340};

Plan gen23(Rng& r, int, bool thorough) {
  Plan p;
  GenOpts o;
  o.controllers = false;
  o.restart = false;
  o.max_budget = thorough ? 3000 : 500;
  o.max_n = thorough || r.chance(1, 4) ? 36 : 20;
  gen_run(p, r, o);
  int id = r.pick(LEARN);
  p.set("alg", alg_index(id));
  if (r.chance(2, 3)) p.set("land", r.chance(1, 2) ? 5 : 8);       // hardly any ties
  p.set("sel", r.range(1, 12));
  p.set("pop", r.range(2, 24));
  p.set("budget", r.range(20, o.max_budget));
  p.set("inc", ALGS[size_t(alg_index(id))].incremental && r.chance(1, 2));
  p.set("threads", ALGS[size_t(alg_index(id))].parallel && r.chance(1, 3) ? r.range(2, 4) : 1);
  p.set("iters", r.chance(1, 3) ? r.range(1, 40) : 0);
  p.set("logall", 1);
  return p;
}

struct Eval { key_t64 x; double v; };
bool near(double a, double b) { return a == b || std::fabs(a - b) <= 2e-5 * (1 + std::fabs(b)); }

// Mean of the sel best (sign 1) or worst (sign -1) of a population. Returns false if ties leave it open, between low and high.
bool mean_of(const std::vector<Eval>& pop, size_t sel, int sign, int n, std::vector<double>& mean, std::vector<double>& low, std::vector<double>& high) {
  std::vector<Eval> s = pop;
  std::stable_sort(s.begin(), s.end(), [sign](const Eval& a, const Eval& b) { return sign * a.v > sign * b.v; });
  mean.assign(size_t(n), 0);
  for (size_t i = 0; i < sel; i++)
    for (int j = 0; j < n; j++) mean[size_t(j)] += double((s[i].x >> j) & 1) / double(sel);
  low = high = mean;
  if (sel >= s.size() || s[sel - 1].v != s[sel].v) return true;
  size_t a = 0, b = sel;
  while (s[a].v != s[sel].v) a++;
  while (b < s.size() && s[b].v == s[sel].v) b++;
  bool same = true;
  for (size_t i = a; i < b; i++) if (s[i].x != s[a].x) same = false;
  if (same) return true;
  for (int j = 0; j < n; j++) {
    size_t sure = 0, ones = 0, need = sel - a;
    for (size_t i = 0; i < a; i++) sure += (s[i].x >> j) & 1;
    for (size_t i = a; i < b; i++) ones += (s[i].x >> j) & 1;
    low[size_t(j)] = double(sure + (need > b - a - ones ? need - (b - a - ones) : 0)) / double(sel);
    high[size_t(j)] = double(sure + std::min(need, ones)) / double(sel);
  }
  return false;
}

void exec23(const Plan& p0) {
  Plan p = p0;
  p.set("logall", 1);
  p.set("cache", 0);
  p.set("target", 0);
  p.set("restart", 0);
  p.set("failat", -1);
  p.set("noise", 0);
  p.set("minimize", 0);
  {
    int id = plan_alg(p).id;
    if (std::find(LEARN.begin(), LEARN.end(), id) == LEARN.end()) p.set("alg", alg_index(500));
  }
  std::ostringstream log;
  Run r(p);
  r.make_functions();
  r.make_algorithm();
  auto* old = std::cout.rdbuf(log.rdbuf());
  Outcome o;
  try { o = r.maximize(); } catch (...) { std::cout.rdbuf(old); throw; }
  std::cout.rdbuf(old);
  env::on = false;
  std::string tag = std::to_string(r.info->id);
  if (o == ERROR) violate("run-error:" + tag, "maximize failed: %s", r.error.c_str());
  count(outcome_names[o]);
  count(r.info->name);
  cover_run(r, o);
  const int n = r.n, id = r.info->id;
  std::vector<Eval> h;
  for (auto& e : r.spy->ops) if (e.type != SAFE && e.exc == X_NONE) h.push_back(Eval{e.x, e.v});
  // the log
  std::vector<std::vector<double>> lines;
  {
    std::istringstream in(log.str());
    std::string l;
    while (std::getline(in, l)) {
      std::istringstream w(l);
      std::vector<double> v;
      std::string tok;
      while (w >> tok) {
        char* end;
        double d = strtod(tok.c_str(), &end);
        if (*end) violate("log-malformed:" + tag, "log line: %.200s", l.c_str());
        v.push_back(d);
      }
      lines.push_back(v);
    }
  }
  const auto& opt = *r.options;
  const size_t pop = size_t(opt.get_population_size()), sel = size_t(opt.get_selection_size());
  const double lr = opt.get_learning_rate(), lo = 1 / double(n), hi = 1 - 1 / double(n);
  size_t gen;                       // evaluations per iteration
  switch (id) {
  case 700: gen = 2; break;
  case 800: case 20: case 301: gen = 1; break;
  case 330: gen = size_t(opt.get_ea_lambda()); break;
  default: gen = pop;
  }
  size_t fields = 3 + (id == 20 || id == 301 || id == 330 ? 1 : id == 340 ? 2 : size_t(n) + 1);
  const int repl = opt.get_ea_it_replacement();
  // one line for each iteration
  if (id == 340 && repl == 2) gen = pop + 1;              // the centre is evaluated too
  const bool maybe = id == 340 && repl == 3;              // and here it may be
  size_t iterations = h.empty() ? 0 : (h.size() - 1) / gen;
  if (o == RETURNED && (h.size() - 1) % gen != 0 && !maybe) violate("evaluations:" + tag, "%zu evaluations are not a whole number of iterations", h.size());
  if (maybe ? lines.size() > iterations || (lines.size() + 1) * (gen + 1) + 1 <= h.size() : lines.size() != iterations) violate("log-lines:" + tag, "%zu lines are logged for %zu iterations", lines.size(), iterations);
  if (lines.empty()) return;
  nontrivial();

  std::vector<double> pv(size_t(n), 0.5), m1, m2, l1, h1, l2, h2, pv_lo, pv_hi;
  std::vector<double> zs(size_t(n), 0), zv(size_t(n), 0);
  double rate, rmin = 0, rmax = 0.5, coef = 1;
  if (id == 330) { rate = 2 / double(n); rmin = 2 / double(n); rmax = 0.25; }
  else { rate = 1 / double(n); rmin = id == 301 ? 1 / double(n * n) : 1 / double(n); rmax = opt.get_ea_mutation_rate_max(); }
  if (opt.with_ea_mutation_rate()) rate = opt.get_ea_mutation_rate();
  if (id != 330 && opt.with_ea_mutation_rate_min()) rmin = opt.get_ea_mutation_rate_min();
  if (id == 301) coef = std::pow(opt.get_ea_update_strength(), opt.get_ea_success_ratio());
  Eval best = h[0], center = h[0];
  bool center_known = true;
  auto bound = [&]() { for (auto& x : pv) x = std::max(lo, std::min(hi, x)); };
  auto move = [&](const std::vector<double>& to) { for (int j = 0; j < n; j++) pv[size_t(j)] += lr * (to[size_t(j)] - pv[size_t(j)]); };
  auto bits = [&](key_t64 x) { std::vector<double> b; for (int j = 0; j < n; j++) b.push_back(double((x >> j) & 1)); return b; };
  if (id == 800) { move(bits(best.x)); bound(); }
  size_t best_at = 1, pos = 1;      // evaluations before this iteration
  double ds = 0, dv = 0;            // distance of mutants to their parent, its variance
  auto mutant = [&](double d, double q) {
    double m = n * q, m2 = n * q * (1 - q) + m * m;
    if (!opt.with_ea_allow_no_mutation()) { double c = -std::expm1(n * std::log1p(-q)); m /= c; m2 /= c; }
    ds += d - m;
    dv += m2 - m * m;
  };
  double best_v = h[0].v;
  for (size_t k = 0; k < lines.size(); k++) {
    const auto& l = lines[k];
    if (l.size() != fields) violate("log-fields:" + tag, "iteration %zu logs %zu fields instead of %zu", k, l.size(), fields);
    size_t len = gen;
    if (maybe && l[0] == double(pos + gen + 1)) len = gen + 1;
    if (pos + len > h.size()) violate("log-context:" + tag, "iteration %zu logs %g evaluations; there were %zu", k, l[0], h.size());
    std::vector<Eval> s(h.begin() + long(pos), h.begin() + long(pos + len));
    for (size_t i = 0; i < s.size(); i++) if (s[i].v > best_v) { best_v = s[i].v; best_at = pos + i + 1; }
    pos += len;
    if (l[0] != double(pos) || l[1] != double(best_at) || !near(l[2], best_v))
      violate("log-context:" + tag, "iteration %zu logs %g evaluations, improvement at %g to %g; there were %zu, at %zu to %g", k, l[0], l[1], l[2], pos, best_at, best_v);
    bool open = false;              // ties leave the next model open, within limits: take the logged one
    pv_lo = pv_hi = pv;
    std::vector<double> before = pv;
    bool sampled = false;
    switch (id) {
    case 500:
      open = !mean_of(s, sel, 1, n, m1, l1, h1);
      move(m1);
      for (size_t j = 0; j < size_t(n); j++) { pv_lo[j] += lr * (l1[j] - pv_lo[j]); pv_hi[j] += lr * (h1[j] - pv_hi[j]); }
      bound();
      sampled = true;
      break;
    case 501:
      open = !mean_of(s, sel, 1, n, m1, l1, h1);
      open = !mean_of(s, sel, -1, n, m2, l2, h2) || open;
      for (size_t j = 0; j < size_t(n); j++) {
        pv[j] += lr * (m1[j] - m2[j]);
        pv_lo[j] += lr * (l1[j] - h2[j]);
        pv_hi[j] += lr * (h1[j] - l2[j]);
      }
      bound();
      sampled = true;
      break;
    case 600: sampled = true; [[fallthrough]];
    case 612: open = !mean_of(s, sel, 1, n, pv, pv_lo, pv_hi); bound(); break;
    case 610: open = true; pv_lo.assign(size_t(n), lo); pv_hi.assign(size_t(n), hi); break;
    case 700: {
      int b = s[0].v < s[1].v ? 1 : 0;
      if (s[0].v == s[1].v && s[0].x != s[1].x) open = true;
      for (int j = 0; j < n; j++) {
        int x = int((s[size_t(b)].x >> j) & 1), y = int((s[size_t(1 - b)].x >> j) & 1);
        pv[size_t(j)] += lr * (x - y);
        pv_lo[size_t(j)] -= lr * std::abs(x - y);
        pv_hi[size_t(j)] += lr * std::abs(x - y);
      }
      bound();
      sampled = true;
      break;
    }
    case 800:
      if (opt.with_mmas_strict() ? s[0].v > best.v : s[0].v >= best.v) best = s[0];
      move(bits(best.x));
      bound();
      sampled = true;
      break;
    case 20: if (!near(l[3], s[0].v)) violate("log-value:20", "iteration %zu logs value %g, it evaluated %g", k, l[3], s[0].v); break;
    case 301:
      mutant(bits_of(best.x ^ s[0].x), rate);
      if (s[0].v >= best.v) { best = s[0]; rate = std::min(rate * coef, rmax); }
      else rate = std::max(rate / opt.get_ea_update_strength(), rmin);
      if (!near(l[3], rate)) violate("mutation-rate:301", "the mutation rate is %g after iteration %zu; from the evaluations it is %g", l[3], k, rate);
      break;
    case 330: {
      double low = rate / 2, high = rate * 2;
      Eval top = s[0];
      for (auto& e : s) if (e.v > top.v) top = e;
      if (center_known) for (size_t i = 0; i < gen; i++) mutant(bits_of(center.x ^ s[i].x), i < gen / 2 ? low : high);
      if (top.v > center.v) {
        center = top;
        center_known = true;
        for (auto& e : s) if (e.v == top.v && e.x != top.x) center_known = false;
      }
      double c[4] = {std::max(low, rmin), std::min(high, rmax), std::max(rmin, std::min(rmax, low)), std::max(rmin, std::min(rmax, high))};
      int w = -1;
      for (int i = 0; i < 4; i++) if (near(l[3], c[i])) w = i;
      if (w < 0) violate("mutation-rate:330", "the mutation rate is %g after iteration %zu, it was %g, bounds %g and %g", l[3], k, rate, rmin, rmax);
      rate = c[w];
      break;
    }
    case 340: {
      std::vector<Eval> q(s.begin(), s.begin() + long(pop));
      std::stable_sort(q.begin(), q.end(), [](const Eval& a, const Eval& b) { return a.v > b.v; });
      // ties: individuals as good as the last selected one share its weight
      std::vector<double> weight(pop, 0);
      size_t a = sel, b = sel;
      if (sel < pop && q[sel - 1].v == q[sel].v) {
        a = 0;
        while (q[a].v != q[sel].v) a++;
        while (b < pop && q[b].v == q[sel].v) b++;
      }
      for (size_t i = 0; i < a; i++) weight[i] = 1;
      for (size_t i = a; i < b; i++) weight[i] = double(sel - a) / double(b - a);
      const double used = rate;
      if (center_known) {
        // distance of the selected individuals to the centre they were sampled from
        double t = 0;
        for (size_t i = 0; i < pop; i++) t += weight[i] * bits_of(q[i].x ^ center.x);
        t /= double(sel) * n;
        rate += lr * (t - rate);
        rate = std::max(rmin, std::min(rmax, rate));
        if (!near(l[3], rate)) violate("mutation-rate:340", "the mutation rate is %g after iteration %zu; from the evaluations it is %g", l[3], k, rate);
        for (size_t i = 0; i < pop; i++) mutant(bits_of(q[i].x ^ center.x), used);
      } else rate = l[3];
      // the next centre
      if (repl <= 1) {
        Eval top = q[0];
        bool unique = true;
        for (auto& e : q) if (e.v == top.v && e.x != top.x) unique = false;
        if (repl == 1 || top.v >= center.v) { center = top; center_known = unique; }
      } else if (repl <= 3) {
        // each bit as in the majority of the selected individuals, or one bit at a time
        std::vector<double> like(size_t(n), 0);
        key_t64 ref = repl == 3 ? center.x : 0;
        double ext = used < 0.5 ? -1 : double(sel) + 1;
        for (int j = 0; j < n; j++) {
          for (size_t i = 0; i < pop; i++) like[size_t(j)] += weight[i] * double(((q[i].x ^ ref) >> j) & 1);
          ext = used < 0.5 ? std::max(ext, like[size_t(j)]) : std::min(ext, like[size_t(j)]);
        }
        const double eps = 1e-9 * double(sel), half = double(sel) / 2, sign = used < 0.5 ? 1 : -1;
        const bool clear = std::fabs(used - 0.5) > 1e-4;      // the log has six digits: around one half the rule may be either
        if (repl == 2) {
          Eval c = s[pop];
          for (int j = 0; j < n; j++) {
            double d = sign * (like[size_t(j)] - half);
            if (clear) if ((d > eps && !((c.x >> j) & 1)) || (d < -eps && ((c.x >> j) & 1)))
              violate("center:340", "bit %d of the centre %s after iteration %zu is not that of the majority of the selected (%g of %zu)", j, show(c.x, n).c_str(), k, like[size_t(j)], sel);
          }
          center = c;
        } else {
          double d = sign * (ext - half);
          if (clear && center_known) {
            if (d > eps && s.size() == pop) violate("center:340", "the centre stays after iteration %zu although one of its bits is in the minority", k);
            if (d < -eps && s.size() > pop) violate("center:340", "the centre moves after iteration %zu although all of its bits are in the majority", k);
          }
          if (s.size() > pop) {
            key_t64 f = s[pop].x ^ center.x;
            if (center_known) {
              if (bits_of(f) != 1) violate("center:340", "the centre moves by %d bits in iteration %zu", bits_of(f), k);
              if (clear && f && std::fabs(like[size_t(__builtin_ctzll(uint64_t(f)))] - ext) > eps) violate("center:340", "the bit of the centre that changes in iteration %zu is not the one most selected individuals disagree with", k);
            }
            center = s[pop];
          }
        }
        center_known = true;
      }
      if (!near(l[4], center.v)) violate("center:340", "the centre has value %g after iteration %zu; it should be %g", l[4], k, center.v);
      break;
    }
    }
    if (fields == 3 + size_t(n) + 1) {
      double ent = 0;
      for (int j = 0; j < n; j++) {
        double q = l[4 + size_t(j)];
        if (q < lo - 1e-5 || q > hi + 1e-5) violate("model-bounds:" + tag, "component %d of the probability vector is %g after iteration %zu, bounds %g and %g", j, q, k, lo, hi);
        if (!open && !near(q, pv[size_t(j)]))
          violate("model:" + tag, "component %d of the probability vector of %s is %g after iteration %zu; from what it sampled it is %g (before: %g)", j, r.info->name, q, k, pv[size_t(j)], before[size_t(j)]);
        double ql = std::max(lo, std::min(hi, pv_lo[size_t(j)])), qh = std::max(lo, std::min(hi, pv_hi[size_t(j)]));
        if (open && (q < ql - 2e-5 || q > qh + 2e-5 || (id == 700 && !near(q, ql) && !near(q, qh))))
          violate("model:" + tag, "component %d of the probability vector of %s is %g after iteration %zu; from what it sampled, with ties, it is between %g and %g (before: %g)", j, r.info->name, q, k, ql, qh, before[size_t(j)]);
        if (q > 0 && q < 1) ent -= q * std::log(q) + (1 - q) * std::log(1 - q);
        if (sampled && k > 0)
          for (auto& e : s) { zs[size_t(j)] += double((e.x >> j) & 1) - before[size_t(j)]; zv[size_t(j)] += before[size_t(j)] * (1 - before[size_t(j)]); }
        if (open) pv[size_t(j)] = q;
      }
      if (std::fabs(l[3] - ent) > 1e-4 * (1 + ent)) violate("entropy:" + tag, "entropy %g is logged, the probability vector has %g", l[3], ent);
      if (open) count("ties");
    }
  }
  if (dv > 30 && std::fabs(ds) > 12 * std::sqrt(dv)) violate("mutants:" + tag, "mutants differ from their parents by %g bits more than the mutation rate says, standard deviation %g", ds, std::sqrt(dv));
  // samples follow the model: a deviation of 12 standard deviations does not happen by chance
  for (int j = 0; j < n; j++)
    if (zv[size_t(j)] > 30 && std::fabs(zs[size_t(j)]) > 12 * std::sqrt(zv[size_t(j)]))
      violate("samples:" + tag, "bit %d was one %g times more often than its probability says, standard deviation %g", j, zs[size_t(j)], std::sqrt(zv[size_t(j)]));
}
Register R23(Prop{"H23", false, false, gen23, exec23});

// ---------------------------------------------------------------- H24: moves of local search
const std::vector<int> LOCAL = {100, 100, 300, 301, 20, 150, 150, 160, 160, 200, 200, 200, 450, 0, 10};

Plan gen24(Rng& r, int, bool thorough) {
  Plan p;
  GenOpts o;
  o.controllers = false;
  o.restart = false;
  o.max_budget = thorough ? 3000 : 400;
  o.max_n = thorough ? 30 : 16;
  gen_run(p, r, o);
  int id = r.pick(LOCAL);
  p.set("alg", alg_index(id));
  p.set("inc", ALGS[size_t(alg_index(id))].incremental && r.chance(1, 2));
  p.set("threads", 1);
  p.set("budget", r.range(5, o.max_budget));
  p.set("radius", r.range(1, 4));
  p.set("patience", r.chance(1, 2) ? r.range(1, 30) : 0);
  p.set("iters", r.chance(1, 3) ? r.range(1, 40) : 0);
  if (id == 0) { p.set("n", r.range(2, 8)); p.set("budget", r.chance(2, 3) ? 300 : r.range(1, 300)); }
  if (id == 200 && r.chance(1, 2)) { p.set("nb", 0); p.set("budget", r.range(100, thorough ? 3000 : 800)); p.set("iters", 0); }
  return p;
}

void exec24(const Plan& p0) {
  Plan p = p0;
  for (auto k : {"cache", "target", "restart", "noise", "minimize"}) p.set(k, 0);
  p.set("failat", -1);
  p.set("threads", 1);
  {
    int id = plan_alg(p).id;
    if (std::find(LOCAL.begin(), LOCAL.end(), id) == LOCAL.end()) p.set("alg", alg_index(100));
  }
  Run r(p);
  r.make_functions();
  r.make_algorithm();
  Outcome o = r.maximize();
  std::string tag = std::to_string(r.info->id);
  if (o == ERROR) violate("run-error:" + tag, "maximize failed: %s", r.error.c_str());
  if (!r.finalize()) violate("finalize-error:" + tag, "finalize failed: %s", r.error.c_str());
  env::on = false;
  count(outcome_names[o]);
  count(r.info->name);
  cover_run(r, o);
  const auto& opt = *r.options;
  const int n = r.n, id = r.info->id, nb = opt.get_neighborhood(), radius = opt.get_radius();
  std::vector<Eval> h;
  for (auto& e : r.spy->ops) if (e.type != SAFE && e.exc == X_NONE) h.push_back(Eval{e.x, e.v});
  if (h.size() < 2) return;
  nontrivial();
  if (r.has_start && h[0].x != r.start) violate("starting-point:" + tag, "told to start from %s, the run starts from %s", show(r.start, n).c_str(), show(h[0].x, n).c_str());
  const bool none = opt.with_ea_allow_no_mutation();
  auto neighbour = [&](key_t64 x, key_t64 y) {
    int d = bits_of(x ^ y);
    if (id == 300 || id == 301) return d > 0 || none;
    switch (nb) {
    case 0: return d == 1;
    case 1: return d > 0 || none;
    case 2: return d >= 1 && d <= radius;
    default: return d == radius;
    }
  };
  auto where = [&](size_t i) { return "evaluation " + std::to_string(i) + ", " + show(h[i].x, n); };
  double ds = 0, dv = 0;           // a sum that should be zero, its variance
  // the number of bits that a random move flips
  auto moved = [&](key_t64 a, key_t64 b) {
    if (id == 301 || (id != 300 && nb != 1 && nb != 2)) return;
    double m, m2;
    if (id != 300 && nb == 2) { m = (1 + radius) / 2.0; m2 = m * m + (double(radius) * radius - 1) / 12; }
    else {
      double q = opt.with_ea_mutation_rate() ? opt.get_ea_mutation_rate() : 1 / double(n);
      m = n * q, m2 = n * q * (1 - q) + m * m;
      if (!none) { double z = -std::expm1(n * std::log1p(-q)); m /= z; m2 /= z; }
    }
    ds += bits_of(a ^ b) - m;
    dv += m2 - m * m;
  };
  switch (id) {
  case 0: {
    std::vector<key_t64> xs;
    for (auto& e : h) xs.push_back(e.x);
    std::sort(xs.begin(), xs.end());
    for (size_t i = 1; i < xs.size(); i++) if (xs[i] == xs[i - 1]) violate("point-twice:0", "complete search evaluates %s twice", show(xs[i], n).c_str());
    if (o == RETURNED && xs.size() != size_t(1) << n) violate("incomplete:0", "complete search ends after %zu of 2^%d points", xs.size(), n);
    break;
  }
  case 10:
    for (auto& e : h) { ds += bits_of(e.x) - n / 2.0; dv += n / 4.0; }
    break;
  case 20:
    for (size_t i = 1; i < h.size(); i++) {
      moved(h[i - 1].x, h[i].x);
      if (!neighbour(h[i - 1].x, h[i].x)) violate("not-a-neighbour:20", "%s is no neighbour of the point before, %s (neighbourhood %d, radius %d)", where(i).c_str(), show(h[i - 1].x, n).c_str(), nb, radius);
    }
    break;
  case 100: case 300: case 301: {
    Eval c = h[0];
    int64_t failures = 0, patience = id == 100 ? opt.get_rls_patience() : 0;
    bool strict = id == 100 && opt.with_rls_strict();
    for (size_t i = 1; i < h.size(); i++) {
      if (patience > 0 && failures >= patience) violate("goes-on:" + tag, "%s although there were %ld failures in a row, patience %ld", where(i).c_str(), long(failures), long(patience));
      if (!neighbour(c.x, h[i].x)) violate("not-a-neighbour:" + tag, "%s is no neighbour of the current point %s (neighbourhood %d, radius %d)", where(i).c_str(), show(c.x, n).c_str(), nb, radius);
      moved(c.x, h[i].x);
      if (strict ? h[i].v > c.v : h[i].v >= c.v) { c = h[i]; failures = 0; }
      else failures++;
    }
    int64_t it = int64_t(h.size()) - 1;
    if (o == RETURNED && !(patience > 0 && failures == patience) && it != opt.get_num_iterations())
      violate("gives-up:" + tag, "the run ends after %ld iterations with %ld failures in a row, patience %ld, iterations %d", long(it), long(failures), long(patience), opt.get_num_iterations());
    key_t64 s = key_of(r.algorithm->get_solution().first);
    if (s != c.x) violate("solution-not-current:" + tag, "the run hands over %s, its current point is %s", show(s, n).c_str(), show(c.x, n).c_str());
    break;
  }
  case 150: case 160: {
    int d = opt.get_neighborhood_iterator() ? radius : 1;
    std::vector<key_t64> all;
    for (key_t64 x = 0; x < (key_t64(1) << std::min(n, 16)); x++) if (bits_of(x) == d) all.push_back(x);
    if (n > 16) return;
    std::vector<Eval> cur = {h[0]};      // one of these is the current point
    size_t i = 1;
    int it = 0;
    bool top = false;
    while (i < h.size()) {
      if (top) violate("goes-on:" + tag, "%s although %s is a local maximum", where(i).c_str(), show(cur[0].x, n).c_str());
      // the points of this step
      size_t stop = i;
      std::vector<Eval> next;
      bool complete = false;
      std::vector<Eval> keep = cur;
      std::vector<key_t64> seen;
      for (; stop < h.size(); stop++) {
        std::vector<Eval> k2;
        for (auto& c : keep) if (bits_of(c.x ^ h[stop].x) == d) k2.push_back(c);
        if (k2.empty()) violate("not-a-neighbour:" + tag, "%s is no neighbour of the current point %s", where(stop).c_str(), show(cur[0].x, n).c_str());
        if (std::find(seen.begin(), seen.end(), h[stop].x) != seen.end()) violate("neighbour-twice:" + tag, "%s was evaluated before in this step", where(stop).c_str());
        seen.push_back(h[stop].x);
        keep = k2;
        if (id == 160 && h[stop].v > keep[0].v) { next = {h[stop]}; stop++; complete = true; break; }
        if (seen.size() == all.size()) { stop++; complete = true; break; }
      }
      if (!complete) break;
      it++;
      if (id == 150) {
        double best = h[i].v;
        for (size_t j = i; j < stop; j++) best = std::max(best, h[j].v);
        if (best > keep[0].v) for (size_t j = i; j < stop; j++) if (h[j].v == best) next.push_back(h[j]);
      }
      if (next.empty()) { top = true; cur = keep; } else cur = next;
      i = stop;
    }
    if (o == RETURNED && !top && it != opt.get_num_iterations()) violate("no-local-maximum:" + tag, "the run ends in %s after %d iterations, which is not known to be a local maximum", show(cur[0].x, n).c_str(), it);
    if (o == RETURNED && top) {
      count("local maxima");
      key_t64 s = key_of(r.algorithm->get_solution().first);
      for (auto m : all) if (r.truth(s ^ m) > r.truth(s)) violate("no-local-maximum:" + tag, "the run ends in %s although %s is better", show(s, n).c_str(), show(s ^ m, n).c_str());
    }
    break;
  }
  case 200: {
    size_t trials = size_t(opt.get_sa_num_trials());
    Eval best = h[0];
    size_t i = 1;
    for (size_t t = 0; t < trials && i < h.size(); t++) {
      if (h[i].v > best.v) best = h[i];
      if (++i >= h.size()) break;
      if (!neighbour(h[i - 1].x, h[i].x)) violate("not-a-neighbour:200", "%s is no neighbour of the trial point before, %s", where(i).c_str(), show(h[i - 1].x, n).c_str());
      moved(h[i - 1].x, h[i].x);
      if (h[i].v > best.v) best = h[i];
      i++;
    }
    if (nb == 0) {
      // moves of one bit: the next point tells whether this one was accepted
      double delta = 0, count = 0;
      if (h.size() < 1 + 2 * trials) break;
      for (size_t t = 0; t < trials; t++) if (h[2 + 2 * t].v < h[1 + 2 * t].v) { delta += h[2 + 2 * t].v - h[1 + 2 * t].v; count++; }
      double beta = std::log(opt.get_sa_initial_acceptance_probability()) / (delta / count);
      std::vector<Eval> starts;
      for (size_t j = 0; j <= 2 * trials; j++) if (h[j].v == best.v) starts.push_back(h[j]);
      Eval c = best;
      bool known = starts.size() == 1 || n > 2;
      int transitions = 0;
      for (; i < h.size() && known; i++) {
        if (starts.size() > 1) {             // equally good trial points: the first move tells
          std::vector<Eval> left;
          for (auto& e : starts) if (neighbour(e.x, h[i].x)) left.push_back(e);
          if (left.empty()) violate("not-a-neighbour:200", "%s is no neighbour of a best trial point", where(i).c_str());
          for (auto& e : left) if (e.x != left[0].x) known = false;
          if (!known) break;
          c = left[0];
          starts.clear();
        }
        if (!neighbour(c.x, h[i].x)) violate("not-a-neighbour:200", "%s is no neighbour of the current point %s", where(i).c_str(), show(c.x, n).c_str());
        if (h[i].v >= c.v) { c = h[i]; continue; }
        if (i + 1 == h.size()) break;
        bool stays = neighbour(c.x, h[i + 1].x), moves = neighbour(h[i].x, h[i + 1].x);
        if (stays == moves) violate("not-a-neighbour:200", "%s is no neighbour of the current point", where(i + 1).c_str());
        if (count > 0) {
          double q = std::exp((h[i].v - c.v) * beta);
          if (moves && q < 1e-15) violate("acceptance:200", "%s is accepted although its probability is %g", where(i).c_str(), q);
          ds += double(moves) - q;
          dv += q * (1 - q);
        }
        if (moves) {
          c = h[i];
          if (++transitions == opt.get_sa_num_transitions()) { transitions = 0; beta *= opt.get_sa_beta_ratio(); }
        }
      }
      sim::count("annealing decided");
      break;
    }
    std::vector<Eval> cur = {best};
    for (; i < h.size(); i++) {
      std::vector<Eval> next;
      bool any = false;
      for (auto& c : cur) {
        if (!neighbour(c.x, h[i].x)) continue;
        any = true;
        if (h[i].v < c.v) next.push_back(c);          // refused
      }
      if (!any) violate("not-a-neighbour:200", "%s is no neighbour of a current point, e.g. %s", where(i).c_str(), show(cur[0].x, n).c_str());
      next.push_back(h[i]);                           // accepted, maybe in spite of its value
      if (next.size() > 64) break;
      cur = next;
    }
    break;
  }
  case 450: {
    size_t mu = size_t(opt.get_ea_mu());
    Eval c = h[0];
    std::vector<Eval> cs = {c};
    for (size_t i = 1; i + 2 * mu <= h.size(); i += 2 * mu) {
      std::vector<Eval> next;
      bool any = false, counted = false;
      for (auto& c : cs) {
        int d = bits_of(c.x ^ h[i].x);
        double best = h[i].v;
        bool same = true;
        for (size_t j = i; j < i + mu; j++) { same = same && bits_of(c.x ^ h[j].x) == d; best = std::max(best, h[j].v); }
        if (!same) continue;
        // all offspring of the crossover lie between the current point and one of the best mutants
        for (size_t j = i; j < i + mu; j++) {
          if (h[j].v != best) continue;
          key_t64 mask = c.x ^ h[j].x;
          bool in = true;
          for (size_t k = i + mu; k < i + 2 * mu; k++) in = in && ((h[k].x ^ c.x) & ~mask) == 0;
          if (!in) continue;
          any = true;
          if (cs.size() == 1 && best > -HUGE_VAL) {
            bool unique = true;
            for (size_t k = i; k < i + mu; k++) if (h[k].v == best && h[k].x != h[j].x) unique = false;
            double q = opt.get_ea_crossover_bias();
            if (unique && !counted) for (size_t k = i + mu; k < i + 2 * mu; k++) { ds += bits_of(h[k].x ^ c.x) - q * d; dv += q * (1 - q) * d; }
            counted = true;
          }
          double top = h[i + mu].v;
          for (size_t k = i + mu; k < i + 2 * mu; k++) top = std::max(top, h[k].v);
          if (top >= c.v) { for (size_t k = i + mu; k < i + 2 * mu; k++) if (h[k].v == top) next.push_back(h[k]); }
          else next.push_back(c);
        }
      }
      if (!any) violate("not-an-offspring:450", "generation at evaluation %zu: mutants at different distances of the current point %s, or offspring that are no crossover of it and a best mutant", i, show(cs[0].x, n).c_str());
      std::sort(next.begin(), next.end(), [](const Eval& a, const Eval& b) { return a.x < b.x; });
      next.erase(std::unique(next.begin(), next.end(), [](const Eval& a, const Eval& b) { return a.x == b.x; }), next.end());
      if (next.size() > 64) break;
      cs = next;
    }
    break;
  }
  }
  if (dv > 30 && std::fabs(ds) > 12 * std::sqrt(dv)) violate("frequency:" + tag, "%g too many %s, standard deviation %g", ds, id == 200 && nb == 0 ? "worse points accepted" : "bits set or flipped", std::sqrt(dv));
}
Register R24(Prop{"H24", false, false, gen24, exec24});

} // namespace

// ---------------------------------------------------------------- H25: generations
namespace {
const std::vector<int> GENER = {310, 320, 400, 400};

Plan gen25(Rng& r, int, bool thorough) {
  Plan p;
  GenOpts o;
  o.controllers = false;
  o.restart = false;
  o.max_budget = thorough ? 2000 : 300;
  o.max_n = 40;
  gen_run(p, r, o);
  p.set("alg", alg_index(r.pick(GENER)));
  p.set("n", r.range(16, 40));
  if (r.chance(2, 3)) p.set("land", r.chance(1, 2) ? 5 : 8);
  p.set("threads", r.chance(1, 3) ? r.range(2, 4) : 1);
  p.set("budget", r.chance(1, 12) ? r.range(600, 4000) : r.range(20, o.max_budget));
  p.set("iters", r.chance(1, 3) ? r.range(1, 12) : 0);
  p.set("inc", 0);
  p.set("tiny", 1);
  return p;
}

// More than this many bits in n are never flipped at rate q, not even once in 10^13 offspring.
int flips_at_most(int n, double q, bool none) {
  for (int d = 0; d < n; d++) {
    double tail = 0;
    for (int k = d + 1; k <= n; k++) tail += std::exp(std::lgamma(n + 1) - std::lgamma(k + 1) - std::lgamma(n - k + 1) + k * std::log(q) + (n - k) * std::log1p(-q));
    if (tail < 1e-13 * (none ? 1 : -std::expm1(n * std::log1p(-q)))) return d;
  }
  return n;
}

void exec25(const Plan& p0) {
  Plan p = p0;
  for (auto k : {"cache", "target", "restart", "noise", "minimize", "inc"}) p.set(k, 0);
  p.set("failat", -1);
  p.set("tiny", 1);
  p.set("algolog", 0);
  {
    int id = plan_alg(p).id;
    if (std::find(GENER.begin(), GENER.end(), id) == GENER.end()) p.set("alg", alg_index(310));
  }
  Run r(p);
  r.make_functions();
  r.make_algorithm();
  Outcome o = r.maximize();
  std::string tag = std::to_string(r.info->id);
  if (o == ERROR) violate("run-error:" + tag, "maximize failed: %s", r.error.c_str());
  env::on = false;
  count(outcome_names[o]);
  count(r.info->name);
  cover_run(r, o);
  const auto& opt = *r.options;
  const int n = r.n, id = r.info->id;
  std::vector<Eval> h;
  for (auto& e : r.spy->ops) if (e.type != SAFE && e.exc == X_NONE) h.push_back(Eval{e.x, e.v});
  const size_t mu = size_t(opt.get_ea_mu()), lambda = id == 400 ? mu : size_t(opt.get_ea_lambda());
  size_t pos = id == 320 ? 1 : mu;
  if (h.size() < pos) return;
  const double q = opt.with_ea_mutation_rate() ? opt.get_ea_mutation_rate() : 1 / double(n);
  const int most = std::max(1, flips_at_most(n, q, opt.with_ea_allow_no_mutation()));
  MinDist far(n, q, opt.with_ea_allow_no_mutation());
  const double cross = id == 400 ? opt.get_ea_crossover_probability() : 0;
  const size_t tour = id == 400 ? size_t(opt.get_ea_tournament_size()) : 1;
  std::vector<Eval> parents(h.begin(), h.begin() + long(pos));        // among them are all parents, maybe some more
  // Likelihood-ratio martingales against "each parent equally likely": one parent, by rank, preferred or left out
  std::vector<double> pick(2 * mu, 0.0);
  bool known = id != 320;                                            // this one does not evaluate its first parents
  for (; pos < h.size(); pos += lambda) {
    size_t stop = std::min(h.size(), pos + lambda);
    if (known) {
      std::vector<Eval> winners;
      for (auto& e : parents) {
        size_t worse = 0;
        for (auto& f : parents) worse += f.v <= e.v;
        if (worse >= tour) winners.push_back(e);
      }
      key_t64 ones = 0, zeros = 0;
      for (auto& e : winners) { ones |= e.x; zeros |= ~e.x; }
      for (size_t i = pos; i < stop; i++) {
        nontrivial();
        int d = n;
        if (cross > 0) {
          key_t64 x = h[i].x, all = (key_t64(1) << n) - 1;
          d = bits_of(((x & ~ones) | (~x & ~zeros)) & all);
        } else
          for (auto& e : winners) d = std::min(d, bits_of(e.x ^ h[i].x));
        if (id != 400 && mu > 1 && mu <= 60 && parents.size() == mu && q > 0 && q < 0.5) {
          std::vector<double> l(mu);
          double sum = 0;
          for (size_t k = 0; k < mu; k++) {
            int e = bits_of(parents[k].x ^ h[i].x);
            l[k] = e == 0 && !opt.with_ea_allow_no_mutation() ? 0 : std::pow(q / (1 - q), e);
            sum += l[k];
          }
          if (sum > 0) {
            for (size_t k = 0; k < mu; k++) {
              pick[2 * k] += std::log(0.8 + 0.2 * double(mu) * l[k] / sum);
              pick[2 * k + 1] += std::log(0.2 + 0.8 * (sum - l[k]) / double(mu - 1) * double(mu) / sum);
            }
            count("parent choice judged");
            size_t k = size_t(std::max_element(pick.begin(), pick.end()) - pick.begin());
            if (pick[k] > 40) violate("unfair-parents:" + tag, "in %zu evaluations the parent of rank %zu of %zu is chosen too %s", i + 1, k / 2, mu, k % 2 ? "rarely" : "often");
          }
        }
        far.add(d);
        if (far.top() > 36) violate("offspring-far:" + tag, "the first %zu evaluations are too far from all possible parents for mutations at rate %g", i + 1, q);
        if (d > most)
          violate("no-offspring:" + tag, "evaluation %zu, %s, differs by %d bits from %s of %zu possible parents; more than %d are not flipped at rate %g", i, show(h[i].x, n).c_str(), d, cross > 0 ? "every mix" : "each", winners.size(), most, q);
      }
    }
    if (stop - pos < lambda) break;
    // the next parents
    std::vector<Eval> all(h.begin() + long(pos), h.begin() + long(stop));
    if (id == 310) all.insert(all.end(), parents.begin(), parents.end());
    std::stable_sort(all.begin(), all.end(), [](const Eval& a, const Eval& b) { return a.v > b.v; });
    size_t m = std::min(mu, all.size());
    while (m < all.size() && all[m].v == all[mu - 1].v) m++;
    if (m != mu) count("ties");
    all.resize(m);
    parents = all;
    known = true;
  }
}
Register R25(Prop{"H25", false, false, gen25, exec25});
} // namespace
