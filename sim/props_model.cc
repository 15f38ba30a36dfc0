// H26: interactive search with a simulated user. H27: noise. H28: models of interactions.
#include "stack.hh"
#include <algorithm>
#include <cmath>
#include <iostream>
#include <sstream>
using namespace sim;
using namespace hnco;

namespace {

bool near(double a, double b) { return a == b || std::fabs(a - b) <= 2e-5 * (1 + std::fabs(b)); }
std::string general(double v) { std::ostringstream s; s << v; return s.str(); }

// ---------------------------------------------------------------- H26
// Lines the user types: pairs (kind, bits). Kinds 0-4: a bit vector of the right length; 5: too short; 6: too long;
// 7: quit; 8: a word with white space around it. Input ends after the last line.
Plan gen26(Rng& r, int, bool thorough) {
  Plan p;
  GenOpts o;
  o.max_n = 20;
  o.max_budget = thorough ? 200 : 40;
  o.fail = true;
  o.threads = false;
  gen_run(p, r, o);
  p.set("n", r.range(2, 12));
  p.set("restart", r.chance(1, 4));
  p.set("iters", r.chance(1, 3) ? r.range(1, 10) : 0);
  if (!r.chance(1, 3)) p.set("budget", r.range(20, 200));
  auto& l = p.mut("L2.typed");
  int64_t k = r.small(0, thorough ? 120 : 40);
  for (int64_t i = 0; i < k; i++) {
    int64_t kind = r.range(0, 9);
    if (kind == 7 && !r.chance(1, 4)) kind = 0;
    l.push_back(kind);
    l.push_back(r.range(0, (int64_t(1) << 40) - 1));
  }
  p.set("lastnl", r.chance(3, 4));
  return p;
}

void exec26(const Plan& p0) {
  Plan p = p0;
  p.set("threads", 1);
  p.set("noise", 0);
  p.set("inc", 0);
  Run r(p);
  for (auto& a : r.args) if (a.rfind("--algorithm=", 0) == 0) a = "--algorithm=30";
  r.options = make_options(r.args);
  r.dff.reset(new app::DecoratedFunctionFactory(*r.options, *r.ff));
  r.af.reset(new app::CommandLineAlgorithmFactory(*r.options));
  r.make_functions();
  r.make_algorithm();
  const int n = r.n;
  // what the user types, and what should happen
  std::string typed;
  struct Say { int kind; key_t64 x; };            // 0: evaluate x; 1: too short; 2: shortened, evaluate x; 3: quit
  std::vector<Say> says;
  const auto& l = p.list("L2.typed");
  for (size_t i = 0; i + 1 < l.size() && i < 1000; i += 2) {
    int kind = int(std::max<int64_t>(0, std::min<int64_t>(9, l[i])));
    key_t64 b = key_t64(l[i + 1]);
    int len = kind == 5 ? int(b >> 32) % n : kind == 6 ? n + 1 + int(b >> 32) % 20 : n;
    if (kind == 5 && len == 0) len = n > 1 ? 1 : 0;
    std::string w;
    for (int j = 0; j < len; j++) w += char('0' + int((b >> (j % 32)) & 1));
    if (kind == 7) { w = "quit"; len = 0; }
    if (w.empty()) continue;
    key_t64 x = 0;
    for (int j = 0; j < n && j < len; j++) if (w[size_t(j)] == '1') x |= key_t64(1) << j;
    says.push_back(Say{kind == 7 ? 3 : kind == 5 ? 1 : kind == 6 ? 2 : 0, x});
    if (kind == 8) typed += (b & 1) ? "  " : "\n\t";
    typed += w;
    typed += kind == 8 ? "   \n\n" : kind == 9 ? " " : "\n";
  }
  if (!p.get("lastnl", 1, 0, 1)) while (!typed.empty() && isspace((unsigned char)typed.back())) typed.pop_back();
  std::istringstream in(typed);
  std::ostringstream out;
  auto* oldin = std::cin.rdbuf(in.rdbuf());
  auto* oldout = std::cout.rdbuf(out.rdbuf());
  std::cin.clear();
  Outcome o;
  try { o = r.maximize(); } catch (...) { std::cin.rdbuf(oldin); std::cin.clear(); std::cout.rdbuf(oldout); throw; }
  std::cin.rdbuf(oldin);
  std::cin.clear();
  std::cout.rdbuf(oldout);
  env::on = false;
  count(outcome_names[o]);
  cover(hash_str(typed.substr(0, 12)));
  cover_run(r, o);
  if (o == ERROR) violate("run-error:30", "maximize failed: %s", r.error.c_str());

  // expected dialogue
  std::string want;
  size_t evals = 0, iters = 0;
  const size_t most = size_t(r.options->get_num_iterations());
  bool ended = false;
  std::vector<Op> ops;
  for (auto& e : r.spy->ops) if (e.type != SAFE && e.type != UPDATE) ops.push_back(e);
  size_t used = 0;
  for (; !ended && used < says.size(); used++) {
    const Say& s = says[used];
    want += "bv? ";
    if (s.kind == 3) { count("quit"); break; }
    if (s.kind == 1) { want += "Warning: bit vector is too short\n"; count("too short"); continue; }
    if (s.kind == 2) { want += "Warning: bit vector has been shortened\n"; count("shortened"); }
    if (evals >= ops.size()) violate("not-evaluated:30", "the user typed %s, which was not evaluated", show(s.x, n).c_str());
    const Op& e = ops[evals];
    if (e.x != s.x) violate("evaluated-other:30", "the user typed %s, %s was evaluated", show(s.x, n).c_str(), show(e.x, n).c_str());
    evals++;
    nontrivial();
    if (e.exc != X_NONE) { ended = true; break; }
    if (e.v != r.truth(s.x)) violate("value:30", "%s has value %g, %g was returned", show(s.x, n).c_str(), r.truth(s.x), e.v);
    want += "value: " + general(e.v) + "\n";
    // the first evaluation of each run belongs to its initialisation
    if (++iters == most + 1 && most) { iters = 0; if (!r.restart) ended = true; }
  }
  if (evals != ops.size()) violate("not-asked:30", "%zu points were evaluated, %zu were asked for", ops.size(), evals);
  bool eof = !ended && used == says.size();
  if (eof) { want += "bv? "; count("end of input"); }
  // the values and the warnings printed, whatever the words around them
  auto heard = [](const std::string& t) {
    std::vector<std::string> v;
    for (size_t i = 0; i < t.size(); i++) {
      if (t.compare(i, 6, "value:") == 0) { std::istringstream w(t.substr(i + 6)); std::string x; w >> x; v.push_back(x); }
      if (t.compare(i, 8, "Warning:") == 0) v.push_back(t.substr(i, t.find('\n', i) - i).find("short ") == std::string::npos && t.substr(i, t.find('\n', i) - i).find("too short") == std::string::npos ? "shortened" : "too short");
    }
    return v;
  };
  auto g = heard(out.str()), w = heard(want);
  for (size_t i = 0; i < std::max(g.size(), w.size()); i++)
    if (i >= g.size() || i >= w.size() || g[i] != w[i])
      violate("dialogue:30", "answer %zu is \"%s\" instead of \"%s\"", i, i < g.size() ? g[i].c_str() : "", i < w.size() ? w[i].c_str() : "");
  if (!ended && o != BUDGET) violate("no-end:30", "the user %s; the run ended with: %s", eof ? "closed the input" : "quit", outcome_names[o]);
  if (ended && o == RETURNED && (!most || r.restart)) violate("no-end:30", "the run returned");
  // what is handed over
  double best = 0;
  size_t have = 0;
  for (auto& e : ops) if (e.exc == X_NONE || e.exc == X_TARGET) { double v = r.truth(e.x); if (!have++ || v > best) best = v; }
  if (have && o != FAILURE && r.tracker) {
    const auto& t = r.tracker->get_last_improvement();
    if (t.solution.second != best) violate("tracker:30", "the best value typed is %g, %g is reported", best, t.solution.second);
  }
  if (have && o == RETURNED) {
    auto s = r.algorithm->get_solution();
    if (s.second != best || r.truth(key_of(s.first)) != best) violate("solution:30", "the best value typed is %g, %g is handed over", best, s.second);
  }
}
Register R26(Prop{"H26", false, false, gen26, exec26});

// ---------------------------------------------------------------- evidence against a stated distribution
// Likelihood ratios of fixed alternatives to the distribution stated: martingales of mean one as long as it holds, so that
// the probability that one of them ever exceeds e^36 is below 3e-16.
struct Evidence {
  double l[10] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0};
  double top() const { return *std::max_element(l, l + 10); }
  void bit(double p1, int x) {
    double p = x ? p1 : 1 - p1, m = 1 - p;
    p = std::max(p, 1e-300);
    const double q[6] = {0.5 * p + 0.25, p * p / (p * p + m * m), std::sqrt(p) / (std::sqrt(p) + std::sqrt(m)), 0.1 * p + 0.9 * m,
                         (x ? 2 * p : p) / (x ? 2 * p + m : p + 2 * m), (x ? p : 2 * p) / (x ? p + 2 * m : 2 * p + m)};
    for (int i = 0; i < 6; i++) l[i] += std::log(std::max(q[i], 1e-300) / p);
  }
  void state(const std::vector<double>& d, key_t64 x, bool known, key_t64 before) {
    double p = std::max(d[x], 1e-300), z[4] = {0, 0, 0, 0};
    for (size_t s = 0; s < d.size(); s++) {
      double t = double(1 << bits_of(s));
      z[0] += d[s] * d[s]; z[1] += std::sqrt(d[s]); z[2] += d[s] * t; z[3] += d[s] / t;
    }
    double t = double(1 << bits_of(x));
    l[0] += std::log((0.5 * p + 0.5 / double(d.size())) / p);
    l[1] += std::log(std::max(p * p / z[0], 1e-300) / p);
    l[2] += std::log(std::sqrt(p) / z[1] / p);
    l[3] += std::log(p * t / z[2] / p);
    l[4] += std::log(p / t / z[3] / p);
    if (known) {
      l[5] += std::log((0.5 * p + 0.5 * (x == before)) / p);
      l[6] += std::log((0.5 * p + 0.5 * (x != before) / double(d.size() - 1)) / p);
    }
  }
  void add(double logq[10], double logp) { for (int i = 0; i < 10; i++) l[i] += logq[i] - logp; }
};

// ---------------------------------------------------------------- H27
Plan gen27(Rng& r, int, bool thorough) {
  Plan p;
  p.set("n", r.range(1, 16));
  p.set("land", r.range(0, kLandscapes - 1));
  p.set("lseed", r.range(0, 1000));
  p.set("seed", r.range(0, 1000000));
  p.set("kind", r.range(1, 3));                  // 1: prior, 2: additive, 3: both
  p.set("nb", r.range(0, 3));
  p.set("radius", r.range(1, 5));
  p.set("rate", r.range(0, 9));
  p.set("allow", r.chance(1, 2));
  p.set("sd", r.range(0, 4));
  p.set("minimize", r.chance(1, 4));
  p.set("stack", r.chance(1, 3));
  p.set("failat", r.chance(1, 6) ? r.small(0, 100) : -1);
  p.set("objects", r.range(1, 3));
  auto& l = p.mut("L2.calls");
  int64_t k = r.small(1, thorough ? 3000 : 400);
  std::vector<int64_t> pts;
  for (int i = 0; i < 4; i++) pts.push_back(r.range(0, 65535));
  for (int64_t i = 0; i < k; i++) { l.push_back(r.range(0, 11)); l.push_back(r.chance(3, 4) ? r.pick(pts) : r.range(0, 65535)); }
  return p;
}

double binom(int n, int k) { double b = 1; for (int i = 0; i < k; i++) b = b * (n - i) / (i + 1); return b; }

void exec27(const Plan& p) {
  const int n = int(p.get("n", 4, 1, 20));
  const int kind = int(p.get("kind", 1, 1, 3)), nb = int(p.get("nb", 0, 0, 3)), radius = int(std::min<int64_t>(n, p.get("radius", 1, 1, 6)));
  const bool allow = p.get("allow", 0, 0, 1), minimize = p.get("minimize", 0, 0, 1);
  static const double sds[] = {1, 0.25, 3, 100, 0.001};
  const double sd = sds[p.get("sd", 0, 0, 4)];
  const int64_t ri = p.get("rate", 0, 0, 9);
  const double rate = ri ? 0.1 * double(ri) : 1 / double(n);
  std::vector<std::string> args = {"--bv-size=" + std::to_string(n), "--budget=0"};
  if (kind & 1) {
    args.push_back("--prior-noise");
    args.push_back("--pn-neighborhood=" + std::to_string(nb));
    args.push_back("--pn-radius=" + std::to_string(radius));
    if (ri) args.push_back("--pn-mutation-rate=" + std::to_string(rate));
    if (allow) args.push_back("--pn-allow-no-mutation");
  }
  if (kind & 2) { args.push_back("--additive-gaussian-noise"); args.push_back("--noise-stddev=" + std::to_string(sd)); }
  if (minimize) args.push_back("--minimize");
  Landscape land;
  land.kind = int(p.get("land", 0, 0, kLandscapes - 1));
  land.n = n;
  land.seed = uint64_t(p.get("lseed", 0));
  auto options = make_options(args);
  std::vector<double> first, second;
  for (int pass = 0; pass < 2; pass++) {
    Ledger led;
    led.fail_at = p.get("failat", -1);
    SimFunctionFactory ff(land, led, false);
    app::DecoratedFunctionFactory dff(*options, ff);
    env::on = true;
    env::entropy = 17 + uint64_t(pass);
    env::now_ns = 1700000000ull * 1000000000ull;
    random::Generator::set_seed(unsigned(p.get("seed", 0, 0, 1 << 30)));
    random::Generator::reset();
    std::vector<function::Function*> fns;
    for (int i = 0; i < int(p.get("objects", 1, 1, 3)); i++) {
      auto* f = dff.make_function_modifier();
      if (i == 0 && p.get("stack", 0, 0, 1)) f = dff.make_function_controller(f);
      fns.push_back(f);
    }
    std::vector<double> got;
    Evidence size, which;
    double sum = 0, sq = 0;
    size_t draws = 0;
    std::vector<double> dist(size_t(n) + 1, 0);
    double most = 0;
    if (nb == 0) dist[1] = 1;
    else if (nb == 3) dist[size_t(radius)] = 1;
    else if (nb == 2) for (int k = 1; k <= radius; k++) dist[size_t(k)] = 1;           // which sizes; their weights are not stated
    else for (int k = 0; k <= n; k++) dist[size_t(k)] = binom(n, k) * std::pow(rate, k) * std::pow(1 - rate, n - k);
    if (nb == 1 && !allow) { double c = 1 - dist[0]; dist[0] = 0; for (auto& d : dist) d /= c; }
    std::vector<double> bs(size_t(n), 0), bv(size_t(n), 0);
    double last_noise = 0;
    size_t same = 0;
    const auto& l = p.list("L2.calls");
    for (size_t i = 0; i + 1 < l.size() && i < 12000; i += 2) {
      auto* f = fns[size_t(l[i] & 0xff) % fns.size()];
      key_t64 x = key_t64(l[i + 1]) & ((key_t64(1) << n) - 1);
      bit_vector_t b = bv_of(x, n);
      const bit_vector_t& given = b;
      size_t before = led.raw.size();
      double v;
      try { v = f->evaluate(given); }
      catch (const InjectedFailure&) { count("failing evaluation"); if (key_of(b) != x) violate("point-changed", "an evaluation that failed changed the point"); continue; }
      if (key_of(b) != x) violate("point-changed", "the evaluation of %s changed it to %s", show(x, n).c_str(), show(key_of(b), n).c_str());
      if (led.raw.size() != before + 1) violate("evaluations", "one noisy evaluation computed the function %zu times", led.raw.size() - before);
      const Raw& raw = led.raw.back();
      double clean = minimize ? -raw.v : raw.v, noise = v - clean;
      if (pass == 0) { first.push_back(v); nontrivial(); } else second.push_back(v);
      if (pass == 1) continue;
      if (!(kind & 2)) { if (v != clean) violate("value", "the value of %s is %g, %g was returned", show(raw.x, n).c_str(), clean, v); }
      else if (std::fabs(clean) < 1e6 * sd) {          // else rounding hides it
        sum += noise / sd; sq += noise / sd * (noise / sd); draws++;
        if (std::fabs(noise) > 12 * sd) violate("noise-size", "noise of %g was added, standard deviation %g", noise, sd);
        if (draws > 1 && noise == last_noise) same++;
        last_noise = noise;
      }
      int d = bits_of(raw.x ^ x);
      if (!(kind & 1)) { if (d) violate("point-other", "%s was evaluated instead of %s", show(raw.x, n).c_str(), show(x, n).c_str()); continue; }
      if (dist[size_t(d)] <= 0) violate("not-a-neighbour", "the value of %s is that of %s, at distance %d (neighbourhood %d, radius %d)", show(x, n).c_str(), show(raw.x, n).c_str(), d, nb, radius);
      if (nb == 1) {
        double lo = 0.5 * dist[size_t(d)] + 0.5 / double(n + 1);
        size.l[0] += std::log(lo / dist[size_t(d)]);
        double z2 = 0, zd = 0;
        for (int k = 0; k <= n; k++) { z2 += dist[size_t(k)] * std::pow(2, k); zd += dist[size_t(k)] / std::pow(2, k); }
        size.l[1] += std::log(std::pow(2, d) / z2);
        size.l[2] += std::log(1 / std::pow(2, d) / zd);
        if (size.top() > 36) violate("noise-rate", "the number of bits flipped is not what mutation rate %g gives (%s)", rate, allow ? "none allowed" : "at least one");
      }
      most = std::max(most, double(d));
      for (int j = 0; j < n; j++) { double e = double(d) / n; bs[size_t(j)] += double(((raw.x ^ x) >> j) & 1) - e; bv[size_t(j)] += e * (1 - e); }
    }
    env::on = false;
    if (pass) break;
    cover(mix(uint64_t(kind * 4 + nb), mix(uint64_t(n), uint64_t(l.size()))));
    count(kind == 1 ? "prior noise" : kind == 2 ? "additive noise" : "prior and additive noise");
    if (same > 2) violate("noise-frozen", "%zu of %zu evaluations had the same noise as the one before", same, draws);
    if (draws > 20) {
      double m = sum / std::sqrt(double(draws)), s2 = (sq - double(draws)) / std::sqrt(2 * double(draws));
      if (std::fabs(m) > 12) violate("noise-bias", "the mean of the noise is %g, %g standard deviations from 0", sum / double(draws) * sd, m);
      if (s2 > 40 || s2 < -std::sqrt(double(draws) / 2) * 0.9) violate("noise-stddev", "the standard deviation of the noise is %g instead of %g", sd * std::sqrt(sq / double(draws)), sd);
    }
    for (int j = 0; j < n; j++)
      if (bv[size_t(j)] > 20 && std::fabs(bs[size_t(j)]) > 12 * std::sqrt(bv[size_t(j)]))
        violate("noise-bits", "bit %d was flipped %g times more often than the others", j, bs[size_t(j)]);
    if (nb == 2 && (kind & 1) && first.size() > 300 && most < radius) violate("noise-radius", "%zu evaluations never flipped more than %g bits, radius %d", first.size(), most, radius);
    for (auto* f : fns) (void)f;
  }
  if (first != second) violate("not-repeatable", "the same seed gave other noise");
}
Register R27(Prop{"H27", false, false, gen27, exec27});

// ---------------------------------------------------------------- H28
const std::vector<int> MODELS = {900, 901, 1000, 1001, 1100};

Plan gen28(Rng& r, int, bool thorough) {
  Plan p;
  GenOpts o;
  o.controllers = false;
  o.restart = false;
  o.max_budget = thorough ? 2000 : 400;
  o.max_n = 14;
  gen_run(p, r, o);
  int id = r.pick(MODELS);
  p.set("alg", alg_index(id));
  if (r.chance(4, 5)) p.set("land", r.chance(1, 2) ? 5 : 8);
  if (r.chance(1, 2)) p.set("n", r.range(2, id >= 1100 ? 8 : 5));
  p.set("lr", r.range(0, 3));
  p.set("sel", r.range(1, 12));
  p.set("pop", r.range(2, 24));
  p.set("budget", r.range(20, o.max_budget));
  p.set("inc", 0);
  p.set("threads", r.chance(1, 4) ? r.range(2, 4) : 1);
  p.set("iters", r.chance(1, 3) ? r.range(1, 40) : 0);
  p.set("logint", r.range(0, 2));
  p.set("bmreset", r.range(0, 2));
  p.set("gs", r.range(1, 6));
  if (id == 1100 && r.chance(1, 3)) {        // few bits, many samples
    p.set("n", r.range(3, 5));
    p.set("pop", r.range(20, 60));
    p.set("sel", r.range(1, 20));
    p.set("budget", r.range(200, thorough ? 4000 : 1200));
    p.set("land", r.chance(1, 2) ? 5 : 8);
  }
  return p;
}

struct Eval { key_t64 x; double v; };
typedef std::vector<std::vector<double>> Mat;      // first moments on the diagonal

// Moment of some points: mean of products of signs.
Mat moment_of(const std::vector<Eval>& pts, int n) {
  Mat m(size_t(n), std::vector<double>(size_t(n), 0));
  auto sg = [](key_t64 x, int i) { return (x >> i) & 1 ? -1.0 : 1.0; };
  for (auto& e : pts)
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) m[size_t(i)][size_t(j)] += (i == j ? sg(e.x, i) : sg(e.x, i) * sg(e.x, j)) / double(pts.size());
  return m;
}
// The sel best (sign 1) or worst (-1); false if ties leave them open.
bool pick_of(const std::vector<Eval>& pop, size_t sel, int sign, std::vector<Eval>& out) {
  std::vector<Eval> s = pop;
  std::stable_sort(s.begin(), s.end(), [sign](const Eval& a, const Eval& b) { return sign * a.v > sign * b.v; });
  out.assign(s.begin(), s.begin() + long(sel));
  if (sel < s.size() && s[sel - 1].v == s[sel].v) {
    for (auto& e : s) if (e.v == s[sel].v && e.x != s[sel].x) return false;
  }
  return true;
}
double norm2(const Mat& m) { double s = 0; for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j <= i; j++) s += m[i][j] * m[i][j]; return std::sqrt(s); }

void check_gibbs(const Mat& par, int n, int mode, int steps, int cycles, bool known, key_t64 before, key_t64 x, Evidence& ev1, Evidence& ev2, const std::string& tag) {
  auto cond = [&](int i, key_t64 s) {
    double d = par[size_t(i)][size_t(i)];
    for (int j = 0; j < n; j++) if (j != i) d += (s >> j) & 1 ? -par[size_t(i)][size_t(j)] : par[size_t(i)][size_t(j)];
    return 1 / (1 + std::exp(2 * d));
  };
  if (mode == 0 && known && bits_of(x ^ before) > steps)
    violate("gibbs-steps:" + tag, "%d bits changed in %d steps of the Gibbs sampler", bits_of(x ^ before), steps);
  if (n > 5) {
    if (mode == 2 && cycles == 1 && known) for (int i = 0; i < n; i++) ev2.bit(cond(i, before), int((x >> i) & 1));
    return;
  }
  const size_t N = size_t(1) << n;
  std::vector<double> d(N, 0), e;
  if (known) d[before] = 1; else d.assign(N, 1 / double(N));
  auto upd = [&](const std::vector<double>& from, std::vector<double>& to, int i, double w) {
    for (size_t s = 0; s < N; s++) if (from[s] > 0) {
      double q = cond(i, s);
      to[s | (size_t(1) << i)] += w * from[s] * q;
      to[s & ~(size_t(1) << i)] += w * from[s] * (1 - q);
    }
  };
  if (mode == 0)
    for (int t = 0; t < steps; t++) { e.assign(N, 0); for (int i = 0; i < n; i++) upd(d, e, i, 1 / double(n)); d = e; }
  else for (int c = 0; c < cycles; c++) {
    if (mode == 1) {
      std::vector<std::vector<double>> f(N, std::vector<double>(N, 0));
      f[0] = d;
      for (size_t m = 0; m + 1 < N; m++) {
        int left = n - bits_of(m);
        for (int i = 0; i < n; i++) if (!((m >> i) & 1)) upd(f[m], f[m | (size_t(1) << i)], i, 1 / double(left));
      }
      d = f[N - 1];
    } else {
      e.assign(N, 0);
      for (size_t s = 0; s < N; s++) if (d[s] > 0) {
        double q[8];
        for (int i = 0; i < n; i++) q[i] = cond(i, s);
        for (size_t t = 0; t < N; t++) { double w = d[s]; for (int i = 0; i < n; i++) w *= (t >> i) & 1 ? q[i] : 1 - q[i]; e[t] += w; }
      }
      d = e;
    }
  }
  ev1.state(d, x, known, before);
}

// Every chain the selected individuals admit, where entropies tie; false if there are too many.
struct Chain { std::vector<int> perm; std::vector<double> p0, p1; std::vector<char> u0, u1; };      // u: no selected individual has that parent
// With rule 0; otherwise one chain with another root: 1 lowest mean, 2 highest mean, 3 largest entropy; none if that root is admissible.
bool chains_of(const std::vector<Eval>& sel, int n, std::vector<Chain>& out, int rule = 0) {
  out.clear();
  std::vector<double> mean(size_t(n), 0);
  for (auto& e : sel) for (int i = 0; i < n; i++) mean[size_t(i)] += double((e.x >> i) & 1) / double(sel.size());
  double lowest = 1;
  for (double m : mean) lowest = std::min(lowest, std::min(m, 1 - m));
  std::vector<Chain> st;
  auto root = [&](int i) { st.push_back(Chain{{i}, {mean[size_t(i)]}, {mean[size_t(i)]}, {0}, {0}}); };
  if (rule) {
    auto score = [&](double m) { return rule == 1 ? -m : rule == 2 ? m : std::min(m, 1 - m); };
    int at = 0;
    for (int i = 1; i < n; i++) if (score(mean[size_t(i)]) > score(mean[size_t(at)])) at = i;
    if (std::min(mean[size_t(at)], 1 - mean[size_t(at)]) > lowest + 1e-9) root(at);
  } else for (int i = 0; i < n; i++) if (std::min(mean[size_t(i)], 1 - mean[size_t(i)]) < lowest + 1e-9) root(i);
  size_t work = 0;
  while (!st.empty()) {
    if (++work > 3000) return false;
    Chain c = st.back();
    st.pop_back();
    if (int(c.perm.size()) == n) { out.push_back(c); if (out.size() > 200) return false; continue; }
    int a = c.perm.back();
    std::vector<double> ent(size_t(n), 1e300), q0(size_t(n), 0), q1(size_t(n), 0);
    std::vector<char> v0(size_t(n), 0), v1(size_t(n), 0);
    double best = 1e300;
    for (int b = 0; b < n; b++) {
      if (std::find(c.perm.begin(), c.perm.end(), b) != c.perm.end()) continue;
      double t[2][2] = {{0, 0}, {0, 0}}, h = 0;
      for (auto& e : sel) t[(e.x >> a) & 1][(e.x >> b) & 1]++;
      for (int i = 0; i < 2; i++) { double m = t[i][0] + t[i][1]; for (int j = 0; j < 2; j++) if (t[i][j] > 0) h += t[i][j] * std::log(m / t[i][j]); }
      q0[size_t(b)] = t[0][0] + t[0][1] > 0 ? t[0][1] / (t[0][0] + t[0][1]) : 0.5;
      q1[size_t(b)] = t[1][0] + t[1][1] > 0 ? t[1][1] / (t[1][0] + t[1][1]) : 0.5;
      v0[size_t(b)] = t[0][0] + t[0][1] == 0;
      v1[size_t(b)] = t[1][0] + t[1][1] == 0;
      ent[size_t(b)] = h;
      best = std::min(best, h);
    }
    for (int b = 0; b < n; b++) if (ent[size_t(b)] < best + 1e-9) {
      Chain d = c;
      d.perm.push_back(b);
      d.p0.push_back(q0[size_t(b)]);
      d.p1.push_back(q1[size_t(b)]);
      d.u0.push_back(v0[size_t(b)]);
      d.u1.push_back(v1[size_t(b)]);
      st.push_back(d);
      if (rule) break;
    }
  }
  const double lo = 1 / double(n), hi = 1 - 1 / double(n);
  for (auto& c : out) for (int i = 0; i < n; i++) {
    c.p0[size_t(i)] = std::max(lo, std::min(hi, c.p0[size_t(i)]));
    c.p1[size_t(i)] = std::max(lo, std::min(hi, c.p1[size_t(i)]));
  }
  return true;
}

void exec28(const Plan& p0) {
  Plan p = p0;
  for (auto k : {"cache", "target", "restart", "noise", "minimize", "logall"}) p.set(k, 0);
  p.set("failat", -1);
  if (std::find(MODELS.begin(), MODELS.end(), plan_alg(p).id) == MODELS.end()) p.set("alg", alg_index(900));
  std::ostringstream log;
  Run r(p);
  r.make_functions();
  r.make_algorithm();
  auto* old = std::cout.rdbuf(log.rdbuf());
  Outcome o;
  try { o = r.maximize(); } catch (...) { std::cout.rdbuf(old); throw; }
  std::cout.rdbuf(old);
  env::on = false;
  const std::string tag = std::to_string(r.info->id);
  if (o == ERROR) violate("run-error:" + tag, "maximize failed: %s", r.error.c_str());
  count(outcome_names[o]);
  count(r.info->name);
  cover_run(r, o);
  const auto& opt = *r.options;
  const int n = r.n, id = r.info->id;
  const size_t N = size_t(n);
  std::vector<Eval> h;
  for (auto& e : r.spy->ops) if (e.type != SAFE && e.exc == X_NONE) h.push_back(Eval{e.x, e.v});
  if (h.empty()) return;
  std::vector<std::vector<double>> lines;
  {
    std::istringstream in(log.str());
    std::string l, tok;
    while (std::getline(in, l)) {
      std::istringstream w(l);
      std::vector<double> v;
      while (w >> tok) { char* end; double d = strtod(tok.c_str(), &end); if (*end) violate("log-malformed:" + tag, "log line: %.200s", l.c_str()); v.push_back(d); }
      lines.push_back(v);
    }
  }
  const size_t pop = size_t(opt.get_population_size()), sel = size_t(opt.get_selection_size());
  const size_t iterations = (h.size() - 1) / pop;
  if (o == RETURNED && (h.size() - 1) % pop) violate("evaluations:" + tag, "%zu evaluations are not a whole number of iterations", h.size());
  const bool hea = id == 900 || id == 901, bm = id == 1000 || id == 1001;
  const bool matrix = hea && opt.with_hea_log_target();
  const bool logs = (hea && (matrix || opt.with_hea_log_delta_norm())) || (bm && opt.with_bm_log_norm_1());
  const size_t per = !logs ? 0 : matrix ? N : 1;
  if (lines.size() != per * iterations) violate("log-lines:" + tag, "%zu lines are logged for %zu iterations", lines.size(), iterations);
  if (iterations) nontrivial();
  const double lr = opt.get_learning_rate();
  Mat target(N, std::vector<double>(N, 0)), counts = target, delta = target, zero = target;
  double time = 0;
  bool known = true;                      // no tie has left the model open yet
  Evidence joint, marg;
  double best_v = h[0].v;
  size_t best_at = 1;
  key_t64 state = 0;
  bool state_known = false;
  std::vector<Chain> chains, others[4];
  bool chains_known = false;
  for (size_t k = 0; k * pop + 1 < h.size(); k++) {
    const size_t from = 1 + k * pop, to = std::min(h.size(), from + pop);
    const bool whole = to == from + pop;
    std::vector<Eval> s(h.begin() + long(from), h.begin() + long(to)), a, b;
    for (size_t i = 0; i < s.size(); i++) if (s[i].v > best_v) { best_v = s[i].v; best_at = from + i + 1; }
    // how the samples were drawn
    if (hea) {
      const int period = opt.get_hea_reset_period();
      if (period > 0 && k % size_t(period) == 0) { time = 0; counts = zero; }
      for (auto& e : s) {
        time++;
        for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) delta[i][j] = time * target[i][j] - counts[i][j];
        if (known) {
          const double eps = 1e-7 * (1 + time);
          auto admits = [&](int i, key_t64 mask) {
            double acc = delta[size_t(i)][size_t(i)];
            for (int j = 0; j < n; j++) if ((mask >> j) & 1) acc += (e.x >> j) & 1 ? -delta[size_t(i)][size_t(j)] : delta[size_t(i)][size_t(j)];
            return std::fabs(acc) < eps || ((e.x >> i) & 1) == (acc > 0 ? 0u : 1u);
          };
          if (!opt.get_hea_randomize_bit_order()) {
            for (int i = 0; i < n; i++)
              if (!admits(i, (key_t64(1) << i) - 1)) violate("herding:" + tag, "bit %d of sample %g, %s, does not reduce the discrepancy", i, time, show(e.x, n).c_str());
          } else if (n <= 9) {
            std::vector<char> reach(size_t(1) << n, 0);
            reach[0] = 1;
            for (size_t m = 0; m < reach.size(); m++) if (reach[m])
              for (int i = 0; i < n; i++) if (!((m >> i) & 1) && !reach[m | (size_t(1) << i)] && admits(i, m)) reach[m | (size_t(1) << i)] = 1;
            if (!reach.back()) violate("herding:" + tag, "no order of the bits explains sample %g, %s", time, show(e.x, n).c_str());
          }
        }
        Mat one = moment_of({e}, n);
        for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) counts[i][j] += one[i][j];
      }
    } else if (bm) {
      if (opt.get_bm_reset_mode() == 1) state_known = false;
      for (auto& e : s) {
        if (opt.get_bm_reset_mode() == 2) state_known = false;
        if (known) check_gibbs(target, n, opt.get_bm_sampling_mode(), opt.get_bm_num_gs_steps(), opt.get_bm_num_gs_cycles(), state_known, state, e.x, joint, marg, tag);
        state = e.x;
        state_known = true;
      }
    } else if (k == 0 || chains_known) {
      // the likelihood of the generation under the best of the admissible chains, and that of each alternative
      if (k == 0) { Chain c; for (int i = 0; i < n; i++) { c.perm.push_back(i); c.p0.push_back(0.5); c.p1.push_back(0.5); c.u0.push_back(0); c.u1.push_back(0); } chains.assign(1, c); for (auto& o : others) o.clear(); }
      double logp = -1e300;
      Evidence worst;
      uint64_t unseen = 0;
      for (int i = 0; i < 10; i++) worst.l[i] = 1e300;
      for (auto& c : chains) {
        double lp = 0;
        Evidence ev;
        for (auto& e : s) for (size_t i = 0; i < N; i++) {
          int x = int((e.x >> c.perm[i]) & 1), y = i ? int((e.x >> c.perm[i - 1]) & 1) : 0;
          double q = y ? c.p1[i] : c.p0[i];
          ev.bit(q, x);
          if (y ? c.u1[i] : c.u0[i]) {
            double lo = 1 / double(n);
            ev.l[6] += std::log((x ? lo : 1 - lo) / (x ? q : 1 - q));
            ev.l[7] += std::log((x ? 1 - lo : lo) / (x ? q : 1 - q));
            unseen++;
          }
          lp += std::log(std::max(x ? q : 1 - q, 1e-300));
        }
        logp = std::max(logp, lp);
        for (int i = 0; i < 10; i++) worst.l[i] = std::min(worst.l[i], ev.l[i]);
      }
      for (int i = 0; i < 8; i++) marg.l[i] += worst.l[i];
      for (int rule = 1; rule <= 3; rule++) for (auto& c : others[rule]) {
        double lp = 0;
        for (auto& e : s) for (size_t i = 0; i < N; i++) {
          int x = int((e.x >> c.perm[i]) & 1), y = i ? int((e.x >> c.perm[i - 1]) & 1) : 0;
          double q = y ? c.p1[i] : c.p0[i];
          lp += std::log(std::max(x ? q : 1 - q, 1e-300));
        }
        joint.l[rule] += lp - logp;
      }
      if (unseen) count("bits with an unseen parent", unseen);
      // one alternative for all chains: fair bits
      joint.l[0] += -double(s.size() * N) * std::log(2.0) - logp;
      count("chains", chains.size());
    }
    if (joint.top() > 36 || marg.top() > 36)
      violate("samples:" + tag, "the samples up to iteration %zu are %g times more likely under another distribution than under the model", k, std::exp(std::min(700.0, std::max(joint.top(), marg.top()))));
    if (!whole) break;
    // what is learnt
    double err = 0, before = 0, dn = 0;
    if (hea) {
      Mat e = target;
      for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) e[i][j] = time * target[i][j] - counts[i][j];
      err = norm2(e); before = norm2(target); dn = norm2(delta);
    }
    bool was = known;
    if (!pick_of(s, sel, 1, a)) { if (known) count("ties"); known = false; chains_known = false; }
    else if (id == 1100) {
      chains_known = chains_of(a, n, chains);
      for (int rule = 1; rule <= 3; rule++) chains_of(a, n, others[rule], rule);
    }
    if (hea) {
      Mat m = moment_of(a, n);
      for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) {
        double& t = target[i][j];
        t += lr * (m[i][j] - t);
        if (opt.get_hea_bound_moment()) t = std::max(-(1 - 1 / double(n)), std::min(1 - 1 / double(n), t));
      }
    } else if (bm) {
      bool np = opt.with_bm_negative_positive_selection();
      if (np) { if (!pick_of(s, sel, -1, b)) { if (known) count("ties"); known = false; } } else b = s;
      Mat m = moment_of(a, n), w = moment_of(b, n);
      for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) target[i][j] += lr * (m[i][j] - w[i][j]);
    }
    // what is logged
    if (!logs) continue;
    if (matrix) {
      for (size_t i = 0; i < N; i++) {
        const auto& l = lines[k * N + i];
        if (l.size() != N) violate("log-fields:" + tag, "row %zu of the target moment has %zu entries", i, l.size());
        for (size_t j = 0; j < N; j++) {
          if (known && !near(l[j], target[i][j])) violate("model:" + tag, "entry %zu, %zu of the target moment is %g after iteration %zu; from the samples it is %g", i, j, l[j], k, target[i][j]);
          if (l[j] != lines[k * N + j][i]) violate("model-asymmetric:" + tag, "the target moment is not symmetric after iteration %zu", k);
          double lim = opt.get_hea_bound_moment() ? 1 - 1 / double(n) : 1;
          if (std::fabs(l[j]) > lim + 1e-5) violate("model-bounds:" + tag, "an entry of the target moment is %g after iteration %zu", l[j], k);
        }
      }
      continue;
    }
    const auto& l = lines[k];
    if (l.size() != (hea ? 6u : 5u)) violate("log-fields:" + tag, "iteration %zu logs %zu fields", k, l.size());
    if (l[0] != double(to) || l[1] != double(best_at) || !near(l[2], best_v))
      violate("log-context:" + tag, "iteration %zu logs %g evaluations, improvement at %g to %g; there were %zu, at %zu to %g", k, l[0], l[1], l[2], to, best_at, best_v);
    if (hea && was) {
      const double tol = 1e-9 * (1 + time) * n;
      if (!near(l[3], err) && std::fabs(l[3] - err) > tol) violate("herding-error:" + tag, "herding error %g is logged in iteration %zu; it is %g", l[3], k, err);
      if (!near(l[4], before)) violate("target-norm:" + tag, "target norm %g is logged in iteration %zu; it is %g", l[4], k, before);
      if (!near(l[5], dn) && std::fabs(l[5] - dn) > tol) violate("delta-norm:" + tag, "delta norm %g is logged in iteration %zu; it is %g", l[5], k, dn);
    }
    if (bm && known) {
      double n1 = 0, ni = 0;
      for (size_t i = 0; i < N; i++) for (size_t j = 0; j <= i; j++) { n1 += std::fabs(target[i][j]); ni = std::max(ni, std::fabs(target[i][j])); }
      if (!near(l[3], ni)) violate("norm-infinite:" + tag, "infinite norm %g is logged in iteration %zu; that of the model is %g", l[3], k, ni);
      if (!near(l[4], n1)) violate("norm-1:" + tag, "1-norm %g is logged in iteration %zu; that of the model is %g", l[4], k, n1);
    }
  }
}
Register R28(Prop{"H28", false, false, gen28, exec28});
} // namespace
