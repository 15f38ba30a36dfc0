// Objects with a history: neighbourhoods and their iterators, real objective functions, multiobjective runs, selection.
#include "stack.hh"
#include "hnco/iterator.hh"
#include "vdisk.hh"
#include "zoo.hh"
#include "hnco/algorithms/evolutionary-algorithms/random-selection.hh"
#include "hnco/multiobjective/algorithms/nsga2.hh"
#include "hnco/multiobjective/functions/universal-function-adapter.hh"
#include "hnco/neighborhoods/neighborhood-iterator.hh"
#include "hnco/neighborhoods/neighborhood.hh"
#include <cmath>
#include <cstring>
#include <functional>
#include <set>
#include <sstream>
using namespace sim;
using namespace hnco;
using namespace hnco::neighborhood;

namespace {

bit_vector_t rnd(Rng& g, int n) { bit_vector_t x(static_cast<size_t>(n)); for (auto& b : x) b = g.chance(1, 2); return x; }
std::string str(const bit_vector_t& x) { std::string s; for (auto b : x) s += b ? '1' : '0'; return s; }

// ---------------------------------------------------------------- H15 moves and neighbourhoods
Plan gen15(Rng& r, int, bool t) {
  Plan p;
  p.set("kind", r.range(0, 7));
  p.set("n", r.chance(1, 3) ? r.range(1, 5) : r.range(2, t ? 60 : 30));
  if (r.chance(1, 20)) p.set("n", r.range(60, 200));
  p.set("radius", r.range(1, 6));
  p.set("seed", r.range(0, 1 << 30));
  p.set("allow", r.chance(1, 3));
  p.set("fair", r.chance(1, 12));
  auto& l = p.mut("L2.ops");
  for (int64_t i = r.small(1, t ? 300 : 80); i > 0; i--) { l.push_back(r.range(0, 9)); l.push_back(r.range(0, 1000)); }
  return p;
}
void check_flipped(const sparse_bit_vector_t& f, const bit_vector_t& a, const bit_vector_t& b, int lo, int hi, const std::string& tag) {
  std::set<int> s(f.begin(), f.end());
  if (s.size() != f.size()) violate("flip-twice:" + tag, "a move flips the same bit twice (%zu reported, %zu distinct)", f.size(), s.size());
  for (size_t i = 0; i < a.size(); i++)
    if ((a[i] != b[i]) != (s.count(int(i)) > 0))
      violate("flip-mismatch:" + tag, "bit %zu %s, but the move reports otherwise", i, a[i] != b[i] ? "changed" : "did not change");
  if (int(f.size()) < lo || int(f.size()) > hi) violate("flip-count:" + tag, "a move flips %zu bits, between %d and %d are possible", f.size(), lo, hi);
  for (int i : f) if (i < 0 || i >= int(a.size())) violate("flip-range:" + tag, "a move flips bit %d of %zu", i, a.size());
}
void exec15(const Plan& p) {
  int kind = int(p.get("kind", 0, 0, 7)), n = int(p.get("n", 4, 1, 200)), rad = int(std::min<int64_t>(p.get("radius", 1, 1, 8), n));
  bool allow = p.get("allow", 0, 0, 1);
  random::Generator::set_seed(unsigned(p.get("seed", 0, 0, 1 << 30)));
  Rng g(uint64_t(p.get("seed")) + 5);
  auto& ops = p.list("L2.ops");
  static const char* names[] = {"single-bit", "standard-bit", "ball", "sphere", "single-bit-iterator", "sphere-iterator", "hypercube", "extended-hypercube"};
  std::string tag = names[kind];
  count(names[kind]);
  uint64_t sig = uint64_t(kind * 100 + n);
  if (kind >= 6) {
    n %= 13;                          // also no bits at all
    Iterator* it = kind == 6 ? (Iterator*)new HypercubeIterator(n) : new ExtendedHypercubeIterator(n);
    int64_t total = n == 0 && kind == 6 ? 0 : int64_t(1) << n;
    for (size_t k = 0; k + 1 < ops.size() && k < (n > 9 ? 6 : 20); k += 2) {
      it->init();
      int64_t stop = ops[k] % 3 == 0 ? ops[k + 1] % 40 : -1, c = 0;
      std::set<std::string> seen;
      while (it->has_next()) {
        if (c == stop) { count("fault:abandoned-enumeration"); break; }
        const bit_vector_t& y = it->next();
        c++;
        step();
        if (int(y.size()) != n) violate("neighbour-size:" + tag, "a point has %zu bits", y.size());
        if (!seen.insert(str(y)).second) violate("neighbour-twice:" + tag, "%s comes twice", str(y).c_str());
      }
      if (c != stop && c != total) violate("neighbour-missing:" + tag, "%ld points, there are %ld", long(c), long(total));
      ev("enum", c, int64_t(seen.size()));
      sig = mix(sig, uint64_t(c));
      if (c) nontrivial();
    }
    cover(sig);
    return;
  }
  if (kind >= 4) {
    NeighborhoodIterator* it = kind == 4 ? (NeighborhoodIterator*)new SingleBitFlipIterator(n) : new HammingSphereIterator(n, rad);
    if (kind == 5 && n > 12) rad = std::min(rad, 3), it = new HammingSphereIterator(n, rad);
    int d = kind == 4 ? 1 : rad;
    double total = 1;
    for (int i = 0; i < d; i++) total = total * (n - i) / (i + 1);
    for (size_t k = 0; k + 1 < ops.size(); k += 2) {
      bit_vector_t x = rnd(g, n);
      // an enumeration starts at a new origin: set_origin and init come in either order
      if (ops[k] & 1) { it->set_origin(x); it->init(); } else { it->init(); it->set_origin(x); }
      int64_t stop = ops[k] % 3 == 0 ? ops[k + 1] % 40 : -1;   // abandoned after that many
      std::set<std::string> seen;
      int64_t c = 0;
      while (it->has_next()) {
        if (c == stop) { count("fault:abandoned-enumeration"); break; }
        const bit_vector_t& y = it->next();
        c++;
        step();
        if (int(y.size()) != n) violate("neighbour-size:" + tag, "a neighbour has %zu bits", y.size());
        if (bv_hamming_distance(x, y) != d) violate("neighbour-distance:" + tag, "neighbour %s of %s is at distance %d, not %d", str(y).c_str(), str(x).c_str(), int(bv_hamming_distance(x, y)), d);
        if (!seen.insert(str(y)).second) violate("neighbour-twice:" + tag, "neighbour %s of %s comes twice", str(y).c_str(), str(x).c_str());
        if (double(c) > total + 0.5) violate("neighbour-too-many:" + tag, "more than %g neighbours", total);
        if (c > 3000) break;
      }
      if (c != stop && c <= 3000 && std::fabs(double(c) - total) > 0.5) violate("neighbour-missing:" + tag, "%ld neighbours of %s, there are %g", long(c), str(x).c_str(), total);
      ev("enum", c, int64_t(seen.size()));
      sig = mix(sig, uint64_t(c));
      if (c) nontrivial();
      if (k > 40) break;
    }
    cover(sig);
    return;
  }
  Neighborhood* nb = nullptr;
  StandardBitMutation* sbm = nullptr;
  HammingSphere* sph = nullptr;
  switch (kind) {
  case 0: nb = new SingleBitFlip(n); break;
  case 1: nb = sbm = new StandardBitMutation(n); sbm->set_allow_no_mutation(allow); break;
  case 2: nb = new HammingBall(n, rad); break;
  default: nb = sph = new HammingSphere(n, rad);
  }
  int lo = 1, hi = kind == 0 ? 1 : kind == 1 ? n : rad;
  if (kind == 1) lo = allow ? 0 : 1;
  if (kind == 3) lo = rad;
  bit_vector_t origin(static_cast<size_t>(n), 0);
  bool open = false;
  double mrate = 1 / double(n);
  auto same = [&](const char* when) {
    if (nb->get_origin() != origin) violate("origin-lost:" + tag, "%s: the origin is %s instead of %s", when, str(nb->get_origin()).c_str(), str(origin).c_str());
    if (!open && nb->get_candidate() != origin) violate("candidate-stale:" + tag, "%s: the candidate is %s, the origin %s", when, str(nb->get_candidate()).c_str(), str(origin).c_str());
  };
  nb->set_origin(origin);
  for (size_t k = 0; k + 1 < ops.size(); k += 2) {
    step();
    int64_t a = ops[k + 1];
    sig = mix(sig, uint64_t(ops[k]));
    switch (ops[k] % 10) {
    case 0: case 1: case 2:
      if (open) break;
      nb->propose();
      open = true;
      check_flipped(nb->get_flipped_bits(), origin, nb->get_candidate(), lo, hi, tag);
      nontrivial();
      same("after a proposal");
      break;
    case 3: case 4:
      if (!open) break;
      origin = nb->get_candidate(); nb->keep(); open = false; same("after keeping a candidate"); break;
    case 5:
      if (!open) break;
      nb->forget(); open = false; same("after forgetting a candidate"); break;
    case 6:
      // a run interrupted between proposal and decision, then a new start
      if (open) count("fault:abandoned-proposal");
      origin = rnd(g, n); nb->set_origin(origin); open = false; same("after setting the origin"); break;
    case 7: {
      if (open) break;       // mutation operators reuse the record of flipped bits
      bit_vector_t x = rnd(g, n), y = x; nb->mutate(y); check_flipped(nb->get_flipped_bits(), x, y, lo, hi, tag); same("after a mutation"); nontrivial(); break; }
    case 8: {
      if (open) break;
      bit_vector_t x = rnd(g, n), x0 = x, y = rnd(g, n); nb->map(x, y); check_flipped(nb->get_flipped_bits(), x, y, lo, hi, tag);
      if (x != x0) violate("map-changed-input:" + tag, "mapping a bit vector changed it");
      same("after a mapping"); break; }
    default:
      if (open) break;
      if (sbm) { static const double rate[] = {0.001, 0.02, 0.1, 0.2, 0.3, 0.5, 0.9, 1}; mrate = std::max(rate[a % 8], 0.5 / n); sbm->set_mutation_rate(mrate); }
      if (sbm && a % 5 == 0) { allow = !allow; sbm->set_allow_no_mutation(allow); lo = allow ? 0 : 1; }
      if (sph) { rad = int(a % (n + 1)); sph->set_radius(rad); lo = hi = rad; }
    }
    ev("nb", ops[k], int64_t(hash_str(str(nb->get_candidate()))));
  }
  if (p.get("fair", 0, 0, 1) && hi > 0) {
    // Whatever happened before, all bits are treated alike and sizes are those asked for: 12 standard deviations do not happen by chance.
    if (open) { nb->forget(); open = false; }
    double mean, var;
    switch (kind) {
    case 1: {
      double m2 = n * mrate * (1 - mrate) + n * mrate * n * mrate;
      mean = n * mrate;
      if (!allow) { double c = mrate < 1 ? -std::expm1(n * std::log1p(-mrate)) : 1; mean /= c; m2 /= c; }
      var = std::max(0.0, m2 - mean * mean);
      break;
    }
    case 2: mean = (1 + rad) / 2.0; var = (double(rad) * rad - 1) / 12; break;
    default: mean = hi; var = 0;
    }
    int64_t trials = int64_t(250 * n / mean) + 1;
    std::vector<double> c(size_t(n), 0);
    double flips = 0;
    for (int64_t t = 0; t < trials; t++) {
      nb->propose();
      for (int i : nb->get_flipped_bits()) { c[size_t(i)]++; flips++; }
      nb->forget();
    }
    count("fairness");
    nontrivial();
    if (std::fabs(flips - mean * double(trials)) > 12 * std::sqrt(var * double(trials)) + 1e-6 * flips)
      violate("flip-frequency:" + tag, "%ld moves flip %g bits, expected %g", long(trials), flips, mean * double(trials));
    for (int i = 0; i < n; i++)
      if (std::fabs(c[size_t(i)] - flips / n) > 12 * std::sqrt(flips / n)) violate("flip-unfair:" + tag, "bit %d of %d is flipped %g times in %g", i, n, c[size_t(i)], flips);
  }
  cover(sig);
}
Register R15(Prop{"H15", false, false, gen15, exec15});

// ---------------------------------------------------------------- H16 functions have no memory
// A function of variables of all types, through the library's adapters (the multiobjective one as a weighted sum)
double uni_value(const bit_vector_t& b, const std::vector<int>& i, const std::vector<double>& d, const std::vector<std::complex<double>>& z, const std::vector<int>& c, const std::vector<permutation_t>& q, int w) {
  double v = 0, k = 1 + w;
  for (auto x : b) v += x * (k += 1.5);
  for (auto x : i) v += x * (k += 1.25);
  for (auto x : d) v += x * (k += 2.5);
  for (auto x : z) v += x.real() * (k += 1.75) - x.imag() * (k += 3);
  for (auto x : c) v += x * (k += 2.25);
  for (auto& x : q) { k += 1; for (size_t j = 0; j < x.size(); j++) v += x[j] * double(j + 1) * k; }
  return v;
}
struct UniFunction: function::UniversalFunction {
  double evaluate(const bit_vector_t& b, const std::vector<int>& i, const std::vector<double>& d, const std::vector<std::complex<double>>& z, const std::vector<int>& c, const std::vector<permutation_t>& q) override { return uni_value(b, i, d, z, c, q, 0); }
};
struct UniFunctionMo: hnco::multiobjective::function::UniversalFunction {
  int get_output_size() const override { return 3; }
  void evaluate(const bit_vector_t& b, const std::vector<int>& i, const std::vector<double>& d, const std::vector<std::complex<double>>& z, const std::vector<int>& c, const std::vector<permutation_t> q, hnco::multiobjective::function::value_t& v) override { for (int w = 0; w < 3; w++) v[size_t(w)] = uni_value(b, i, d, z, c, q, w); }
};
struct MoSum: function::Function {
  hnco::multiobjective::function::Function* f;
  int get_bv_size() const override { return f->get_bv_size(); }
  double evaluate(const bit_vector_t& x) override { std::vector<double> v(3, 0.); f->evaluate(x, v); return v[0] + 1.5 * v[1] - 2.25 * v[2]; }
  void display(std::ostream& s) const override { f->display(s); }
  void describe(const bit_vector_t& x, std::ostream& s) override { f->describe(x, s); }
};
function::Function* uni_make(uint64_t seed, bool multi) {
  using D = representation::DyadicFloatRepresentation<double>;
  Rng g(seed);
  int nb = int(g.range(0, 3));
  std::vector<representation::DyadicIntegerRepresentation<int>> i;
  std::vector<D> d;
  std::vector<representation::ComplexRepresentation<D>> z;
  std::vector<representation::LinearCategoricalRepresentation> c;
  std::vector<representation::PermutationRepresentation> q;
  for (int64_t k = g.range(0, 3); k > 0; k--) { int a = int(g.range(-9, 9)); i.emplace_back(a, a + int(g.range(1, 20))); }
  for (int64_t k = g.range(0, 3); k > 0; k--) { double a = double(g.range(-9, 9)); d.emplace_back(a, a + double(g.range(1, 5)), int(g.range(1, 6))); }
  for (int64_t k = g.range(0, 2); k > 0; k--) z.emplace_back(D(0., 1., int(g.range(1, 4))), D(-2., 1., int(g.range(1, 4))));
  for (int64_t k = g.range(0, 2); k > 0; k--) c.emplace_back(int(g.range(2, 6)));
  for (int64_t k = g.range(nb || i.size() || d.size() ? 0 : 1, 2); k > 0; k--) q.emplace_back(int(g.range(2, 5)), int(g.range(1, 2)));
  if (!multi) return new function::UniversalFunctionAdapter(new UniFunction(), nb, i, d, z, c, q);
  auto* m = new MoSum();
  m->f = new hnco::multiobjective::function::UniversalFunctionAdapter(new UniFunctionMo(), nb, i, d, z, c, q);
  return m;
}
Plan gen16(Rng& r, int, bool t) {
  Plan p;
  if (r.chance(1, 12)) p.set("uni", r.range(1, 2));
  p.set("zoo", r.range(0, int64_t(ZOO.size()) - 1));
  p.set("n", r.range(2, t ? 30 : 16));
  p.set("seed", r.range(1, 1000000));
  p.set("mods", r.range(1, 1000000));
  p.set("usemods", r.chance(1, 2));
  p.set("objects", r.range(1, 3));
  p.set("pool", r.range(2, 12));
  p.set("drop", r.chance(1, 4));
  p.set("wrap", r.chance(1, 4) ? r.range(1, 3) : 0);
  auto& l = p.mut("L3.ops");
  for (int64_t i = r.small(2, t ? 200 : 60); i > 0; i--) { l.push_back(r.range(0, 11)); l.push_back(r.range(0, 1000)); l.push_back(r.range(0, 1000)); }
  return p;
}
void exec16(const Plan& p) {
  int z = int(p.get("zoo", 0, 0, int64_t(ZOO.size()) - 1));
  const int uni = int(p.get("uni", 0, 0, 2));
  std::string tag = uni ? uni == 1 ? "Universal" : "Universal, multiobjective" : ZOO[size_t(z)].name;
  count(tag.c_str());
  uint64_t seed = uint64_t(p.get("seed", 1, 1, 1 << 30));
  std::vector<std::string> args;
  if (!uni) args = zoo_args(z, int(p.get("n", 8, 2, 32)), seed);
  auto make = [&]() { random::Generator::set_seed(unsigned(seed)); return uni ? uni_make(seed, uni == 2) : zoo_make(args); };
  if (!uni && p.get("usemods", 0, 0, 1)) {
    int n0 = make()->get_bv_size();
    Rng m(uint64_t(p.get("mods", 1)));
    for (auto& a : zoo_modifiers(m, n0, false)) args.push_back(a);
  }
  // maps which the applications do not offer, around the function
  const int wrap = int(p.get("wrap", 0, 0, 3));
  auto plain = make;
  auto wrapped = [&]() -> function::Function* {
    auto* fn = plain();
    if (!wrap) return fn;
    int m = fn->get_bv_size();
    Rng w(seed + 99);
    map::Map* mp;
    if (wrap == 2) {
      std::vector<int> pos;
      for (int i = 0; i < m; i++) if (pos.empty() || w.chance(2, 3)) pos.push_back(i);
      std::reverse(pos.begin(), pos.end());
      mp = new map::Injection(pos, m);
    } else {
      int extra = int(w.range(0, 4));
      std::vector<int> pos;
      for (int i = 0; i < m; i++) pos.push_back(int(w.range(0, m + extra - 1)));
      mp = new map::Projection(pos, m + extra);
      if (wrap == 3) { auto* q = new map::Permutation(); q->random(m + extra); mp = new map::MapComposition(mp, q); }
    }
    count("wrapped by a map");
    return new function::modifier::FunctionMapComposition(fn, mp);
  };
  int nobj = int(p.get("objects", 1, 1, 3));
  std::vector<function::Function*> f;
  for (int i = 0; i < nobj; i++) f.push_back(wrapped());
  int n = f[0]->get_bv_size();
  for (auto* x : f) if (x->get_bv_size() != n) violate("size-differs:" + tag, "two objects made from the same options take %d and %d bits", n, x->get_bv_size());
  // The instance is fixed once loaded: what happens to its file afterwards does not matter.
  std::string file = vd::exists("/sim/function.txt") ? vd::get("/sim/function.txt") : "";
  Rng g(seed + 17);
  int pool = int(p.get("pool", 4, 1, 20));
  std::vector<bit_vector_t> pts;
  for (int i = 0; i < pool; i++) {
    if (i == 0) pts.push_back(bit_vector_t(static_cast<size_t>(n), 1));
    else if (i == 1) pts.push_back(bit_vector_t(static_cast<size_t>(n), 0));
    else { pts.push_back(i % 3 == 0 ? pts[size_t(i) - 1] : rnd(g, n)); if (i % 3 == 0) pts.back()[size_t(g.range(0, n - 1))] ^= 1; }
  }
  // Permutations are read from sort keys and equal keys are ordered at random, by design: those functions
  // are compared under equal random numbers, all others under different ones.
  bool shuffles = tag == "Tsp" || uni;
  auto level = [&]() { if (shuffles) random::Generator::set_seed(unsigned(seed)); };
  // reference: each point has a new object to itself
  std::vector<double> ref;
  for (auto& x : pts) { auto* o = wrapped(); level(); ref.push_back(o->evaluate(x)); }
  auto described = [&](function::Function* o, const bit_vector_t& x) { level(); std::ostringstream s; o->describe(x, s); return s.str(); };
  auto displayed = [&](function::Function* o) { std::ostringstream s; o->display(s); return s.str(); };
  const std::string shown = displayed(wrapped());
  std::vector<std::string> told;
  for (auto& x : pts) told.push_back(described(wrapped(), x));
  if (p.get("drop", 0, 0, 1)) { vd::remove("/sim/function.txt"); count("fault:instance-file-removed"); }
  auto& ops = p.list("L3.ops");
  uint64_t sig = mix(uint64_t(z), seed);
  auto same = [](double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); };
  for (size_t k = 0; k + 2 < ops.size(); k += 3) {
    step();
    size_t o = size_t(std::llabs(ops[k + 1])) % f.size(), i = size_t(std::llabs(ops[k + 2])) % pts.size();
    function::Function* fn = f[o];
    bit_vector_t x = pts[i];
    double v = 0;
    std::ostringstream s;
    level();
    switch (ops[k] % 12) {
    case 0: case 1: case 2: case 3: v = fn->evaluate(x);
      if (!same(v, ref[i])) violate("value-depends-on-history:" + tag, "%s(%s) is %.17g, a new object gives %.17g (operation %zu, object %zu of %d)", tag.c_str(), str(x).c_str(), v, ref[i], k / 3 + 1, o + 1, nobj);
      nontrivial(); break;
    case 4: case 5: v = fn->evaluate_safely(x);
      if (!same(v, ref[i])) violate("safe-value-depends-on-history:" + tag, "safe evaluation of %s(%s) is %.17g, a new object gives %.17g", tag.c_str(), str(x).c_str(), v, ref[i]);
      nontrivial(); break;
    case 6: case 7: case 8: {
      if (!fn->provides_incremental_evaluation()) break;
      size_t j = (i + 1 + size_t(std::llabs(ops[k + 1])) % pts.size()) % pts.size();
      sparse_bit_vector_t fl;
      for (int b = 0; b < n; b++) if (pts[i][size_t(b)] != pts[j][size_t(b)]) fl.push_back(b);
      double scale = 1 + std::fabs(ref[i]) + std::fabs(ref[j]);
      v = fn->evaluate_incrementally(x, ref[i], fl);
      count("incremental");
      if (!(std::fabs(v - ref[j]) <= 1e-6 * scale)) violate("incremental-value:" + tag, "%s from %s by flipping %zu bits: incremental value %.17g, value %.17g", tag.c_str(), str(x).c_str(), fl.size(), v, ref[j]);
      nontrivial(); break; }
    case 9:
      if (displayed(fn) != shown) violate("display-depends-on-history:" + tag, "the function is displayed otherwise than a new object");
      break;
    case 10:
      if (described(fn, x) != told[i]) violate("description-depends-on-history:" + tag, "%s is described otherwise than by a new object", str(x).c_str());
      break;
    case 11: {
      // an evaluation that runs out of memory leaves no trace
      if (ops[k + 1] % 2) { fn->update(x, ref[i]); break; }
      env::on = true;
      env::alloc_fail_at = ops[k + 1] % 7;
      int64_t before = env::alloc_fired;
      try { fn->evaluate(x); } catch (const std::bad_alloc&) {}
      env::alloc_fail_at = -1;
      if (env::alloc_fired > before) count("fault:allocation");
      break; }
    }
    if (x != pts[i]) violate("argument-changed:" + tag, "evaluating a bit vector changed it");
    uint64_t b; memcpy(&b, &v, 8);
    ev("fn", ops[k], int64_t(o * 100 + i), int64_t(b));
    sig = mix(sig, uint64_t(ops[k] * 4 + int64_t(o)));
  }
  (void)file;
  cover(sig);
}
Register R16(Prop{"H16", false, false, gen16, exec16});

// ---------------------------------------------------------------- H18 multiobjective runs
namespace mo = hnco::multiobjective;
struct MoFunction: mo::function::Function {
  Landscape l[3]; int k, n;
  bool conflict = false;             // the second objective is the opposite of the first: nothing dominates anything
  int64_t fail_at = -1, calls = 0, max_calls = 20000;
  std::vector<std::pair<key_t64, std::vector<double>>> hist;
  int get_bv_size() const override { return n; }
  int get_output_size() const override { return k; }
  std::vector<double> truth(key_t64 x) const { std::vector<double> v; for (int i = 0; i < k; i++) v.push_back(l[i](i ? x ^ (x >> 1) : x)); if (conflict && k > 1) v[1] = -v[0]; return v; }
  void evaluate(const bit_vector_t& bv, mo::function::value_t& value) override {
    step();
    if (int64_t(calls++) == fail_at) { count("fault:evaluation-failure"); value.assign(size_t(k), -1e9); throw InjectedFailure(); }
    key_t64 x = key_of(bv);
    value = truth(x);
    hist.push_back({x, value});
    ev("mo", int64_t(x));
  }
};
bool dom(const std::vector<double>& a, const std::vector<double>& b) {
  bool s = false;
  for (size_t i = 0; i < a.size(); i++) { if (a[i] > b[i]) return false; if (a[i] < b[i]) s = true; }
  return s;
}
// The survivors of parents and offspring: best fronts first, the last one thinned out where it is most crowded. False: ties leave it open.
typedef std::vector<std::pair<key_t64, std::vector<double>>> mo_pop;
std::vector<int> mo_fronts(const mo_pop& all) {
  std::vector<int> front(all.size(), -1);
  size_t done = 0;
  for (int f = 0; done < all.size(); f++) {
    std::vector<size_t> now;
    for (size_t i = 0; i < all.size(); i++) {
      if (front[i] >= 0) continue;
      bool d = false;
      for (size_t j = 0; j < all.size() && !d; j++) d = front[j] < 0 && dom(all[j].second, all[i].second);
      if (!d) now.push_back(i);
    }
    for (auto i : now) front[i] = f;
    done += now.size();
  }
  return front;
}
// How well an individual does in a tournament: its front, then its crowding distance (NaN: ties leave it open)
struct MoRank { int front; double d; };
bool mo_better(const MoRank& a, const MoRank& b) {
  if (a.front != b.front) return a.front < b.front;
  if (std::isnan(a.d) || std::isnan(b.d) || b.d == HUGE_VAL) return false;
  return a.d == HUGE_VAL || a.d - b.d > 1e-9 * std::fabs(a.d);
}
bool mo_survivors(const mo_pop& all, size_t pop, int k, mo_pop& out, std::vector<MoRank>& rank) {
  auto front = mo_fronts(all);
  out.clear(); rank.clear();
  for (int f = 0; out.size() < pop; f++) {
    std::vector<size_t> m;
    for (size_t i = 0; i < all.size(); i++) if (front[i] == f) m.push_back(i);
    std::vector<double> d(all.size(), 0);
    bool tie = false;
    for (int c = 0; c < k; c++) {
      std::sort(m.begin(), m.end(), [&](size_t a, size_t b) { return all[a].second[size_t(c)] < all[b].second[size_t(c)]; });
      for (size_t i = 1; i < m.size(); i++) tie = tie || all[m[i]].second[size_t(c)] == all[m[i - 1]].second[size_t(c)];
      d[m[0]] = d[m.back()] = HUGE_VAL;
      for (size_t i = 1; i + 1 < m.size(); i++) d[m[i]] += all[m[i + 1]].second[size_t(c)] - all[m[i - 1]].second[size_t(c)];
    }
    size_t left = pop - out.size();
    if (m.size() > left) {
      if (tie) return false;
      std::sort(m.begin(), m.end(), [&](size_t a, size_t b) { return d[a] > d[b]; });
      double a = d[m[left - 1]], b = d[m[left]];
      if (a == b || (a < HUGE_VAL && a - b <= 1e-9 * std::fabs(a))) return false;
      m.resize(left);
    }
    for (auto i : m) { out.push_back(all[i]); rank.push_back({f, tie ? std::nan("") : d[i]}); }
  }
  return true;
}
Plan gen18(Rng& r, int, bool t) {
  Plan p;
  p.set("n", r.chance(1, 3) ? r.range(1, 5) : r.range(2, 20));
  p.set("k", r.range(1, 3));
  p.set("pop", r.chance(1, 2) ? r.range(3, 10) : r.range(3, t ? 60 : 40));
  p.set("tour", r.range(2, 3));
  for (int i = 0; i < 3; i++) { p.set("land" + std::to_string(i), r.range(0, kLandscapes - 1)); }
  p.set("lseed", r.range(0, 1 << 20));
  p.set("cross", r.chance(1, 4) ? 0 : r.range(0, 10));
  p.set("rate", r.chance(1, 4) ? 0 : r.range(1, 9));
  p.set("allow", r.chance(1, 2));
  p.set("seed", r.range(0, 1 << 30));
  if (r.chance(1, 3)) {             // offspring that tell their parents
    p.set("n", r.range(16, 24));
    p.set("tiny", 1);
    p.set("cross", 0);
    p.set("k", r.range(2, 3));
    for (int i = 0; i < 3; i++) p.set("land" + std::to_string(i), r.chance(3, 4) ? 5 : 8);
  }
  if (r.chance(1, 3)) {             // many points that do not dominate each other, few equal ones
    p.set("conflict", 1);
    p.set("k", r.range(2, 3));
    p.set("n", r.range(12, 24));
    for (int i = 0; i < 3; i++) p.set("land" + std::to_string(i), r.chance(3, 4) ? 5 : 8);
    p.set("rate", r.range(1, 9));
  }
  if (r.chance(1, 3)) {             // tournaments that few can win, and offspring near their parents
    p.set("n", r.range(16, 24));
    p.set("cross", 0);
    p.set("k", r.range(2, 3));
    p.set("pop", r.range(4, t ? 60 : 30));
    p.set("tiny", 0);
    p.set("rate", r.range(1, 3));
    for (int i = 0; i < 3; i++) p.set("land" + std::to_string(i), r.chance(3, 4) ? 5 : 8);
    p.set("tour", r.range(2, p.get("pop") - 1));
  }
  auto& l = p.mut("L3.runs");     // iterations, failing evaluation, other landscape
  for (int64_t i = r.range(1, 4); i > 0; i--) { l.push_back(r.range(0, t ? 30 : 12)); l.push_back(r.chance(1, 3) ? r.range(0, 100) : -1); l.push_back(r.range(0, 1)); }
  return p;
}
void exec18(const Plan& p) {
  int n = int(p.get("n", 4, 1, 24)), k = int(p.get("k", 2, 1, 3)), pop = int(p.get("pop", 4, 3, 80));
  int tour = int(std::min<int64_t>(p.get("tour", 2, 2, 80), pop - 1));
  double cross = double(p.get("cross", 5, 0, 10)) / 10, rate = double(p.get("rate", 1, 0, 9)) * 0.05;
  bool allow = p.get("allow", 0, 0, 1);
  if (p.get("tiny", 0, 0, 1)) rate = 0.004;
  if (rate == 0) allow = true;
  random::Generator::set_seed(unsigned(p.get("seed", 0, 0, 1 << 30)));
  mo::algorithm::Nsga2 alg(n, k, pop);
  alg.set_tournament_size(tour);
  alg.set_crossover_probability(cross);
  alg.set_mutation_rate(rate);
  alg.set_allow_no_mutation(allow);
  auto& runs = p.list("L3.runs");
  uint64_t sig = mix(uint64_t(n), uint64_t(pop * 10 + k));
  int completed = 0;
  for (size_t j = 0; j + 2 < runs.size(); j += 3) {
    MoFunction f;
    f.n = n; f.k = k;
    f.conflict = p.get("conflict", 0, 0, 1);
    for (int i = 0; i < k; i++) { f.l[i].kind = int(p.get("land" + std::to_string(i), 0, 0, kLandscapes - 1)); f.l[i].n = n; f.l[i].seed = uint64_t(p.get("lseed") + i + (runs[j + 2] ? 100 * int64_t(j) : 0)); }
    f.fail_at = runs[j + 1];
    int64_t iters = std::max<int64_t>(0, runs[j] % 60);
    alg.set_num_iterations(int(iters));
    std::vector<mo::function::Function*> fs{&f};
    bool failed = false;
    try { alg.minimize(fs); } catch (const InjectedFailure&) { failed = true; }
    sig = mix(sig, failed ? 1 : uint64_t(iters + 2));
    ev("run", failed, int64_t(f.hist.size()));
    if (failed) continue;
    std::string tag = completed ? "rerun" : "first";
    completed++;
    // evaluations: the initial population and one population per iteration
    if (int64_t(f.hist.size()) != pop * (iters + 1)) violate("mo-evaluations:" + tag, "%zu evaluations for %ld iterations of a population of %d", f.hist.size(), long(iters), pop);
    std::set<key_t64> seen;
    for (auto& e : f.hist) seen.insert(e.first);
    const auto& s = alg.get_solutions();
    if (s.get_size() < 1 || s.get_size() > pop || s.values.size() != s.bvs.size()) violate("mo-size:" + tag, "%d solutions with %zu values from a population of %d", s.get_size(), s.values.size(), pop);
    std::set<std::vector<double>> front;
    for (int i = 0; i < s.get_size(); i++) {
      key_t64 x = key_of(s.bvs[size_t(i)]);
      if (int(s.bvs[size_t(i)].size()) != n || !seen.count(x)) violate("mo-not-evaluated:" + tag, "solution %s was never evaluated by this run", str(s.bvs[size_t(i)]).c_str());
      if (s.values[size_t(i)] != f.truth(x)) violate("mo-wrong-value:" + tag, "solution %s is handed over with another point's value", str(s.bvs[size_t(i)]).c_str());
      front.insert(s.values[size_t(i)]);
    }
    for (auto& a : front) for (auto& b : front) if (dom(a, b)) violate("mo-dominated:" + tag, "among the solutions, one dominates another");
    // Elitism: as long as the non-dominated points fit in the population, none of them is ever lost.
    std::vector<std::pair<key_t64, std::vector<double>>> fr;
    bool fits = true;
    for (int64_t it = 0; it <= iters && fits; it++) {
      for (int64_t q = it * pop; q < (it + 1) * pop; q++) fr.push_back(f.hist[size_t(q)]);
      if (it == 0 && iters > 0) continue;       // parents and first offspring are ranked together
      std::vector<std::pair<key_t64, std::vector<double>>> keep;
      for (auto& a : fr) { bool d = false; for (auto& b : fr) d = d || dom(b.second, a.second); if (!d) keep.push_back(a); }
      fr = keep;
      if (int(fr.size()) > pop) fits = false;
    }
    if (fits) {
      count("front-fits");
      std::set<std::vector<double>> want;
      for (auto& a : fr) want.insert(a.second);
      if (want != front) violate("mo-front-lost:" + tag, "the solutions show %zu distinct non-dominated values; %zu were found and fitted in the population", front.size(), want.size());
      std::set<key_t64> wx, gx;
      for (auto& a : fr) wx.insert(a.first);
      for (auto& b : s.bvs) gx.insert(key_of(b));
      if (wx != gx) violate("mo-points-lost:" + tag, "the solutions show %zu distinct points, %zu were found and fitted in the population", gx.size(), wx.size());
    }
    // The survivors of each iteration
    mo_pop parents(f.hist.begin(), f.hist.begin() + pop);
    bool known = true;
    std::vector<MoRank> rank;
    for (int x : mo_fronts(parents)) rank.push_back({x, std::nan("")});      // the first tournaments look at fronts only
    MinDist far(n, rate, allow), lost(n, rate, allow);
    for (int64_t it = 1; it <= iters && known; it++) {
      std::vector<size_t> winners;
      for (size_t i = 0; i < parents.size(); i++) {
        int beaten = 0;
        for (auto& x : rank) beaten += !mo_better(x, rank[i]);
        if (beaten >= tour) winners.push_back(i);
      }
      if (winners.size() < parents.size()) count("losers known");
      for (int64_t q = it * pop; cross == 0 && q < (it + 1) * pop; q++) {
        key_t64 x = f.hist[size_t(q)].first;
        int d = n, w = n;
        for (auto& e : parents) d = std::min(d, bits_of(e.first ^ x));
        for (auto i : winners) w = std::min(w, bits_of(parents[i].first ^ x));
        if (rate > 0) {                // offspring are mutants of parents that won a tournament
          far.add(d);
          lost.add(w);
          if (far.top() > 36) violate("mo-parents:" + tag, "the offspring of the first %ld iterations are too far from all survivors for mutations at rate %g", long(it), rate);
          if (lost.top() > 36) violate("mo-loser:" + tag, "the offspring of the first %ld iterations are too far from all those who can win a tournament of %d for mutations at rate %g", long(it), tour, rate);
        } else if (w > 0)              // offspring are copies of them
          violate("mo-loser:" + tag, "%s wins a tournament of %d although too few individuals are not better", show(x, n).c_str(), tour);
      }
      mo_pop all = parents, next;
      all.insert(all.end(), f.hist.begin() + it * pop, f.hist.begin() + (it + 1) * pop);
      known = mo_survivors(all, size_t(pop), k, next, rank);
      parents = next;
    }
    if (known) {
      count("survivors known");
      auto fp = mo_fronts(parents);
      std::multiset<key_t64> want, got;
      for (size_t i = 0; i < parents.size(); i++) if (fp[i] == 0) want.insert(parents[i].first);
      for (auto& b : s.bvs) got.insert(key_of(b));
      if (want != got) violate("mo-survivors:" + tag, "the run hands over %zu points; the first front of what survives in %ld iterations has %zu, or others", got.size(), long(iters), want.size());
    }
    // Without crossover and mutation nothing new can appear.
    if (cross == 0 && rate == 0) {
      std::set<key_t64> init;
      for (int i = 0; i < pop; i++) init.insert(f.hist[size_t(i)].first);
      for (auto x : seen) if (!init.count(x)) violate("mo-crossover-off:" + tag, "with crossover probability 0 and no mutation, a new point appeared");
      count("no-variation");
    }
    if (iters > 0) nontrivial();
  }
  cover(mix(sig, sh->hash));
}
Register R18(Prop{"H18", false, false, gen18, exec18});

// ---------------------------------------------------------------- H21 tournaments
Plan gen21(Rng& r, int, bool t) {
  Plan p;
  p.set("size", r.range(3, t ? 60 : 24));
  p.set("tour", r.range(2, 8));
  p.set("kind", r.range(0, 4));
  p.set("ties", r.range(1, 30));
  p.set("beta", r.range(0, 8));
  p.set("seed", r.range(0, 1 << 30));
  auto& l = p.mut("L2.ops");
  for (int64_t i = r.small(1, t ? 300 : 100); i > 0; i--) { l.push_back(r.range(0, 30)); l.push_back(r.range(0, 1000)); }
  return p;
}
// Selections given by probabilities: likelihood ratios of other distributions to the one stated, martingales of mean one.
void exec21_random(const Plan& p, algorithm::Population& pop, int n, Rng& g) {
  const int kind = int(p.get("kind", 2, 2, 4)), N = pop.get_size();
  const size_t M = size_t(N);
  const int64_t ties = p.get("ties", 1, 1, 100);
  static const double betas[] = {0, 0.01, 0.1, 0.5, 1, 2, 5, 20, 1e-3};
  double beta = betas[p.get("beta", 4, 0, 8)];
  auto redraw = [&]() {
    for (auto& v : pop.values) v = kind == 3 ? double(g.range(0, ties)) * (ties < 20 ? 1 : 0.125) : double(g.range(0, ties < 20 ? ties : 200)) - 5;
    if (kind == 3) pop.values[size_t(g.range(0, N - 1))] = double(ties);      // not all zero
  };
  redraw();
  algorithm::UniformSelection us(pop);
  algorithm::FitnessProportionateSelection fs(pop);
  algorithm::BoltzmannSelection bs(pop);
  algorithm::RandomSelection* s = kind == 2 ? static_cast<algorithm::RandomSelection*>(&us) : kind == 3 ? static_cast<algorithm::RandomSelection*>(&fs) : &bs;
  if (kind == 4 && beta != 1) bs.set_beta(beta);
  count(kind == 2 ? "uniform" : kind == 3 ? "fitness-proportionate" : "Boltzmann");
  std::vector<double> prob(M), old;
  auto probabilities = [&]() {
    double top = *std::max_element(pop.values.begin(), pop.values.end()), sum = 0;
    for (size_t i = 0; i < M; i++) sum += prob[i] = kind == 2 ? 1 : kind == 3 ? pop.values[i] : std::exp(beta * (pop.values[i] - top));
    for (auto& q : prob) q /= sum;
  };
  probabilities();
  s->init();
  double l[7] = {0, 0, 0, 0, 0, 0, 0};
  int last = -1;
  uint64_t sig = mix(uint64_t(N), uint64_t(kind));
  auto& ops = p.list("L2.ops");
  for (size_t k = 0; k + 1 < ops.size(); k += 2) {
    step();
    if (ops[k] == 0 || ops[k] == 1) {
      if (ops[k] == 1) { old = prob; redraw(); if (kind == 4 && ops[k + 1] % 3 == 0) { beta = betas[ops[k + 1] % 9]; bs.set_beta(beta); } }
      s->init();
      probabilities();
      last = -1;
      continue;
    }
    for (int64_t times = 1 + ops[k + 1] % 7; times > 0; times--) {
      const bit_vector_t& b = s->select();
      int w = 0;
      for (int i = 0; i < n; i++) if (b[size_t(i)]) w |= 1 << i;
      if (w >= N) violate("selection-foreign", "the selected bit vector is not in the population");
      ev("sel", w);
      nontrivial();
      const size_t W = size_t(w);
      if (prob[W] < 1e-100) violate("selection-excluded", "an individual of probability %g was selected (value %g)", prob[W], pop.values[W]);
      const double q = prob[W];
      double sq = 0, rt = 0, up = 0, dn = 0;
      for (size_t i = 0; i < M; i++) { sq += prob[i] * prob[i]; rt += std::sqrt(prob[i]); up += prob[i] * double(i + 1); dn += prob[i] * double(N - int(i)); }
      l[0] += std::log(0.5 + 0.5 / double(N) / q);                     // closer to uniform
      l[1] += std::log(q / sq);                                        // stronger
      l[2] += std::log(1 / std::sqrt(q) / rt);                         // weaker
      l[3] += std::log(double(w + 1) / up);                            // later individuals
      l[4] += std::log(double(N - w) / dn);                            // earlier ones
      if (!old.empty()) l[5] += std::log(0.5 + 0.5 * old[W] / q);      // as before the values changed
      if (last >= 0) l[6] += std::log(0.5 + 0.5 * (w == last ? 1 / q : 0));
      last = w;
      for (int i = 0; i < 7; i++) if (l[i] > 36) violate("selection-frequencies", "what was selected is e^%g times more likely under another distribution (%d) than under the rule of selection %d", l[i], i, kind);
      sig = mix(sig, uint64_t(w));
    }
  }
  cover(sig);
}
void exec21(const Plan& p) {
  int N = int(p.get("size", 4, 3, 80)), t = int(std::min<int64_t>(p.get("tour", 2, 2, 10), N - 1)), n = 12;
  random::Generator::set_seed(unsigned(p.get("seed", 0, 0, 1 << 30)));
  Rng g(uint64_t(p.get("seed")) + 3);
  algorithm::Population pop(N, n);
  for (int i = 0; i < N; i++) for (int b = 0; b < n; b++) pop.bvs[size_t(i)][size_t(b)] = (i >> b) & 1;   // identifies the individual
  int64_t ties = p.get("ties", 1, 1, 100);
  auto redraw = [&]() { for (auto& v : pop.values) v = double(g.range(0, ties < 20 ? ties : 1000000)) - 5; };
  redraw();
  if (p.get("kind", 0, 0, 4) >= 2) { exec21_random(p, pop, n, g); return; }
  bool minimise = p.get("kind", 0, 0, 4) == 1;
  std::unique_ptr<algorithm::TournamentSelection> so;
  std::unique_ptr<mo::algorithm::TournamentSelection<double, std::less<double>>> ms;
  if (minimise) { ms.reset(new mo::algorithm::TournamentSelection<double, std::less<double>>(pop.bvs, pop.values)); ms->set_tournament_size(t); ms->init(); }
  else { so.reset(new algorithm::TournamentSelection(pop)); so->set_tournament_size(t); so->init(); }
  auto& ops = p.list("L2.ops");
  std::vector<int> pass;
  int per = N / t;
  uint64_t sig = mix(uint64_t(N), uint64_t(t));
  auto key = [&](int i) { return minimise ? -pop.values[size_t(i)] : pop.values[size_t(i)]; };
  for (size_t k = 0; k + 1 < ops.size(); k += 2) {
    step();
    if (ops[k] == 0 || ops[k] == 1) {           // a new generation, in the middle of a pass or at its end
      if (ops[k] == 1) redraw();
      if (!pass.empty()) count("fault:abandoned-pass");
      pass.clear();
      if (minimise) ms->init(); else so->init();
      continue;
    }
    const bit_vector_t& b = minimise ? ms->select() : so->select();
    int w = 0;
    for (int i = 0; i < n; i++) if (b[size_t(i)]) w |= 1 << i;
    if (w >= N) violate("selection-foreign", "the selected bit vector is not in the population");
    ev("sel", w);
    int notbetter = 0;
    for (int i = 0; i < N; i++) if (i != w && key(i) <= key(w)) notbetter++;
    if (notbetter < t - 1) violate("selection-loser", "selected an individual with only %d individuals as good or worse than it: it cannot have won a tournament of %d", notbetter, t);
    for (int q : pass) if (q == w) violate("selection-repeated", "an individual was selected twice in one pass over the population");
    pass.push_back(w);
    if (int(pass.size()) == per) {
      nontrivial();
      count("passes");
      std::vector<double> win;
      std::set<int> ws(pass.begin(), pass.end());
      for (int q : pass) win.push_back(key(q));
      std::sort(win.begin(), win.end());
      for (size_t i = 0; i < win.size(); i++) {
        int c = 0;
        for (int q = 0; q < N; q++) if (!ws.count(q) && key(q) <= win[i]) c++;
        if (c < int(i + 1) * (t - 1)) violate("selection-impossible", "the %zu worst winners of a pass need %zu distinct losers, there are only %d", i + 1, (i + 1) * size_t(t - 1), c);
      }
      if (N % t == 0) {
        double best = -1e300; int bi = 0, nb = 0;
        for (int q = 0; q < N; q++) { if (key(q) > best) { best = key(q); bi = q; nb = 1; } else if (key(q) == best) nb++; }
        if (nb == 1 && !ws.count(bi)) violate("selection-lost-best", "every individual took part in one of %d tournaments, yet the best one was not selected", per);
      }
      pass.clear();
    }
    sig = mix(sig, uint64_t(w));
  }
  cover(sig);
}
Register R21(Prop{"H21", false, false, gen21, exec21});

} // namespace
