// H29: random instances and maps are as asked for, whatever their objects held before.
#include "stack.hh"
#include "vdisk.hh"
#include "zoo.hh"
#include "hnco/functions/all.hh"
#include "hnco/maps/map.hh"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <getopt.h>
#include <iostream>
#include <set>
#include <sstream>
#include <unistd.h>
using namespace sim;
using namespace hnco;
using namespace hnco::function;

int ffgen_main(int, char**);
int mapgen_main(int, char**);

namespace {

enum Kind { LINEAR, NK, SAT, PLANTED, PARTITION, PRODUCTS, WALSH, WALSH1, WALSH2, LONG1, LONG2, ISING1, ISING2, SUDOKU, TRANSLATION, PERMUTATION, LINEARMAP, AFFINEMAP, TSMAP, TRANSVECTIONS, TSP, KINDS };
const char* const kind_names[] = {"LinearFunction", "NkLandscape", "MaxSat", "MaxSat, planted", "Partition", "EqualProducts", "WalshExpansion", "WalshExpansion1", "WalshExpansion2", "WalshExpansion2, long range",
                                  "WalshExpansion2, long range, periodic", "NearestNeighborIsingModel1", "NearestNeighborIsingModel2", "Sudoku", "Translation", "Permutation", "LinearMap", "AffineMap", "TsAffineMap", "transvection sequence", "Tsp"};

Plan gen29(Rng& r, int, bool t) {
  Plan p;
  p.set("kind", r.range(0, KINDS - 1));
  p.set("app", r.chance(1, 8));
  p.set("seed", r.chance(1, 20) ? 0 : r.range(0, 1 << 30));
  auto& l = p.mut("L4.ops");       // size, parameter, flags, numbers drawn by something else before
  for (int64_t i = (r.chance(1, 12) ? r.range(16, 60) : r.small(1, t ? 60 : 16)); i > 0; i--) { l.push_back(r.range(0, 100)); l.push_back(r.range(0, 1000)); l.push_back(r.range(0, 63)); l.push_back(r.chance(1, 3) ? r.range(1, 5) : 0); }
  return p;
}

// Likelihood ratios, as in H28.
struct Fair {
  double l[4] = {0, 0, 0, 0};
  void bit(int x) { l[0] += std::log(x ? 1.5 : 0.5); l[1] += std::log(x ? 0.5 : 1.5); l[2] += std::log(x ? 1.1 : 0.9); l[3] += std::log(x ? 0.9 : 1.1); }
  double top() const { return *std::max_element(l, l + 4); }
};
struct Gauss {
  double l[6] = {0, 0, 0, 0, 0, 0};
  // shifted either way, wider, narrower, from the unit interval, from one around zero
  void value(double z) { double d = 0.5 * z * z + 0.9189385; l[4] += z >= 0 && z <= 1 ? d + std::log(0.99) : std::log(0.01); l[5] += std::fabs(z) <= 1 ? d + std::log(0.99 / 2) : std::log(0.01); l[0] += 0.5 * z - 0.125; l[1] += -0.5 * z - 0.125; l[2] += 0.5 * z * z * (1 - 1 / 2.25) - std::log(1.5); l[3] += 0.5 * z * z * (1 - 1 / 0.49) - std::log(0.7); }
  double top() const { return *std::max_element(l, l + 6); }
};
struct Share {
  double l[2] = {0, 0};
  void event(bool in, double p) { if (p >= 0.999 || p <= 0.001) return; double a = p * 0.6, b = p + (1 - p) * 0.4; l[0] += std::log(in ? a / p : (1 - a) / (1 - p)); l[1] += std::log(in ? b / p : (1 - b) / (1 - p)); }
  double top() const { return std::max(l[0], l[1]); }
};
struct Uniform {
  double l[5] = {0, 0, 0, 0, 0};
  void value(int v, int m, int alike) {
    double M = m;
    l[0] += std::log(2.0 * (v + 1) / (M + 1));
    l[1] += std::log(2.0 * (M - v) / (M + 1));
    l[2] += std::log(0.7 + 0.3 * (v == alike ? M : 0));
    l[3] += std::log(0.7 + 0.3 * (v == 0 ? M : 0));
    l[4] += std::log(0.7 + 0.3 * (v == m - 1 ? M : 0));
  }
  double top() const { return *std::max_element(l, l + 5); }
};

std::vector<double> values_of(Function& f, int n) {
  std::vector<double> y(size_t(1) << n);
  bit_vector_t x(static_cast<size_t>(n));
  for (size_t k = 0; k < y.size(); k++) { for (size_t b = 0; b < x.size(); b++) x[b] = char((k >> b) & 1); y[k] = f.evaluate(x); }
  return y;
}
// Walsh coefficients by the fast transform, in place.
std::vector<double> spectrum(std::vector<double> y) {
  for (size_t h = 1; h < y.size(); h *= 2) for (size_t i = 0; i < y.size(); i += 2 * h) for (size_t j = i; j < i + h; j++) { double a = y[j], b = y[j + h]; y[j] = a + b; y[j + h] = a - b; }
  for (auto& v : y) v /= double(y.size());
  return y;
}
// The first is among the second, each once.
bool within(std::vector<double> a, std::vector<double> b, bool all) {
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  size_t j = 0;
  for (double v : a) { while (j < b.size() && b[j] < v - 1e-7 * (1 + std::fabs(v))) { if (all) return false; j++; } if (j == b.size() || b[j] > v + 1e-7 * (1 + std::fabs(v))) return false; j++; }
  return !all || j == b.size();
}
std::string list(const std::vector<double>& v) { std::ostringstream s; for (auto x : v) s << " " << x; return s.str(); }

bool solve(std::vector<int>& g, int64_t& work) {
  int best = -1, fewest = 10;
  unsigned bm = 0;
  for (int c = 0; c < 81; c++) if (!g[size_t(c)]) {
    unsigned used = 0;
    for (int k = 0; k < 9; k++) { used |= 1u << g[size_t(c / 9 * 9 + k)]; used |= 1u << g[size_t(k * 9 + c % 9)]; used |= 1u << g[size_t((c / 27 * 3 + k / 3) * 9 + c % 9 / 3 * 3 + k % 3)]; }
    unsigned m = ~used & 0x3fe;
    int f = __builtin_popcount(m);
    if (f < fewest) { fewest = f; best = c; bm = m; }
  }
  if (best < 0) return true;
  if (++work > 200000) return true;      // given up: not judged
  for (int d = 1; d <= 9; d++) if (bm & (1u << d)) { g[size_t(best)] = d; if (solve(g, work)) return true; }
  g[size_t(best)] = 0;
  return false;
}

struct Ask { int kind = 0, n = 0, k = 0, c = 0, rows = 0, cols = 0, mode = 0; bool surjective = false, periodic = false; double a = 0, b = 0; bool custom = false; };
std::string describe(const Ask& q) {
  char s[200];
  snprintf(s, sizeof s, "%s n=%d k=%d c=%d rows=%d cols=%d mode=%d surjective=%d periodic=%d", kind_names[q.kind], q.n, q.k, q.c, q.rows, q.cols, q.mode, q.surjective, q.periodic);
  return s;
}
#define BAD(CLASS, ...) do { char m_[600]; snprintf(m_, sizeof m_, __VA_ARGS__); violate(std::string(CLASS) + ":" + kind_names[q.kind], "%s: %s (%s, generation %zu)", kind_names[q.kind], m_, describe(q).c_str(), step_no); } while (0)

// What was generated: lin and quad are the numbers the generators gave, if they are known.
void check_function(const Ask& q, Function& f, const std::vector<double>* lin, const std::vector<double>* quad, Gauss* gauss, Share& share, size_t step_no) {
  const int n = q.n;
  if (f.get_bv_size() != n) BAD("size", "%d bits instead of %d", f.get_bv_size(), n);
  auto y = values_of(f, n), w = spectrum(y);
  double scale = 0;
  for (double v : y) { if (!std::isfinite(v)) BAD("value", "a value is %g", v); scale = std::max(scale, std::fabs(v)); }
  ev("gen", q.kind, n, int64_t(std::llround(std::min(1e15, scale * 1e6))));
  const double eps = 1e-12 * (scale + 1e-300);
  auto order = [](size_t m) { return __builtin_popcountll(m); };
  auto of_order = [&](int k) { std::vector<double> v; for (size_t m = 0; m < w.size(); m++) if (order(m) == k) v.push_back(w[m]); return v; };
  auto limit = [&](int k) { for (size_t m = 0; m < w.size(); m++) if (order(m) > k && std::fabs(w[m]) > eps) BAD("order", "%d bits interact", order(m)); };
  if (gauss) switch (q.kind) {
  case LINEAR: for (int i = 0; i < n; i++) gauss->value(y[size_t(1) << i]); break;
  case WALSH1: case WALSH2: for (size_t m = 1; m < w.size(); m++) if (order(m) <= (q.kind == WALSH1 ? 1 : 2)) gauss->value(w[m]); break;
  case ISING1: case ISING2: for (int i = 0; i < n; i++) gauss->value(w[size_t(1) << i]); break;
  default:;
  }
  switch (q.kind) {
  case LINEAR: {
    std::vector<double> c;
    for (int i = 0; i < n; i++) c.push_back(y[size_t(1) << i]);
    limit(1);
    if (std::fabs(y[0]) > eps) BAD("value", "the value of zero is %g", y[0]);
    if (lin && (lin->size() != size_t(n) || !within(c, *lin, true))) BAD("coefficients", "the weights are%s, generated were%s", list(c).c_str(), list(*lin).c_str());
    break; }
  case NK: {
    limit(q.k + 1);
    // each bit is with k others in the argument of a component: at most n sets of k + 1, which cover the bits and what interacts
    std::vector<size_t> sets;
    for (size_t m = 0; m < w.size(); m++) if (order(m) == q.k + 1 && std::fabs(w[m]) > eps) sets.push_back(m);
    if (q.custom) {
      if (sets.size() > size_t(n)) BAD("structure", "%zu components of %d bits for %d bits", sets.size(), q.k + 1, n);
      for (int i = 0; i < n; i++) { bool in = false; for (auto s : sets) in |= (s >> i) & 1; if (!in) BAD("structure", "bit %d takes part in no component of %d bits", i, q.k + 1); }
      for (size_t m = 1; m < w.size(); m++) if (std::fabs(w[m]) > eps) { bool in = false; for (auto s : sets) in |= (m & s) == m; if (!in) BAD("structure", "bits which are in no common component interact"); }
      double sum = 0;
      if (lin) {
        if (lin->size() != size_t(n) << (q.k + 1)) BAD("coefficients", "%zu values were generated", lin->size());
        for (double v : *lin) sum += v;
        sum /= double(lin->size());
        if (std::fabs(w[0] - sum) > 1e-7 * (1 + std::fabs(sum))) BAD("coefficients", "the mean is %g, that of the values generated %g", w[0], sum);
      }
    }
    break; }
  case PARTITION: {
    double T = -y[0];
    for (double v : y) if (v != std::floor(v) || v > 0 || v < y[0]) BAD("value", "the value %g is impossible with sum %g", v, T);
    if (T < n || T > double(n) * q.c) BAD("range", "the sum of %d numbers up to %d is %g", n, q.c, T);
    for (int i = 0; i < n; i++) {
      double v = -y[size_t(1) << i], a = (T - v) / 2, b = (T + v) / 2;
      auto ok = [&](double z) { return z >= 1 && z <= q.c && z == std::floor(z); };
      if (!ok(a) && !ok(b)) BAD("range", "number %d is %g or %g, up to %d was asked for", i, a, b, q.c);
    }
    break; }
  case PRODUCTS: {
    if (!lin) break;
    if (lin->size() != size_t(n)) BAD("coefficients", "%zu numbers were generated for %d bits", lin->size(), n);
    double P = 1;
    for (double v : *lin) P *= v;
    std::vector<double> want, got;
    for (int i = 0; i < n; i++) { want.push_back(-std::fabs((*lin)[size_t(i)] - P / (*lin)[size_t(i)])); got.push_back(y[size_t(1) << i]); }
    if (!within(got, want, true)) BAD("coefficients", "values%s instead of%s", list(got).c_str(), list(want).c_str());
    break; }
  case WALSH: {
    std::vector<double> c;
    for (double v : w) if (std::fabs(v) > eps) c.push_back(v);
    double distinct = 1;
    for (int i = 0; i < q.k; i++) distinct *= 1 - i / double(w.size());
    share.event(c.size() == size_t(q.k), std::max(0.0, distinct));
    if (c.size() > size_t(q.k)) BAD("terms", "%zu terms instead of %d", c.size(), q.k);
    if (!lin) break;
    if (lin->size() != size_t(q.k)) BAD("coefficients", "%zu coefficients were generated", lin->size());
    if (c.size() == size_t(q.k) && !within(c, *lin, true)) BAD("coefficients", "coefficients%s, generated were%s", list(c).c_str(), list(*lin).c_str());
    double s = 0;
    for (double v : *lin) s += v;
    if (std::fabs(y[0] - s) > 1e-7 * (1 + std::fabs(s))) BAD("coefficients", "the value of zero is %g, the coefficients add up to %g", y[0], s);
    break; }
  case WALSH1: case WALSH2: {
    limit(q.kind == WALSH1 ? 1 : 2);
    if (std::fabs(w[0]) > eps) BAD("value", "the mean is %g", w[0]);
    if (lin && (lin->size() != size_t(n) || !within(of_order(1), *lin, true))) BAD("coefficients", "linear coefficients%s, generated were%s", list(of_order(1)).c_str(), list(*lin).c_str());
    if (quad && q.kind == WALSH2 && (int(quad->size()) != n * (n - 1) / 2 || !within(of_order(2), *quad, true))) BAD("coefficients", "quadratic coefficients%s, generated were%s", list(of_order(2)).c_str(), list(*quad).c_str());
    break; }
  case LONG1: case LONG2:
    for (size_t m = 0; m < w.size(); m++) {
      double want = 0;
      if (order(m) == 2) { int i = __builtin_ctzll(m), j = 63 - __builtin_clzll(m), d = j - i; if (q.kind == LONG2) d = std::min(d, n - d); want = std::pow(double(d), -q.a); }
      if (std::fabs(w[m] - want) > 1e-7) BAD("coefficients", "the coefficient of %zx is %g instead of %g", m, w[m], want);
    }
    break;
  case ISING1: case ISING2: {
    std::vector<double> pairs;
    limit(2);
    if (std::fabs(w[0]) > eps) BAD("value", "the mean is %g", w[0]);
    for (size_t m = 0; m < w.size(); m++) if (order(m) == 2) {
      int i = __builtin_ctzll(m), j = 63 - __builtin_clzll(m);
      bool near;
      if (q.kind == ISING1) near = j == i + 1 || (q.periodic && i == 0 && j == n - 1);
      else {
        int dr = j / q.cols - i / q.cols, dc = std::abs(j % q.cols - i % q.cols);
        near = (dr == 0 && (dc == 1 || (q.periodic && dc == q.cols - 1))) || (dc == 0 && (dr == 1 || (q.periodic && dr == q.rows - 1)));
      }
      if (near) pairs.push_back(w[m]);
      else if (std::fabs(w[m]) > eps) BAD("structure", "bits %d and %d interact", i, j);
    }
    if (lin && !within(of_order(1), *lin, true)) BAD("coefficients", "fields%s, generated were%s", list(of_order(1)).c_str(), list(*lin).c_str());
    if (quad && !within(pairs, *quad, false)) BAD("coefficients", "couplings%s, generated were%s", list(pairs).c_str(), list(*quad).c_str());
    break; }
  }
}

void check_sat(const Ask& q, Function& f, const std::string& text, const bit_vector_t* planted, Fair& signs, Uniform& vars, Share& share, size_t step_no) {
  std::istringstream in(text);
  std::string l;
  int n = 0, c = 0;
  std::vector<std::vector<int>> cl;
  while (std::getline(in, l)) {
    if (l.empty() || l[0] == 'c') continue;
    std::istringstream s(l);
    std::string a, b;
    if (l[0] == 'p') { s >> a >> b >> n >> c; continue; }
    cl.emplace_back();
    for (int v; s >> v && v;) cl.back().push_back(v);
  }
  if (f.get_bv_size() != q.n || n != q.n) BAD("size", "%d bits, %d variables instead of %d", f.get_bv_size(), n, q.n);
  if (c != q.c || int(cl.size()) != q.c) BAD("clauses", "%zu clauses instead of %d", cl.size(), q.c);
  for (auto& k : cl) {
    std::set<int> v;
    for (int x : k) { v.insert(std::abs(x)); if (!x || std::abs(x) > n) BAD("clauses", "literal %d", x); }
    if (int(k.size()) != q.k || int(v.size()) != q.k) BAD("clauses", "a clause of %zu literals over %zu variables instead of %d", k.size(), v.size(), q.k);
    if (q.kind == SAT) for (int x : k) signs.bit(x > 0);
    if (q.k == 1) vars.value(std::abs(k[0]) - 1, q.n, int(step_no) % q.n);
    { const int b = 1 + int(step_no) % q.n; share.event(v.count(b), double(q.k) / q.n); }
    if (planted) { bool sat = false; for (int x : k) sat |= (x > 0) == bool((*planted)[size_t(std::abs(x) - 1)]); if (!sat) BAD("planted", "the planted solution does not satisfy a clause"); }
  }
  ev("sat", q.n, q.k, int64_t(hash_str(text)));
  auto y = values_of(f, q.n);
  double sum = 0, top = 0;
  for (size_t x = 0; x < y.size(); x++) {
    int s = 0;
    for (auto& k : cl) { bool sat = false; for (int v : k) sat |= (v > 0) == bool((x >> (std::abs(v) - 1)) & 1); s += sat; }
    if (y[x] != s) BAD("value", "a point that satisfies %d clauses has value %g", s, y[x]);
    sum += y[x];
    top = std::max(top, y[x]);
  }
  if (q.kind == PLANTED && top != q.c) BAD("planted", "no point satisfies all clauses");
  (void)sum;
}

void check_sudoku(const Ask& q, const std::string& text, int variables, size_t step_no) {
  std::vector<int> g;
  for (char ch : text) { if (ch == '.') g.push_back(0); else if (ch >= '1' && ch <= '9') g.push_back(ch - '0'); }
  if (g.size() != 81) BAD("board", "%zu cells", g.size());
  int empty = int(std::count(g.begin(), g.end(), 0));
  if (empty != q.c) BAD("board", "%d empty cells instead of %d", empty, q.c);
  if (variables >= 0 && variables != q.c) BAD("variables", "%d variables for %d empty cells", variables, q.c);
  for (int c = 0; c < 81; c++) if (int v = g[size_t(c)]) for (int k = 0; k < 9; k++)
    for (int o : {c / 9 * 9 + k, k * 9 + c % 9, (c / 27 * 3 + k / 3) * 9 + c % 9 / 3 * 3 + k % 3})
      if (o != c && g[size_t(o)] == v) BAD("board", "the digit %d is given twice in a row, column or block", v);
  ev("sudoku", q.c, int64_t(hash_str(text)));
  int64_t work = 0;
  if (!solve(g, work)) BAD("board", "the problem has no solution");
}

void check_map(const Ask& q, map::Map& m, Fair& bits, Uniform& pos, size_t step_no) {
  const int n = m.get_input_size(), o = m.get_output_size();
  if (n != q.n || o != (q.rows ? q.rows : q.n)) BAD("size", "a map from %d to %d bits", n, o);
  auto apply = [&](key_t64 k) {
    bit_vector_t x(static_cast<size_t>(n)), y(static_cast<size_t>(o));
    for (int b = 0; b < n; b++) x[size_t(b)] = char((k >> b) & 1);
    m.map(x, y);
    key_t64 r = 0;
    for (int b = 0; b < o; b++) { if (y[size_t(b)] != 0 && y[size_t(b)] != 1) BAD("value", "a bit is %d", int(y[size_t(b)])); if (y[size_t(b)]) r |= key_t64(1) << b; }
    return r;
  };
  const key_t64 zero = apply(0);
  std::vector<key_t64> col;
  for (int i = 0; i < n; i++) col.push_back(apply(key_t64(1) << i) ^ zero);
  uint64_t h = zero;
  for (auto c : col) h = mix(h, c);
  ev("map", q.kind, int64_t(h));
  // affine, and onto where asked for
  for (key_t64 x = 0; x < (key_t64(1) << std::min(n, 7)); x++) { key_t64 e = zero; for (int i = 0; i < n; i++) if ((x >> i) & 1) e ^= col[size_t(i)]; if (apply(x) != e) BAD("value", "the map is not affine"); }
  std::vector<key_t64> e = col;
  int rank = 0;
  for (int b = 0; b < o; b++) {
    size_t at = size_t(rank);
    while (at < e.size() && !((e[at] >> b) & 1)) at++;
    if (at == e.size()) continue;
    std::swap(e[at], e[size_t(rank)]);
    for (size_t i = 0; i < e.size(); i++) if (i != size_t(rank) && ((e[i] >> b) & 1)) e[i] ^= e[size_t(rank)];
    rank++;
  }
  bool onto = rank == o;
  if (m.is_surjective() != onto) BAD("surjective", "the map of rank %d to %d bits says it is %s", rank, o, m.is_surjective() ? "surjective" : "not surjective");
  if (q.surjective && !onto) BAD("surjective", "a surjective map was asked for, this one has rank %d for %d bits", rank, o);
  switch (q.kind) {
  case TRANSLATION:
    for (int i = 0; i < n; i++) { if (col[size_t(i)] != key_t64(1) << i) BAD("structure", "it is no translation"); bits.bit((zero >> i) & 1); }
    break;
  case PERMUTATION: {
    key_t64 all = 0;
    if (zero) BAD("structure", "zero is moved");
    for (int i = 0; i < n; i++) { if (__builtin_popcountll(col[size_t(i)]) != 1) BAD("structure", "it is no permutation"); all |= col[size_t(i)]; }
    if (all != (key_t64(1) << n) - 1) BAD("structure", "it is no permutation");
    int i = int(step_no) % n;
    pos.value(__builtin_ctzll(col[size_t(i)]), n, i);
    break; }
  case LINEARMAP: case AFFINEMAP:
    if (q.kind == LINEARMAP && zero) BAD("structure", "zero is moved");
    if (q.kind == AFFINEMAP) for (int b = 0; b < o; b++) bits.bit((zero >> b) & 1);
    if (!q.surjective) for (auto c : col) for (int b = 0; b < o; b++) bits.bit((c >> b) & 1);
    break;
  case TSMAP: {
    for (int b = 0; b < o; b++) bits.bit((zero >> b) & 1);
    if (rank != n) BAD("structure", "it is not invertible");
    // the matrix minus one
    std::vector<key_t64> N = col;
    int ones = 0;
    key_t64 rows = 0, cols = 0;
    bool once_row = true, once_col = true;
    for (int i = 0; i < n; i++) {
      N[size_t(i)] ^= key_t64(1) << i;
      int k = __builtin_popcountll(N[size_t(i)]);
      ones += k;
      if (k) cols |= key_t64(1) << i;
      if (k > 1) once_col = false;
      if (rows & N[size_t(i)]) once_row = false;
      rows |= N[size_t(i)];
    }
    if (q.mode >= 1 && q.mode <= 4) {
      int most = q.mode == 1 ? n * n / 4 : q.mode == 4 ? n / 2 : n - 1, want = std::min(q.k, most);
      if (ones != want) BAD("length", "%d transvections instead of %d", ones, want);
      if (rows & cols) BAD("structure", "transvections do not commute");
      if (q.mode != 1 && q.mode != 3 && !once_row) BAD("structure", "a bit has two sources");
      if (q.mode != 1 && q.mode != 2 && !once_col) BAD("structure", "a bit has two destinations");
    } else if (ones == 0 && q.k == 1) BAD("length", "no transvection instead of one");
    if (q.k == 0 && ones) BAD("length", "%d transvections instead of none", ones);
    if (q.k == 1 && ones != 1) BAD("length", "%d transvections instead of one", ones);
    std::ostringstream s;
    m.display(s);
    break; }
  }
}

void check_transvections(const Ask& q, map::transvection_sequence_t& ts, Uniform& pos, size_t step_no) {
  const int n = q.n, t = q.k;
  int most = t;
  switch (q.mode) {
  case 0: map::ts_random(ts, n, t); break;
  case 1: map::ts_random_commuting(ts, n, t); most = n * n / 4; break;
  case 2: map::ts_random_unique_source(ts, n, t); most = n - 1; break;
  case 3: map::ts_random_unique_destination(ts, n, t); most = n - 1; break;
  case 4: map::ts_random_disjoint(ts, n, t); most = n / 2; break;
  default: map::ts_random_non_commuting(ts, n, t); break;
  }
  if (int(ts.size()) != std::min(t, most)) BAD("length", "%zu transvections instead of %d", ts.size(), std::min(t, most));
  uint64_t h = 0;
  for (auto& v : ts) {
    if (v.row_index < 0 || v.row_index >= n || v.column_index < 0 || v.column_index >= n || v.row_index == v.column_index) BAD("value", "the transvection (%d, %d)", v.row_index, v.column_index);
    h = mix(h, uint64_t(v.row_index * 100 + v.column_index));
  }
  ev("transvections", q.mode, int64_t(h));
  for (size_t i = 0; i < ts.size(); i++) for (size_t j = 0; j < i; j++) {
    auto &a = ts[i], &b = ts[j];
    const bool commute = a.row_index != b.column_index && b.row_index != a.column_index;
    if (q.mode >= 1 && q.mode <= 4 && !commute) BAD("structure", "transvections %zu and %zu do not commute", j, i);
    if (q.mode == 1 && a.row_index == b.row_index && a.column_index == b.column_index) BAD("structure", "transvections %zu and %zu are the same", j, i);
    if ((q.mode == 2 || q.mode == 4) && a.row_index == b.row_index) BAD("structure", "transvections %zu and %zu have the same destination", j, i);
    if ((q.mode == 3 || q.mode == 4) && a.column_index == b.column_index) BAD("structure", "transvections %zu and %zu have the same source", j, i);
    if (q.mode == 5 && j + 1 == i && commute) BAD("structure", "transvections %zu and %zu, one after the other, commute", j, i);
  }
  if (!ts.empty()) pos.value(step_no % 2 ? ts.back().row_index : ts.back().column_index, n, int(step_no) % n);
}

void exec29(const Plan& p) {
  vd::reset();
  env::on = true;
  const int kind = int(p.get("kind", 0, 0, KINDS - 1));
  const bool app = p.get("app", 0, 0, 1);
  const uint64_t seed = uint64_t(p.get("seed", 0, 0, 1 << 30));
  count(kind_names[kind]);
  auto& ops = p.list("L4.ops");
  LinearFunction linear;
  NkLandscape nk;
  MaxSat sat;
  Partition partition;
  EqualProducts products;
  WalshExpansion walsh;
  WalshExpansion1 walsh1;
  WalshExpansion2 walsh2;
  NearestNeighborIsingModel1 ising1;
  NearestNeighborIsingModel2 ising2;
  Sudoku sudoku;
  map::Translation translation;
  map::Permutation permutation;
  map::LinearMap linearmap;
  map::AffineMap affinemap;
  map::TsAffineMap tsmap;
  Fair fair, signs;
  Uniform pos, vars;
  Gauss gauss;
  Share share;
  Tsp tsp;
  map::transvection_sequence_t sequence;
  uint64_t sig = mix(uint64_t(kind), app);
  for (size_t i = 0; i + 3 < ops.size() && (!app || i < 4); i += 4) {
    step();
    const size_t step_no = i / 4;
    const int s = int(std::llabs(ops[i])), a = int(std::llabs(ops[i + 1])), fl = int(std::llabs(ops[i + 2]));
    for (int64_t j = 0; j < ops[i + 3]; j++) { if (j % 2) random::Generator::normal(); else random::Generator::uniform(); }
    Ask q;
    q.kind = kind;
    q.n = 2 + s % 8;
    q.custom = !app;
    switch (kind) {
    case NK: q.k = 1 + a % std::min(3, q.n - 1); break;
    case SAT: case PLANTED: q.k = 1 + a % std::min(4, q.n); q.c = 1 + a % 37; break;
    case PARTITION: q.c = 1 + a % 150; break;
    case WALSH: q.k = 1 + a % 16; if (fl & 1) q.n = 2 + s % 11; break;
    case LINEAR: case WALSH1: if (fl % 8 == 1) q.n = 2 + s % 11; break;
    case LONG1: case LONG2: q.a = 0.25 * (1 + a % 12); break;
    case ISING1: q.periodic = fl & 1; if (q.periodic) q.n = std::max(q.n, 3); break;
    case ISING2: q.periodic = fl & 1; q.rows = (q.periodic ? 3 : 1) + (fl >> 1) % 2; q.cols = 3 + (app ? 0 : (fl >> 2) % 2 * !q.periodic); if (!q.periodic) q.rows += (fl >> 3) % 2; q.n = q.rows * q.cols; break;
    case SUDOKU: q.c = 1 + a % 50; break;
    case LINEARMAP: case AFFINEMAP: q.surjective = fl & 1; q.rows = 1 + a % 10; if (q.surjective) q.rows = 1 + a % q.n; break;
    case TSMAP: case TRANSVECTIONS: q.mode = fl % 6; q.k = a % 3 ? a % (q.n + 2) : a % 40; break;
    default:;
    }
    std::vector<double> lin, quad;
    Rng g(seed * 31 + uint64_t(i) + uint64_t(a) * 7);
    auto num = [&]() { return double(g.range(1, int64_t(1) << 50)) * 0x1p-46 * (g.chance(1, 2) ? 1 : -1); };
    auto glin = [&]() { lin.push_back(num()); return lin.back(); };
    auto gquad = [&]() { quad.push_back(num()); return quad.back(); };
    const bool real = fl & 32;                 // the library's own numbers
    sig = mix(sig, uint64_t(q.n * 1000 + q.k * 37 + q.c + q.mode));
    std::string text;
    bool klin = false, kquad = false;
    auto fresh = [&](auto& object) { object = std::decay_t<decltype(object)>(); };
    if (app) {
      std::vector<std::string> args = {"--seed=" + std::to_string(seed), "--path=/sim/g"};
      auto add = [&](const char* o, double v) { std::ostringstream os; os.precision(17); os << "--" << o << "=" << v; args.push_back(os.str()); };
      static const int ids[] = {1, 60, 70, 70, 91, 90, 160, 161, 162, 162, 0, 171, 172, 190};
      if (kind == LONG2 || kind > TSMAP) return;               // not offered
      const bool mp = kind >= TRANSLATION;
      if (!mp) {
        add("function", ids[kind]);
        add("bv-size", q.n);
        add("nk-k", q.k);
        add("ms-num-clauses", q.c ? q.c : 1);
        add("ms-num-literals-per-clause", q.k);
        if (kind == PLANTED) args.push_back("--ms-planted-solution");
        add("part-upper-bound", q.c ? q.c : 1);
        add("walsh-num-features", q.k);
        add("sudoku-num-empty-cells", q.c ? q.c : 1);
        add("nn2-num-rows", q.rows);
        add("nn2-num-columns", q.cols);
        if (q.periodic) args.push_back("--periodic-boundary-conditions");
        if (kind == LONG1) { add("walsh2-generator", 1); add("walsh2-ising-alpha", q.a); }
        if (kind == ISING1 || kind == ISING2) {
          int gen = (fl >> 3) % 4;
          add(kind == ISING1 ? "nn1-generator" : "nn2-generator", gen);
          double J = num(), h = num();
          add("coupling-constant", J);
          add("field-constant", h);
          if (gen & 1) { klin = true; lin.assign(size_t(q.n), h); }
          if (gen & 2) { kquad = true; quad.assign(size_t(q.n) * 4, J); }
        }
        if (kind == LINEAR) {
          int gen = fl % 3;
          double w = num(), d = num(), r = 0.5 + 0.25 * (fl % 7);
          add("lin-generator", gen);
          add("lin-initial-weight", w);
          add("lin-distance", d);
          add("lin-ratio", r);
          if (gen) { klin = true; for (int j = 0; j < q.n; j++) { lin.push_back(w); if (gen == 1) w += d; else w *= r; } }
        }
      } else {
        static const int mids[] = {1, 2, 4, 5, 6};
        add("map", mids[kind - TRANSLATION]);
        add("input-size", q.n);
        add("output-size", q.rows ? q.rows : q.n);
        if (q.surjective) args.push_back("--surjective");
        add("ts-length", q.k);
        add("ts-sampling-mode", q.mode);
      }
      auto run = [&](uint64_t environment) { return run_sub([&]() {
        env::entropy = environment * 0x9e37 + 1;
        env::now_ns += environment * 1234567;
        std::vector<char*> v;
        v.push_back((char*)"gen");
        for (auto& x : args) v.push_back(&x[0]);
        v.push_back(nullptr);
        optind = 0;
        exit((mp ? mapgen_main : ffgen_main)(int(v.size()) - 1, v.data()));
      }, "", true, 15); };
      Sub r = run(1);
      std::string cmd;
      for (auto& x : args) cmd += " " + x;
      if (!r.exited() || r.code()) BAD("fails", "status %d: %.150s |%.350s", r.status, r.err.c_str(), cmd.c_str());
      count("generated by an application");
      text = vd::get("/sim/g");
      if (seed % 4 == 1) { vd::reset(); run(2); if (vd::get("/sim/g") != text) BAD("repeat", "the same command wrote another file |%.350s", cmd.c_str()); }
      switch (kind) {
      case LINEAR: linear.load("/sim/g"); break;
      case NK: nk.load("/sim/g"); break;
      case SAT: case PLANTED: sat.load("/sim/g"); break;
      case PARTITION: partition.load("/sim/g"); break;
      case PRODUCTS: products.load("/sim/g"); break;
      case WALSH: walsh.load("/sim/g"); break;
      case WALSH1: walsh1.load("/sim/g"); break;
      case WALSH2: case LONG1: walsh2.load("/sim/g"); break;
      case ISING1: ising1.load("/sim/g"); break;
      case ISING2: ising2.load("/sim/g"); break;
      case SUDOKU: sudoku.load("/sim/g"); break;
      case TRANSLATION: translation.load("/sim/g"); break;
      case PERMUTATION: permutation.load("/sim/g"); break;
      case LINEARMAP: linearmap.load("/sim/g"); break;
      case AFFINEMAP: affinemap.load("/sim/g"); break;
      case TSMAP: tsmap.load("/sim/g"); break;
      }
    } else {
      const unsigned sd = unsigned(seed + uint64_t(i) * 1000003);
      random::Generator::set_seed(sd);
      klin = kquad = !real;
      if (step_no && !(fl & 16)) count("object used again");
      bool anew = fl & 16;
      // what the library draws itself must come out the same in an object that held nothing
      auto generate = [&](auto& object, bool compare, auto&& how) {
        if (anew) fresh(object);
        how(object);
        if (!compare || anew || step_no % 2 == 0) return;
        std::decay_t<decltype(object)> other;
        random::Generator::set_seed(sd);
        how(other);
        count("compared with a new object");
        std::ostringstream d1, d2;
        object.display(d1);
        other.display(d2);
        if (d1.str() != d2.str()) BAD("history", "generated in an object that held another one it is displayed as %.150s, otherwise as %.150s", d1.str().c_str(), d2.str().c_str());
        if constexpr (std::is_base_of_v<Function, std::decay_t<decltype(object)>>) {
          if (object.get_bv_size() != other.get_bv_size()) BAD("size", "%d bits instead of %d", object.get_bv_size(), other.get_bv_size());
          if (values_of(object, object.get_bv_size()) != values_of(other, q.n)) BAD("history", "generated in an object that held another one it has other values");
        } else if constexpr (std::is_base_of_v<map::Map, std::decay_t<decltype(object)>>) {
          if (object.get_input_size() != other.get_input_size() || object.get_output_size() != other.get_output_size()) BAD("size", "sizes depend on what the map was before");
          bit_vector_t x(static_cast<size_t>(q.n)), y1(static_cast<size_t>(object.get_output_size())), y2 = y1;
          for (int t = 0; t < 20; t++) { for (auto& b : x) b = g.chance(1, 2); object.map(x, y1); other.map(x, y2); if (y1 != y2) BAD("history", "generated in a map that was another one it is another map"); }
        }
      };
      switch (kind) {
      case LINEAR: generate(linear, real, [&](auto& o) { if (real) o.random(q.n); else o.generate(q.n, glin); }); break;
      case NK: generate(nk, real, [&](auto& o) { if (real) o.random(q.n, q.k); else o.generate(q.n, q.k, glin); }); break;
      case SAT: generate(sat, true, [&](auto& o) { o.random(q.n, q.k, q.c); }); break;
      case PLANTED: break;
      case PARTITION: generate(partition, true, [&](auto& o) { o.random(q.n, q.c); }); break;
      case PRODUCTS: generate(products, real, [&](auto& o) { if (real) o.random(q.n); else o.generate(q.n, glin); }); break;
      case WALSH: generate(walsh, real, [&](auto& o) { if (real) o.random(q.n, q.k); else o.generate(q.n, q.k, glin); }); break;
      case WALSH1: generate(walsh1, real, [&](auto& o) { if (real) o.random(q.n); else o.generate(q.n, glin); }); break;
      case WALSH2: generate(walsh2, real, [&](auto& o) { if (real) o.random(q.n); else o.generate(q.n, glin, gquad); }); break;
      case LONG1: generate(walsh2, true, [&](auto& o) { o.generate_ising1_long_range(q.n, q.a); }); break;
      case LONG2: generate(walsh2, true, [&](auto& o) { o.generate_ising1_long_range_periodic(q.n, q.a); }); break;
      case ISING1: generate(ising1, real, [&](auto& o) { if (real) o.random(q.n); else o.generate(q.n, gquad, glin); o.set_periodic_boundary_conditions(q.periodic); }); break;
      case ISING2: generate(ising2, real, [&](auto& o) { if (real) o.random(q.rows, q.cols); else o.generate(q.rows, q.cols, gquad, glin); o.set_periodic_boundary_conditions(q.periodic); }); break;
      case SUDOKU: generate(sudoku, true, [&](auto& o) { o.random(q.c); }); sudoku.save("/sim/s"); text = vd::get("/sim/s"); break;
      case TRANSLATION: generate(translation, true, [&](auto& o) { o.random(q.n); }); break;
      case PERMUTATION: generate(permutation, true, [&](auto& o) { o.random(q.n); }); break;
      case LINEARMAP: generate(linearmap, true, [&](auto& o) { o.random(q.rows, q.n, q.surjective); }); break;
      case AFFINEMAP: generate(affinemap, true, [&](auto& o) { o.random(q.rows, q.n, q.surjective); }); break;
      case TSMAP: generate(tsmap, true, [&](auto& o) { o.random(q.n, q.k, q.mode); }); break;
      case TRANSVECTIONS: if (anew) sequence.clear(); check_transvections(q, sequence, pos, step_no); break;
      case TSP: {
        q.n = 2 + s % 5;
        if (anew) tsp = Tsp();
        if (real) tsp.random(q.n); else tsp.generate(q.n, glin);
        permutation_t perm;
        for (int k = 0; k < q.n; k++) perm.push_back(k);
        if (tsp.get_num_elements() != q.n) BAD("size", "%d cities instead of %d", tsp.get_num_elements(), q.n);
        double sum = 0, want = 0;
        int tours = 0;
        do {
          const double v = tsp.evaluate(perm);
          permutation_t o = perm;
          std::reverse(o.begin(), o.end());
          if (std::fabs(tsp.evaluate(o) - v) > 1e-3 * (1 + std::fabs(v))) BAD("value", "a tour has the value %g, backwards %g", v, tsp.evaluate(o));
          sum += v;
          tours++;
        } while (std::next_permutation(perm.begin(), perm.end()));
        ev("tsp", q.n, int64_t(std::llround(sum * 1e3)));
        if (real) break;
        if (int(lin.size()) != q.n * (q.n - 1) / 2) BAD("coefficients", "%zu distances were generated", lin.size());
        double size = 0;
        for (double v : lin) { want += v; size += std::fabs(v); }
        want *= 2.0 / (q.n - 1);
        if (std::fabs(std::fabs(sum / tours) - std::fabs(want)) > 1e-4 * (1 + size)) BAD("coefficients", "the mean length is %g, from the distances generated %g", sum / tours, want);
        break; }
      }
    }
    nontrivial();
    const std::vector<double>*L = klin ? &lin : nullptr, *Q = kquad ? &quad : nullptr;
    Gauss* G = !app && real ? &gauss : nullptr;
    switch (kind) {
    case LINEAR: check_function(q, linear, L, Q, G, share, step_no); break;
    case NK: check_function(q, nk, L, Q, G, share, step_no); break;
    case SAT: case PLANTED: {
      bit_vector_t sol(static_cast<size_t>(q.n));
      if (!app && kind == PLANTED) { for (auto& b : sol) b = g.chance(1, 2); if (fl & 16) fresh(sat); bit_vector_t keep = sol; sat.random(sol, q.k, q.c); if (sol != keep) BAD("argument", "the planted solution was changed"); }
      if (!app) { sat.save("/sim/s"); text = vd::get("/sim/s"); }
      check_sat(q, sat, text, app || kind == SAT ? nullptr : &sol, signs, vars, share, step_no);
      break; }
    case PARTITION: check_function(q, partition, L, Q, G, share, step_no); break;
    case PRODUCTS: check_function(q, products, L, Q, G, share, step_no); break;
    case WALSH: check_function(q, walsh, L, Q, G, share, step_no); break;
    case WALSH1: check_function(q, walsh1, L, Q, G, share, step_no); break;
    case WALSH2: case LONG1: case LONG2: check_function(q, walsh2, L, Q, G, share, step_no); break;
    case ISING1: check_function(q, ising1, L, Q, G, share, step_no); break;
    case ISING2: check_function(q, ising2, L, Q, G, share, step_no); break;
    case SUDOKU: check_sudoku(q, text, sudoku.get_num_variables(), step_no); break;
    case TRANSLATION: check_map(q, translation, fair, pos, step_no); break;
    case PERMUTATION: check_map(q, permutation, fair, pos, step_no); break;
    case LINEARMAP: check_map(q, linearmap, fair, pos, step_no); break;
    case AFFINEMAP: check_map(q, affinemap, fair, pos, step_no); break;
    case TSMAP: check_map(q, tsmap, fair, pos, step_no); break;
    }
    if (fair.top() > 36 || pos.top() > 36 || signs.top() > 36 || vars.top() > 36 || gauss.top() > 36 || share.top() > 36) BAD("frequencies", "what was drawn is e^%g times more likely if it is not uniform", std::max({fair.top(), pos.top(), signs.top(), vars.top(), gauss.top(), share.top()}));
  }
  cover(sig);
}
Register R29({"H29", false, false, gen29, exec29});
} // namespace
