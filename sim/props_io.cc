// Saving and loading of instances and maps on a disk that fails.
#include "stack.hh"
#include "vdisk.hh"
#include "zoo.hh"
#include <cmath>
#include <cstring>
#include <functional>
#include <memory>
#include <set>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
using namespace sim;
using namespace hnco;
using namespace hnco::function;
using namespace hnco::map;
using hnco::random::Generator;

namespace {

bit_vector_t rnd(Rng& g, int n) { bit_vector_t x(static_cast<size_t>(n)); for (auto& b : x) b = g.chance(1, 2); return x; }
std::string hex(double v) { char b[64]; snprintf(b, sizeof b, "%a ", v); return b; }

std::vector<bit_vector_t> probes(int n) {
  std::vector<bit_vector_t> v;
  v.push_back(bit_vector_t(size_t(n), 0));
  v.push_back(bit_vector_t(size_t(n), 1));
  for (int i = 0; i < n && i < 40; i++) { bit_vector_t x(size_t(n), 0); x[size_t(i * (n > 40 ? n / 40 : 1))] = 1; v.push_back(x); }
  Rng g(99);
  for (int i = 0; i < 12; i++) v.push_back(rnd(g, n));
  return v;
}
std::string observe_function(Function& f, bool display = true) {
  std::ostringstream o;
  int n = f.get_bv_size();
  o << "bv_size " << n << "\n";
  if (display) f.display(o);
  o << "\nvalues ";
  Generator::set_seed(7);
  for (auto& x : probes(n)) o << hex(f.evaluate(x));
  if (n > 0 && f.provides_incremental_evaluation()) {
    o << "\nincremental ";
    Rng g(17);
    for (int k = 0; k < 8; k++) {
      bit_vector_t x = rnd(g, n);
      sparse_bit_vector_t s;
      for (int i = 0; i < n; i++) if (g.chance(1, 3)) s.push_back(i);
      o << hex(f.evaluate_incrementally(x, 0, s));
    }
  }
  return o.str();
}
std::string observe_map(Map& m) {
  std::ostringstream o;
  int n = m.get_input_size(), k = m.get_output_size();
  o << "sizes " << n << " " << k << "\n";
  m.display(o);
  o << "\nimages ";
  for (auto& x : probes(n)) {
    bit_vector_t y(static_cast<size_t>(k));
    m.map(x, y);
    for (auto b : y) o << int(b);
    o << " ";
  }
  return o.str();
}

// ---------------------------------------------------------------- objects that can be saved
struct Obj {
  virtual ~Obj() {}
  virtual void make(int n, uint64_t seed) = 0;
  virtual void save(const std::string&) const = 0;
  virtual void load(const std::string&) = 0;
  virtual std::string observe() = 0;
};
template<class F> struct FnObj: Obj {
  F f;
  std::function<void(F&, int, Rng&)> gen;
  explicit FnObj(std::function<void(F&, int, Rng&)> g): gen(g) {}
  void make(int n, uint64_t s) override { Generator::set_seed(unsigned(s)); Rng g(s); gen(f, n, g); }
  void save(const std::string& p) const override { f.save(p); }
  void load(const std::string& p) override { f.load(p); }
  std::string observe() override { return observe_function(f); }
};
template<class M> struct MapObj: Obj {
  M m;
  std::function<void(M&, int, Rng&)> gen;
  explicit MapObj(std::function<void(M&, int, Rng&)> g): gen(g) {}
  void make(int n, uint64_t s) override { Generator::set_seed(unsigned(s)); Rng g(s); gen(m, n, g); }
  void save(const std::string& p) const override { m.save(p); }
  void load(const std::string& p) override { m.load(p); }
  std::string observe() override { return observe_map(m); }
};
struct SudokuObj: Obj {
  Sudoku f;
  // A generated sudoku can be displayed and saved; evaluation needs a loaded one.
  bool loaded = false;
  void make(int n, uint64_t s) override { Generator::set_seed(unsigned(s)); f.random(1 + n % 80); loaded = false; }
  void save(const std::string& p) const override { f.save(p); }
  void load(const std::string& p) override { f.load(p); loaded = true; }
  std::string observe() override {
    std::ostringstream o;
    f.display(o);
    std::string s = o.str();
    int dots = 0;
    for (char c : s) dots += c == '.';
    if (loaded) {
      if (f.get_num_variables() != dots) o << "number of variables " << f.get_num_variables();
      // the value is that of the board: compare with a count of our own
      Rng g(4);
      for (int k = 0; k < 3; k++) {
        std::vector<size_t> x(static_cast<size_t>(dots));
        for (auto& v : x) v = size_t(g.range(0, 8));
        std::vector<std::vector<int>> b;
        std::istringstream is(s);
        std::string l;
        size_t at = 0;
        while (std::getline(is, l)) {
          if (l[0] == '-') continue;
          std::vector<int> row;
          for (char c : l) if (c != '|') row.push_back(c == '.' ? int(x[at++]) + 1 : c - '0');
          b.push_back(row);
        }
        int bad = 0;
        for (int d = 1; d < 10; d++)
          for (int u = 0; u < 9; u++) {
            int r = 0, c = 0, q = 0;
            for (int w = 0; w < 9; w++) {
              r += b[size_t(u)][size_t(w)] == d;
              c += b[size_t(w)][size_t(u)] == d;
              q += b[size_t(u / 3 * 3 + w / 3)][size_t(u % 3 * 3 + w % 3)] == d;
            }
            bad += abs(r - 1) + abs(c - 1) + abs(q - 1);
          }
        double v = f.evaluate(x);
        if (v != -bad) o << "value " << v << " instead of " << -bad << "\n";
      }
    }
    return o.str();
  }
};

struct Type { const char* name; std::function<std::unique_ptr<Obj>()> make; };
template<class F> Type fn(const char* name, std::function<void(F&, int, Rng&)> g) { return {name, [g]() { return std::unique_ptr<Obj>(new FnObj<F>(g)); }}; }
template<class M> Type mp(const char* name, std::function<void(M&, int, Rng&)> g) { return {name, [g]() { return std::unique_ptr<Obj>(new MapObj<M>(g)); }}; }

double nrm() { return Generator::normal(); }
double uni() { return Generator::uniform(); }
// there is no generator for these: an instance is written and read
void nae(MaxNae3Sat& f, int n, int c, Rng& g) {
  std::string t = "c instance\np cnf " + std::to_string(n) + " " + std::to_string(c) + "\n";
  for (int i = 0; i < c; i++) {
    std::set<int64_t> v;
    while (v.size() < 3) v.insert(g.range(1, n));
    for (auto x : v) t += std::to_string(g.chance(1, 2) ? x : -x) + " ";
    t += "0\n";
  }
  vd::put("/sim/nae.cnf", t);
  f.load("/sim/nae.cnf");
  vd::remove("/sim/nae.cnf");
}

const std::vector<Type>& types() {
  static const std::vector<Type> t = {
    fn<LinearFunction>("LinearFunction", [](LinearFunction& f, int n, Rng&) { f.generate(n, nrm); }),
    fn<NkLandscape>("NkLandscape", [](NkLandscape& f, int n, Rng& g) { f.generate(n, int(std::min<int64_t>(n - 1, g.range(1, 4))), nrm); }),
    fn<WalshExpansion>("WalshExpansion", [](WalshExpansion& f, int n, Rng& g) { f.generate(n, int(g.range(1, 40)), nrm); }),
    fn<WalshExpansion1>("WalshExpansion1", [](WalshExpansion1& f, int n, Rng&) { f.generate(n, nrm); }),
    fn<WalshExpansion2>("WalshExpansion2", [](WalshExpansion2& f, int n, Rng&) { f.generate(n, nrm, nrm); }),
    fn<EqualProducts>("EqualProducts", [](EqualProducts& f, int n, Rng&) { f.generate(n, uni); }),
    fn<Partition>("Partition", [](Partition& f, int n, Rng& g) { f.random(n, int(g.range(1, 100000))); }),
    fn<NearestNeighborIsingModel1>("NearestNeighborIsingModel1", [](NearestNeighborIsingModel1& f, int n, Rng& g) {
      f.generate(n, nrm, nrm); f.set_periodic_boundary_conditions(g.chance(1, 2)); }),
    fn<NearestNeighborIsingModel2>("NearestNeighborIsingModel2", [](NearestNeighborIsingModel2& f, int n, Rng& g) {
      int r = int(g.range(1, 6)); f.generate(r, std::max(1, n / r), nrm, nrm); f.set_periodic_boundary_conditions(g.chance(1, 2)); }),
    fn<MaxSat>("MaxSat", [](MaxSat& f, int n, Rng& g) { f.random(n, int(g.range(1, std::min(n, 5))), int(g.range(1, n * 4))); }),
    fn<MaxNae3Sat>("MaxNae3Sat", [](MaxNae3Sat& f, int n, Rng& g) { nae(f, std::max(3, n), int(g.range(1, n * 4)), g); }),
    {"Sudoku", []() { return std::unique_ptr<Obj>(new SudokuObj); }},
    mp<Translation>("Translation", [](Translation& m, int n, Rng&) { m.random(n); }),
    mp<Permutation>("Permutation", [](Permutation& m, int n, Rng&) { m.random(n); }),
    mp<LinearMap>("LinearMap", [](LinearMap& m, int n, Rng& g) { m.random(std::min(n, 60), int(g.range(1, std::min(n, 60))), false); }),
    mp<AffineMap>("AffineMap", [](AffineMap& m, int n, Rng& g) { m.random(std::min(n, 60), int(g.range(1, std::min(n, 60))), false); }),
    mp<TsAffineMap>("TsAffineMap", [](TsAffineMap& m, int n, Rng& g) { n = std::max(3, n); m.random(n, int(g.range(0, n / 2)), int(g.range(0, 5))); }),
  };
  return t;
}

// ---------------------------------------------------------------- H11 what was saved can be loaded again
// A history of saves and loads of several objects in several files; the faults of an operation are those that follow
// it in the plan.
Plan gen11(Rng& r, int, bool t) {
  Plan p;
  p.set("type", r.range(0, 16));
  p.set("big", r.chance(1, 4));
  auto& l = p.mut("L5.ops");     // (kind, slot, file, seed, fault)
  for (int64_t i = r.small(2, t ? 40 : 14); i > 0; i--) {
    l.push_back(r.range(0, 9));
    l.push_back(r.range(0, 2));
    l.push_back(r.range(0, 2));
    l.push_back(r.range(0, 1 << 28));
    l.push_back(r.chance(1, 2) ? -1 : r.range(0, 1 << 24));
  }
  return p;
}
void exec11(const Plan& p) {
  const Type& T = types()[size_t(p.get("type", 0, 0, int64_t(types().size()) - 1))];
  bool big = p.get("big", 0, 0, 1);
  count(T.name);
  std::string tag = T.name;
  vd::reset();
  struct File { bool known = false; std::string obs; };
  File files[3];
  std::unique_ptr<Obj> slot[3];
  std::string expect[3];
  uint64_t sig = hash_str(T.name);
  auto name = [](int64_t k) { return "/sim/instance" + std::to_string(k); };
  auto fresh = [&](int64_t s, int64_t seed) {
    slot[s] = T.make();
    int n = big ? 20 + int(seed % 90) : 1 + int(seed % 24);
    if (n < 2) n = 2;
    slot[s]->make(n, uint64_t(seed));
    expect[s] = slot[s]->observe();
  };
  auto& ops = p.list("L5.ops");
  for (size_t k = 0; k + 4 < ops.size(); k += 5) {
    step();
    int64_t kind = ops[k] % 10, s = ops[k + 1] % 3, f = ops[k + 2] % 3, seed = ops[k + 3], fl = ops[k + 4];
    vd::clear_faults();
    auto faults = [&](bool writing) {
      if (fl < 0) return;
      Rng g{uint64_t(fl)};
      if (writing) {
        switch (g.range(0, 5)) {
        case 0: vd::set_capacity(vd::bytes() + g.range(0, 1) * g.small(0, 30000)); break;
        case 1: vd::add_fault(vd::OPEN, 0, g.pick(std::vector<int>{vd::F_EACCES, vd::F_EMFILE, vd::F_ENOSPC, vd::F_EISDIR})); break;
        case 2: vd::add_fault(vd::CLOSE, 0, g.chance(1, 2) ? vd::F_EIO : vd::F_ENOSPC); break;
        case 3: vd::add_fault(vd::WRITE, g.small(0, 12), vd::F_SHORT); vd::add_fault(vd::WRITE, g.small(0, 12), vd::F_EINTR); break;
        default: vd::add_fault(vd::WRITE, g.small(0, 12), g.pick(std::vector<int>{vd::F_EIO, vd::F_ENOSPC, vd::F_CRASH, vd::F_SHORT}));
        }
      } else {
        vd::set_chunk(g.chance(1, 2) ? g.small(1, 4000) : 0);
        vd::add_fault(vd::READ, g.small(0, 12), g.pick(std::vector<int>{vd::F_SHORT, vd::F_EINTR}));
        if (g.chance(1, 3)) vd::add_fault(vd::READ, g.small(0, 12), vd::F_EIO);
      }
    };
    if (kind <= 1) { fresh(s, seed); sig = mix(sig, uint64_t(seed)); continue; }
    if (kind <= 5) {                               // save, in a process of its own: it may crash
      if (!slot[s]) fresh(s, seed);
      faults(true);
      files[f].known = false;
      Obj* o = slot[s].get();
      std::string path = name(f);
      Sub r = run_sub([&]() {
        try { o->save(path); } catch (std::exception& e) { std::cerr << "thrown: " << e.what(); _exit(1); }
        _exit(0);
      }, "", true, 10);
      bool hard = vd::fired_hard() > 0;
      vd::clear_faults();
      if (r.exited() && r.code() == 77) { count("crashed saves"); ev("save-crash"); sig = mix(sig, 77); continue; }
      if (!r.exited()) violate("save-dies:" + tag, "saving ended the process by signal %d: %s", r.sig(), r.err.c_str());
      if (r.code() != 0) {
        if (!hard) violate("save-refused:" + tag, "saving failed without any fault: %s", r.err.c_str());
        count("saves that reported an error");
        ev("save-error");
        sig = mix(sig, 1);
        nontrivial();
        continue;
      }
      ev("saved", f, int64_t(vd::get(path).size()));
      nontrivial();
      // A save that returned: the file is complete now.
      std::unique_ptr<Obj> b = T.make();
      try { b->load(path); }
      catch (std::exception& e) { violate("saved-unreadable:" + tag, "%s, saved without error%s, cannot be loaded: %s", T.name, hard ? " although the disk failed" : "", e.what()); }
      files[f].known = true;
      files[f].obs = expect[s];
      std::string got = b->observe();
      if (got != expect[s]) violate("saved-differs:" + tag, "%s, saved without error%s, is another instance when loaded: %.300s instead of %.300s", T.name, hard ? " although the disk failed" : "", got.c_str(), expect[s].c_str());
      if (slot[s]->observe() != expect[s]) violate("save-changes:" + tag, "saving changed the object");
      sig = mix(sig, 2);
      continue;
    }
    if (kind <= 8) {                               // load into a new object or one that held another instance
      if (!files[f].known) continue;
      if (!slot[s] || seed % 2) slot[s] = T.make();
      else count("loads into a used object");
      faults(false);
      bool ok = true;
      std::string why;
      try { slot[s]->load(name(f)); } catch (std::exception& e) { ok = false; why = e.what(); }
      bool hard = vd::fired_hard() > 0;
      vd::clear_faults();
      if (!ok) {
        if (!hard) violate("load-refused:" + tag, "loading a saved instance failed without any fault: %s", why.c_str());
        count("loads that reported an error");
        slot[s].reset();
        sig = mix(sig, 3);
        continue;
      }
      nontrivial();
      std::string got = slot[s]->observe();
      if (got != files[f].obs) violate("loaded-differs:" + tag, "the loaded instance differs from the saved one%s: %.300s instead of %.300s", hard ? " (a read failed)" : "", got.c_str(), files[f].obs.c_str());
      expect[s] = files[f].obs;
      ev("loaded", f);
      sig = mix(sig, 4);
      continue;
    }
    // the process ends: only the disk survives
    for (auto& o : slot) o.reset();
    count("fault:process-restart");
    ev("restart");
    sig = mix(sig, 5);
  }
  cover(sig);
}
Register r11({"H11", false, false, gen11, exec11});

// ---------------------------------------------------------------- H12 loading
// Instances written by the harness from a model of its own, in every layout the formats allow.
struct Text { std::string content; std::function<std::string(Function&)> judge; };   // judge: "" or what is wrong

Text text_maxsat(Rng& g, bool nae) {
  int n = int(g.range(nae ? 3 : 1, 12)), m = int(g.range(1, 20));
  std::vector<std::vector<int>> cl;
  for (int i = 0; i < m; i++) {
    std::vector<int> c;
    int len = nae ? 3 : int(g.range(1, 4));
    for (int k = 0; k < len; k++) { int v = int(g.range(1, n)); c.push_back(g.chance(1, 2) ? v : -v); }
    cl.push_back(c);
  }
  std::ostringstream o;
  bool wide = g.chance(1, 3), notes = g.chance(1, 2);
  if (notes) o << "c an instance\nc\n";
  o << "p cnf " << n << (wide ? "   " : " ") << m << "\n";
  for (int i = 0; i < m; i++) {
    if (notes && g.chance(1, 5)) o << "c comment 1 2 0\n";
    if (notes && g.chance(1, 5)) o << "\n";
    if (wide && g.chance(1, 3)) o << "  ";
    for (int v : cl[size_t(i)]) o << v << (wide ? (g.chance(1, 2) ? "\t" : "  ") : " ");
    o << "0";
    if (wide && g.chance(1, 4)) o << " ";
    if (i + 1 < m || g.chance(2, 3)) o << "\n";
  }
  return {o.str(), [=](Function& f) -> std::string {
    if (f.get_bv_size() != n) return "wrong number of variables " + std::to_string(f.get_bv_size());
    for (auto& x : probes(n)) {
      double v = 0;
      for (auto& c : cl) {
        int t = 0;
        for (int l : c) t += (l > 0) == bool(x[size_t(std::abs(l) - 1)]);
        v += nae ? t != 0 && t != 3 : t > 0;
      }
      double w = f.evaluate(x);
      if (w != v) return "value " + std::to_string(w) + " where " + std::to_string(v) + " clauses are satisfied";
    }
    return "";
  }};
}
Text text_qubo(Rng& g) {
  int n = int(g.range(1, 12));
  std::vector<std::vector<double>> q(static_cast<size_t>(n), std::vector<double>(static_cast<size_t>(n)));
  std::ostringstream body;
  int nd = 0, no = 0;
  bool notes = g.chance(1, 2);
  for (int i = 0; i < n; i++)
    for (int j = i; j < n; j++)
      if (g.chance(1, i == j ? 2 : 3)) {
        double v = double(g.range(1, 40)) * (g.chance(1, 2) ? 1 : -1) / (g.chance(1, 3) ? 4 : 1);
        q[size_t(i)][size_t(j)] = v;
        (i == j ? nd : no)++;
        if (notes && g.chance(1, 6)) body << "c comment\n";
        if (notes && g.chance(1, 6)) body << "\n";
        body << i << (notes ? "  " : " ") << j << " " << v << "\n";
      }
  std::ostringstream o;
  if (notes) o << "c instance\n";
  o << "p qubo 0 " << n << " " << nd << " " << no << "\n" << body.str();
  return {o.str(), [=](Function& f) -> std::string {
    if (f.get_bv_size() != n) return "wrong dimension " + std::to_string(f.get_bv_size());
    for (auto& x : probes(n)) {
      double v = 0;
      for (int i = 0; i < n; i++) for (int j = i; j < n; j++) if (x[size_t(i)] && x[size_t(j)]) v -= q[size_t(i)][size_t(j)];
      double w = f.evaluate(x);
      if (w != v) return "value " + std::to_string(w) + " instead of " + std::to_string(v);
    }
    return "";
  }};
}
struct TspText { std::string content; int m; std::vector<std::vector<double>> d; };
TspText text_tsp(Rng& g) {
  TspText t;
  t.m = int(g.range(2, 9));
  bool att = g.chance(1, 2), spaced = g.chance(1, 2);
  std::vector<float> x, y;
  std::ostringstream o;
  std::string c = spaced ? " : " : ": ";
  o << "NAME" << c << "sim\n";
  if (g.chance(1, 2)) o << "COMMENT" << c << "an instance: small\n";
  o << "TYPE" << c << "TSP\nDIMENSION" << c << t.m << "\n";
  if (g.chance(1, 4)) o << "\n";
  o << "EDGE_WEIGHT_TYPE" << c << (att ? "ATT" : "EUC_2D") << "\nNODE_COORD_SECTION\n";
  std::vector<int> order;
  // Coordinates for which distances rounded in single and in double precision are equal.
  bool frac = g.chance(1, 2);
  for (int k = 0; k < t.m; k++) {
    x.push_back(frac ? float(g.range(0, 400)) / 4 : float(g.range(0, 1000)));
    y.push_back(frac ? float(g.range(0, 400)) / 4 : float(g.range(0, 1000)));
    order.push_back(k);
  }
  if (g.chance(1, 4)) std::swap(order[0], order[size_t(t.m - 1)]);
  for (int k : order) o << (spaced ? "  " : "") << k + 1 << " " << x[size_t(k)] << " " << y[size_t(k)] << "\n";
  if (g.chance(2, 3)) o << "EOF\n";
  t.content = o.str();
  t.d.assign(size_t(t.m), std::vector<double>(size_t(t.m)));
  for (size_t i = 0; i < x.size(); i++)
    for (size_t j = 0; j < x.size(); j++) {
      if (i == j) continue;
      double dx = x[i] - x[j], dy = y[i] - y[j], r = std::sqrt((dx * dx + dy * dy) / (att ? 10.0 : 1.0));
      double k = std::floor(r + 0.5);
      t.d[i][j] = att && k < r ? k + 1 : k;
    }
  return t;
}

// What a text file says, read independently and strictly: 0 the format does not tell, 1 malformed: must be refused, 2 this instance.
struct Reading { int what; std::string why; std::function<std::string(Function&)> judge; };
bool is_int(const std::string& t, long& v) {
  size_t i = t.size() && t[0] == '-' ? 1 : 0;
  if (i == t.size() || t.size() - i > 9) return false;
  for (size_t k = i; k < t.size(); k++) if (!isdigit((unsigned char)t[k])) return false;
  v = atol(t.c_str());
  return true;
}
bool clean(const std::string& s) {
  for (unsigned char c : s) if (c != '\n' && c != '\t' && (c < 32 || c > 126)) return false;
  return true;
}
std::vector<std::string> tokens(const std::string& l) { std::istringstream is(l); std::vector<std::string> v; std::string t; while (is >> t) v.push_back(t); return v; }
Reading read_maxsat(const std::string& s, bool nae) {
  if (!clean(s)) return {0, "", nullptr};
  std::istringstream is(s);
  std::string line;
  bool spec = false, unsure = false;
  long n = 0, m = 0;
  std::vector<std::vector<int>> cl;
  auto bad = [](const char* w) { return Reading{1, w, nullptr}; };
  while (std::getline(is, line)) {
    if (line.empty() || line[0] == 'c') continue;
    auto t = tokens(line);
    if (t.empty()) { unsure = true; continue; }
    if (line[0] == 'p') {
      if (spec) return bad("two p lines");
      if (t.size() < 4 || t[0] != "p" || t[1] != "cnf") return bad("bad p line");
      if (t.size() > 4) unsure = true;
      if (!is_int(t[2], n) || !is_int(t[3], m)) { if (isalpha((unsigned char)t[2][0]) || isalpha((unsigned char)t[3][0])) return bad("no number in the p line"); return {0, "", nullptr}; }
      if (n <= 0 || m <= 0) return bad("bad size in the p line");
      spec = true;
      continue;
    }
    if (!spec) return bad("a clause before the p line");
    std::vector<int> c;
    bool ended = false;
    for (auto& w : t) {
      long v;
      if (ended) { unsure = true; break; }
      if (w[0] == '+' || (w[0] == '0' && w.size() > 1)) return {0, "", nullptr};
      if (!is_int(w, v)) return bad("a literal which is no number");
      if (v == 0) { ended = true; continue; }
      if (std::labs(v) > n) return bad("a variable out of range");
      c.push_back(int(v));
    }
    if (!ended) return bad("a clause without end");
    cl.push_back(c);
  }
  if (!spec) return bad("no p line");
  if (unsure) return {0, "", nullptr};
  if (long(cl.size()) != m) return bad("another number of clauses than the p line says");
  if (nae) for (auto& c : cl) if (c.size() != 3) return {0, "", nullptr};
  if (n > 100000) return {0, "", nullptr};
  return {2, "", [=](Function& f) -> std::string {
    if (f.get_bv_size() != n) return "wrong number of variables " + std::to_string(f.get_bv_size());
    for (auto& x : probes(int(n))) {
      double v = 0;
      for (auto& c : cl) {
        int t = 0;
        for (int l : c) t += (l > 0) == bool(x[size_t(std::abs(l) - 1)]);
        v += nae ? t != 0 && t != 3 : t > 0;
      }
      if (f.evaluate(x) != v) return "another value than the clauses satisfied";
    }
    return "";
  }};
}
Reading read_qubo(const std::string& s) {
  if (!clean(s)) return {0, "", nullptr};
  std::istringstream is(s);
  std::string line;
  bool spec = false, unsure = false;
  long z = 0, n = 0, nd = 0, no = 0, cd = 0, co = 0;
  std::map<std::pair<long, long>, float> q;
  auto bad = [](const char* w) { return Reading{1, w, nullptr}; };
  while (std::getline(is, line)) {
    if (line.empty() || line[0] == 'c') continue;
    auto t = tokens(line);
    if (t.empty()) { unsure = true; continue; }
    if (line[0] == 'p') {
      if (spec) return bad("two p lines");
      if (t.size() < 6 || t[0] != "p" || t[1] != "qubo") return bad("bad p line");
      if (t.size() > 6) unsure = true;
      if (!is_int(t[2], z) || !is_int(t[3], n) || !is_int(t[4], nd) || !is_int(t[5], no)) {
        for (int k = 2; k < 6; k++) if (isalpha((unsigned char)t[size_t(k)][0])) return bad("no number in the p line");
        return {0, "", nullptr};
      }
      if (z != 0 || n <= 0 || nd < 0 || no < 0) return bad("bad size in the p line");
      spec = true;
      continue;
    }
    if (!spec) return bad("an element before the p line");
    long i, j;
    if (t.size() < 3) return bad("an incomplete element");
    if (t.size() > 3) unsure = true;
    if (!is_int(t[0], i) || !is_int(t[1], j)) { if (isalpha((unsigned char)t[0][0]) || isalpha((unsigned char)t[1][0])) return bad("no index"); return {0, "", nullptr}; }
    if (i < 0 || j < 0 || i >= n || j >= n) return bad("an index out of range");
    if (i > j) return bad("an element below the diagonal");
    char* e = nullptr;
    float v = strtof(t[2].c_str(), &e);
    if (isalpha((unsigned char)t[2][0])) { if (t[2] == "nan" || t[2][0] == 'i' || t[2][0] == 'n') unsure = true; else return bad("no value"); }
    else if (*e || !std::isfinite(v) || v == 0 || strpbrk(t[2].c_str(), "xXpP")) unsure = true;
    if (q.count({i, j})) unsure = true;
    q[{i, j}] = v;
    (i == j ? cd : co)++;
  }
  if (!spec) return bad("no p line");
  if (unsure) return {0, "", nullptr};
  if (cd != nd || co != no) return bad("another number of elements than the p line says");
  if (n > 100) return {0, "", nullptr};
  return {2, "", [=](Function& f) -> std::string {
    if (f.get_bv_size() != n) return "wrong dimension " + std::to_string(f.get_bv_size());
    for (auto& x : probes(int(n))) {
      double v = 0, a = 0;
      for (auto& e : q) if (x[size_t(e.first.first)] && x[size_t(e.first.second)]) { v -= double(e.second); a += std::abs(double(e.second)); }
      if (std::abs(f.evaluate(x) - v) > 1e-9 * a) return "value " + std::to_string(f.evaluate(x)) + " instead of " + std::to_string(v);
    }
    return "";
  }};
}
// Tsp: judged on the object itself.
struct TspReading { int what; std::string why; size_t m; std::vector<std::vector<double>> d; };
TspReading read_tsp(const std::string& s) {
  auto bad = [](const char* w) { return TspReading{1, w, 0, {}}; };
  TspReading unsure{0, "", 0, {}};
  if (!clean(s)) return unsure;
  std::istringstream is(s);
  std::string line, type, dim, ew;
  bool section = false;
  while (std::getline(is, line)) {
    if (line.empty()) continue;
    auto c = line.find(':');
    auto k = tokens(line.substr(0, c)), v = tokens(c == std::string::npos ? "" : line.substr(c + 1));
    if (k.size() != 1) return unsure;
    if (k[0] == "NODE_COORD_SECTION") { section = true; break; }
    if (k[0] == "NAME" || k[0] == "COMMENT") continue;
    std::string* w = k[0] == "TYPE" ? &type : k[0] == "DIMENSION" ? &dim : k[0] == "EDGE_WEIGHT_TYPE" ? &ew : nullptr;
    if (!w || !w->empty() || v.size() != 1 || c == std::string::npos) return unsure;
    *w = v[0];
    if (w == &type && *w != "TSP") return bad("no TSP instance");
    if (w == &ew && *w != "ATT" && *w != "EUC_2D") return bad("unknown edge weights");
  }
  if (!section) return bad("no coordinates");
  long m;
  if (dim.empty() || type.empty() || ew.empty() || !is_int(dim, m)) { if (!dim.empty() && isalpha((unsigned char)dim[0])) return bad("no dimension"); return unsure; }
  if (m <= 0) return bad("bad dimension");
  if (m > 100) return unsure;
  std::map<long, std::pair<float, float>> at;
  while (std::getline(is, line)) {
    auto t = tokens(line);
    if (t.empty()) continue;
    if (t[0] == "EOF") { if (t.size() > 1 || std::getline(is, line)) return unsure; break; }
    long k;
    if (t.size() > 3) return unsure;
    if (!is_int(t[0], k)) return unsure;
    if (k < 1 || k > m) return bad("city out of range");
    float v[2];
    for (size_t i = 0; i < 2; i++) {
      if (i + 1 >= t.size()) return unsure;      // the next line goes on
      char* e = nullptr;
      v[i] = strtof(t[i + 1].c_str(), &e);
      if (isalpha((unsigned char)t[i + 1][0]) && t[i + 1][0] != 'n' && t[i + 1][0] != 'i') return bad("no coordinate");
      if (*e || !std::isfinite(v[i]) || std::abs(v[i]) > 5000 || strpbrk(t[i + 1].c_str(), "xXpPniNI")) return unsure;
    }
    if (at.count(k)) return unsure;
    at[k] = {v[0], v[1]};
  }
  if (long(at.size()) != m) return bad("missing city");
  TspReading r{2, "", size_t(m), {}};
  r.d.assign(size_t(m), std::vector<double>(size_t(m)));
  for (long i = 1; i <= m; i++)
    for (long j = 1; j <= m; j++) {
      if (i == j) continue;
      double dx = at[i].first - at[j].first, dy = at[i].second - at[j].second, q = std::sqrt((dx * dx + dy * dy) / (ew == "ATT" ? 10.0 : 1.0));
      double k = std::floor(q + 0.5);
      r.d[size_t(i - 1)][size_t(j - 1)] = ew == "ATT" && k < q ? k + 1 : k;
    }
  return r;
}
// Sudoku: 0, 1, or 2 and the board.
std::pair<int, std::string> read_sudoku(const std::string& s) {
  if (!clean(s)) return {0, ""};
  std::istringstream is(s);
  std::string line, board;
  for (int i = 0; i < 9; i++) {
    if (!std::getline(is, line)) return {1, "fewer than nine lines"};
    if (line.size() < 9) return {1, "a short line"};
    for (size_t j = 0; j < 9; j++) if (line[j] != '.' && !(line[j] >= '1' && line[j] <= '9')) return {1, "neither a digit nor a dot"};
    board += line.substr(0, 9) + "\n";
  }
  return {2, board};
}

// Outcome of a load in a process of its own: text of what was loaded, or the exception.
struct Out { int what; std::string text; };   // 0 loaded, 1 std::exception, 2 died, 3 hang, 4 other exception
__attribute__((noinline)) void dirty(int v) {
  volatile unsigned char a[40000];
  for (size_t i = 0; i < sizeof a; i++) a[i] = (unsigned char)v;
}
Out attempt(const std::function<std::string()>& f, int stack) {
  Sub r = run_sub([&]() {
    env::on = true;                    // giant allocations are refused
    std::string s;
    try { dirty(stack); s = f(); }
    catch (std::exception& e) { std::cout << e.what() << std::flush; _exit(1); }
    catch (...) { _exit(4); }
    env::on = false;
    std::cout << s << std::flush;
    _exit(0);
  }, "", true, 3);
  if (!r.exited()) return {r.sig() == SIGPROF ? 3 : 2, r.err};
  return {r.code(), r.out};
}

enum { T_OBJ = 0, T_ZOO = 1, T_MAP = 2, T_MODEL = 3, T_PARSED = 4, T_SOLUTION = 5 };
Plan gen12(Rng& r, int, bool) {
  Plan p;
  p.set("target", r.range(0, 5));
  p.set("which", r.range(0, 40));
  p.set("n", r.chance(1, 4) ? r.range(20, 90) : r.range(2, 16));
  p.set("seed", r.range(0, 1 << 30));
  p.set("chunk", r.chance(1, 2) ? r.small(1, 5000) : 0);
  int d = int(r.range(0, 3));     // 0 intact, 1 faults, 2 truncated, 3 damaged
  p.set("damage", d);
  p.set("cut", r.range(0, 100000));
  if (d == 1) {
    auto& l = p.mut("L3.io");
    for (int64_t i = r.range(1, 3); i > 0; i--) {
      int op = r.chance(1, 6) ? vd::OPEN : vd::READ;
      l.push_back(op);
      l.push_back(op == vd::OPEN ? 0 : r.small(0, 30));
      l.push_back(op == vd::OPEN ? r.pick(std::vector<int>{vd::F_EACCES, vd::F_EMFILE, vd::F_EIO, vd::F_EISDIR}) : r.pick(std::vector<int>{vd::F_EIO, vd::F_EIO, vd::F_SHORT, vd::F_EINTR, vd::F_EISDIR}));
    }
  }
  if (d == 3) {
    auto& l = p.mut("L3.dmg");
    for (int64_t i = r.range(1, 3); i > 0; i--) { l.push_back(r.range(0, 6)); l.push_back(r.range(0, 100000)); l.push_back(r.range(0, 255)); }
  }
  return p;
}
std::string damage(std::string s, const std::vector<int64_t>& l) {
  static const char* words[] = {"-1", "0", "1", "2", "7", "99999999999999999999", "2147483647", "-2147483648", "abc", "nan", "1e400", "c", "p", ".", "3.5"};
  for (size_t i = 0; i + 2 < l.size(); i += 3) {
    if (s.empty()) break;
    size_t at = size_t(l[i + 1]) % s.size();
    auto lines = [&]() { std::vector<std::string> v; std::istringstream is(s); std::string x; while (std::getline(is, x)) v.push_back(x); return v; };
    auto join = [&](const std::vector<std::string>& v) { std::string o; for (auto& x : v) o += x + "\n"; return o; };
    // token under or after the position
    size_t a = at;
    while (a > 0 && !isspace((unsigned char)s[a - 1])) a--;
    size_t b = at;
    while (b < s.size() && !isspace((unsigned char)s[b])) b++;
    switch (l[i] % 7) {
    case 0: s[at] = char(l[i + 2]); break;
    case 1: s.erase(a, b - a); break;
    case 2: case 3: s.replace(a, b - a, words[size_t(l[i + 2]) % (sizeof words / sizeof *words)]); break;
    case 4: s.insert(at, l[i + 2] % 2 ? " " : "\n \n"); break;
    case 5: { auto v = lines(); if (v.size()) { size_t q = at % v.size(); v.erase(v.begin() + long(q)); } s = join(v); break; }
    default: { auto v = lines(); if (v.size()) { size_t q = at % v.size(); v.insert(v.begin() + long(q), v[size_t(l[i + 2]) % v.size()]); } s = join(v); }
    }
  }
  return s;
}
// Start of the last datum: what is cut off from there on may go unnoticed (a shorter number is a number too).
size_t last_datum(const std::string& s) {
  size_t e = s.size();
  while (e > 0 && isspace((unsigned char)s[e - 1])) e--;
  if (e >= 3 && s.compare(e - 3, 3, "EOF") == 0) { e -= 3; while (e > 0 && isspace((unsigned char)s[e - 1])) e--; }
  while (e > 0 && !isspace((unsigned char)s[e - 1])) e--;
  return e;
}
// What a map that was loaded is not: linear up to a constant, with bits as output; invertible if it must be.
std::string not_a_map(hnco::map::Map& q, bool bijective) {
  int n = q.get_input_size(), m = q.get_output_size();
  if (n <= 0 || m <= 0 || n > 200 || m > 200) return "";
  bit_vector_t x(static_cast<size_t>(n), 0), y0(static_cast<size_t>(m)), y(static_cast<size_t>(m));
  q.map(x, y0);
  if (!bv_is_valid(y0)) return "bits which are neither 0 nor 1";
  std::vector<bit_vector_t> rows;
  for (size_t i = 0; i < x.size(); i++) {
    x[i] = 1;
    q.map(x, y);
    x[i] = 0;
    if (y.size() != size_t(m) || !bv_is_valid(y)) return "bits which are neither 0 nor 1";
    for (size_t j = 0; j < y.size(); j++) y[j] ^= y0[j];
    rows.push_back(y);
  }
  if (!bijective) return "";
  if (n != m) return "sizes which differ";
  size_t rank = 0;
  for (size_t c = 0; c < size_t(m) && rank < rows.size(); c++) {
    size_t r = rank;
    while (r < rows.size() && !rows[r][c]) r++;
    if (r == rows.size()) continue;
    std::swap(rows[r], rows[rank]);
    for (size_t k = 0; k < rows.size(); k++)
      if (k != rank && rows[k][c]) for (size_t j = 0; j < size_t(m); j++) rows[k][j] ^= rows[rank][j];
    rank++;
  }
  return rank == rows.size() ? "" : "a map that is not invertible";
}
std::string board_text;
void exec12(const Plan& p) {
  int target = int(p.get("target", 0, 0, 5)), dmg = int(p.get("damage", 0, 0, 3)), n = int(p.get("n", 4, 2, 100));
  uint64_t seed = uint64_t(p.get("seed", 0, 0, 1 << 30));
  int64_t which = p.get("which", 0, 0, 1000);
  vd::reset();
  Rng g(seed);
  const std::string path = "/sim/input";
  std::string tag;
  std::function<std::string()> load;      // loads from the disk and tells what was loaded
  bool cuttable = true;                   // a shortened file can be told from a complete one
  bool usable = false;                    // what was loaded from a damaged file must be usable: the format is validated
  auto judge = std::make_shared<std::function<std::string(Function&)>>();
  auto judge_tsp = std::make_shared<TspReading>();
  std::function<std::string(const std::string&)> reread;     // reads a damaged file: why it must be refused, or "" (and sets the judge)
  auto reader = [judge](const std::string& s, int k) -> std::string {
    Reading r = k == 2 ? read_qubo(s) : read_maxsat(s, k == 1);
    *judge = r.judge;
    if (r.what == 2) count("damaged file that is an instance");
    if (r.what == 1) count("malformed file");
    return r.what == 1 ? r.why : "";
  };
  switch (target) {
  case T_OBJ: {
    const Type& T = types()[size_t(which) % types().size()];
    tag = T.name;
    auto o = T.make();
    o->make(n, seed);
    o->save(path);
    std::string want = o->observe();
    load = [&T, path]() { auto b = T.make(); b->load(path); return b->observe(); };
    usable = which % int64_t(types().size()) >= 9;
    break;
  }
  case T_ZOO: {
    std::vector<int> v;
    for (size_t i = 0; i < ZOO.size(); i++) if (ZOO[i].file) v.push_back(int(i));
    int i = v[size_t(which) % v.size()];
    tag = ZOO[size_t(i)].name;
    auto args = zoo_args(i, n, seed, path);
    int id = ZOO[size_t(i)].id;
    load = [args, judge, id, path]() -> std::string {
      if (id == 190 && *judge) {
        Sudoku u;
        u.load(path);
        u.save("/sim/board");
        if (vd::get("/sim/board") != board_text) return "WRONG board";
      }
      Function* f = zoo_make(args);
      std::string w = *judge && id != 190 ? (*judge)(*f) : "";
      return (w.empty() ? "" : "WRONG " + w + " ") + observe_function(*f);
    };
    if (id == 50 || id == 70 || id == 71) reread = [reader, id](const std::string& s) { return reader(s, id == 50 ? 2 : id == 71 ? 1 : 0); };
    if (id == 190) reread = [judge](const std::string& s) -> std::string {
      auto r = read_sudoku(s);
      if (r.first == 1) { count("malformed file"); return r.second; }
      if (r.first == 2) { board_text = r.second; *judge = [](Function&) -> std::string { return ""; }; }
      return "";
    };
    if (id == 200) reread = [](const std::string& s) { auto r = read_tsp(s); return r.what == 1 ? r.why : std::string(); };
    if (id == 150) cuttable = false;
    usable = id == 50 || id == 70 || id == 71 || id == 190 || id == 200;
    break;
  }
  case T_MAP: {
    int m = 1 + int(which % 6);
    Generator::set_seed(unsigned(seed));
    n = std::min(n, 40);
    n = std::max(n, 3);
    switch (m) {
    case 1: { Translation t; t.random(n); t.save(path); break; }
    case 2: { Permutation t; t.random(n); t.save(path); break; }
    case 3: { std::ostringstream o; { boost::archive::text_oarchive a(o); Permutation q; q.random(n); Translation t; t.random(n); const Permutation& cq = q; const Translation& ct = t; a << cq << ct; } vd::put(path, o.str()); break; }
    case 4: { LinearMap t; t.random(n, n + int(seed % 3), false); t.save(path); break; }
    case 5: { AffineMap t; t.random(n, n + int(seed % 3), false); t.save(path); break; }
    default: { TsAffineMap t; t.random(n, int(seed % uint64_t(n / 2 + 1)), int(seed % 6)); t.save(path); }
    }
    tag = "map" + std::to_string(m);
    std::vector<std::string> args = {"--function=5", "--bv-size=" + std::to_string(n), "--map=" + std::to_string(m), "--map-path=" + path};
    load = [args, m, path]() -> std::string {
      std::unique_ptr<hnco::map::Map> q;
      switch (m) {
      case 1: { auto t = new Translation; q.reset(t); t->load(path); break; }
      case 2: { auto t = new Permutation; q.reset(t); t->load(path); break; }
      case 4: { auto t = new LinearMap; q.reset(t); t->load(path); break; }
      case 5: { auto t = new AffineMap; q.reset(t); t->load(path); break; }
      case 6: { auto t = new TsAffineMap; q.reset(t); t->load(path); break; }
      }
      std::string w = q ? not_a_map(*q, m == 1 || m == 2 || m == 6) : "";
      return (w.empty() ? "" : "WRONG " + w + " ") + observe_function(*zoo_make(args));
    };
    usable = true;
    break;
  }
  case T_MODEL: {
    if (which % 4 == 3) {
      TspText t = text_tsp(g);
      tag = "text Tsp";
      vd::put(path, t.content);
      judge_tsp->what = 2;
      judge_tsp->m = size_t(t.m);
      judge_tsp->d = t.d;
      reread = [judge_tsp](const std::string& s) { *judge_tsp = read_tsp(s); if (judge_tsp->what == 1) count("malformed file"); return judge_tsp->what == 1 ? judge_tsp->why : std::string(); };
      bool exact = dmg != 3;
      load = [judge_tsp, exact, path]() {
        const TspReading& t = *judge_tsp;
        Tsp f;
        f.load(path);
        std::ostringstream o;
        o << "cities " << f.get_num_elements() << " ";
        if (f.get_num_elements() > 4000) return o.str();
        Rng g(5);
        permutation_t q(static_cast<size_t>(f.get_num_elements()));
        for (size_t i = 0; i < q.size(); i++) q[i] = int(i);
        for (int k = 0; k < 6 && !q.empty(); k++) {
          for (size_t i = q.size(); i > 1; i--) std::swap(q[i - 1], q[size_t(g.range(0, int64_t(i) - 1))]);
          double v = f.evaluate(q), w = 0;
          if (t.what != 2) {}
          else if (q.size() == t.m) {
            for (size_t i = 0; i < q.size(); i++) w += t.d[size_t(q[i])][size_t(q[(i + 1) % q.size()])];
            if (std::abs(v + w) > (exact ? 0 : double(t.m) + 0.5)) o << "WRONG tour length ";
          } else o << "WRONG number of cities ";
          o << hex(v);
        }
        return o.str();
      };
    } else {
      int k = int(which % 4);
      Text t = k == 2 ? text_qubo(g) : text_maxsat(g, k == 1);
      tag = k == 0 ? "text MaxSat" : k == 1 ? "text MaxNae3Sat" : "text Qubo";
      vd::put(path, t.content);
      std::vector<std::string> args = {k == 0 ? "--function=70" : k == 1 ? "--function=71" : "--function=50", "--path=" + path};
      *judge = t.judge;
      reread = [reader, k](const std::string& s) { return reader(s, k); };
      load = [judge, args]() { Function* f = zoo_make(args); std::string w = *judge ? (*judge)(*f) : ""; return (w.empty() ? "" : "WRONG " + w + " ") + observe_function(*f); };
    }
    usable = true;
    break;
  }
  case T_PARSED: {
    bool reps = which % 2;
    tag = reps ? "representations file" : "expression file";
    std::vector<std::string> args = {"--function=500"};
    if (reps) {
      args.push_back("--fp-expression=x^2+y^2-x*y+u");
      args.push_back("--fp-representations-path=" + path);
      vd::put(path, "x: double(0, 1, size = 6); y: double(-2, 3, precision = 0.1); u: double(0, 7, size = 3)");
    } else {
      args.push_back("--path=" + path);
      args.push_back("--fp-representations=x: double(0, 1, size = 6); y: double(-2, 3, precision = 0.1)");
      std::string e = "x+y";
      for (int64_t i = g.small(0, 600); i > 0; i--) e += i % 2 ? "*x+y" : "+2.5*y";
      vd::put(path, e);
    }
    load = [args]() { return observe_function(*zoo_make(args)); };
    cuttable = false;
    break;
  }
  default: {
    tag = "bit vector";
    bit_vector_t x = rnd(g, n);
    std::ostringstream o;
    bv_display(x, o);
    vd::put(path, o.str() + "\n");
    load = [path]() {
      std::ifstream s(path);
      if (!s.good()) throw std::runtime_error("cannot open");
      bit_vector_t y = bv_from_stream(s);
      if (s.bad()) throw std::runtime_error("read error");
      if (!bv_is_valid(y)) return std::string("invalid");
      std::ostringstream o;
      bv_display(y, o);
      return o.str();
    };
    cuttable = false;
    usable = true;
    reread = [](const std::string& s) -> std::string {
      std::string l = s.substr(0, s.find('\n'));
      for (char c : l) if (c != '0' && c != '1') { count("malformed file"); return "neither 0 nor 1"; }
      return "";
    };
  }
  }
  count(tag.c_str());
  vd::clear_faults();
  vd::set_chunk(p.get("chunk", 0, 0, 10000));
  std::string whole = vd::get(path);
  Out ref = attempt(load, 0x5a);
  if (ref.what != 0) violate("intact-refused:" + tag, "an intact file is refused: %s", ref.text.c_str());
  if (ref.text.compare(0, 5, "WRONG") == 0 || ref.text.find(" WRONG") != std::string::npos)
    violate("loaded-wrong:" + tag, "%.200s from\n%.600s", ref.text.c_str(), whole.c_str());
  ev("ref", int64_t(hash_str(ref.text)));
  uint64_t sig = mix(hash_str(tag), uint64_t(dmg) * 7 + seed % 1000);
  vd::clear_faults();
  vd::set_chunk(p.get("chunk", 0, 0, 10000));
  Out got{0, ""};
  bool noticed_needed = false;
  switch (dmg) {
  case 0: got = attempt(load, 0); break;
  case 1:
    vd::configure(p);
    got = attempt(load, 0);
    noticed_needed = vd::fired_hard() > 0;
    sig = mix(sig, uint64_t(vd::fired() * 10 + vd::count(vd::READ)));
    break;
  case 2: {
    size_t lim = cuttable ? last_datum(whole) : whole.size();
    size_t c = size_t(p.get("cut", 0, 0, 1 << 30)) % (lim + 1);
    vd::put(path, whole.substr(0, c));
    count("fault:truncated-file");
    got = attempt(load, 0);
    sig = mix(sig, c);
    break;
  }
  default: {
    std::string s = damage(whole, p.list("L3.dmg"));
    vd::put(path, s);
    if (s != whole) count("fault:damaged-file");
    // Only formats whose content is validated promise anything about a damaged file.
    if (!usable) { cover(sig); return; }
    std::string why = reread ? reread(s) : "";
    got = attempt(load, 0);
    if (!why.empty() && got.what == 0) violate("malformed-accepted:" + tag, "a malformed file (%s) is accepted:\n%.500s", why.c_str(), s.c_str());
    if (got.what == 0 && got.text.find("WRONG") != std::string::npos) violate("loaded-wrong:" + tag, "%.200s from\n%.600s", got.text.c_str(), s.c_str());
    Out again = attempt(load, 0xaa);
    if (got.what < 2 && (again.what != got.what || (got.what == 0 && again.text != got.text)))
      violate("load-undetermined:" + tag, "the same file is %s or %s, depending on what the memory held before\n%.500s",
              got.what ? "refused" : "accepted", again.what ? "refused" : "accepted", s.c_str());
    sig = mix(sig, hash_str(s));
  }
  }
  nontrivial();
  cover(sig);
  ev("got", got.what, int64_t(hash_str(got.text)));
  static const char* how[] = {"intact file", "read fault", "truncated file", "damaged file"};
  std::string h = how[dmg];
  if (got.what == 3) violate("load-hangs:" + tag + ":" + h, "loading does not end");
  if (got.what == 2) violate("load-dies:" + tag + ":" + h, "loading ends the process: %.300s", got.text.c_str());
  if (got.what == 4) violate("load-throws-other:" + tag + ":" + h, "loading throws something that is not a std::exception");
  if (got.what == 1) {
    count("refused");
    if (dmg == 0 || (dmg == 1 && !noticed_needed)) violate("load-refused:" + tag + ":" + h, "refused although nothing failed: %s", got.text.c_str());
  } else {
    count("accepted");
    bool must = dmg <= 1 || (dmg == 2 && cuttable);
    if (must && got.text != ref.text)
      violate("load-differs:" + tag + ":" + h, "accepted as another instance: %.300s instead of %.300s", got.text.c_str(), ref.text.c_str());
  }
}
Register r12({"H12", false, false, gen12, exec12});

} // namespace
