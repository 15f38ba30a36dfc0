#include "zoo.hh"
#include "vdisk.hh"
#include <cmath>
#include <sstream>
using namespace hnco;
using namespace hnco::function;
using hnco::random::Generator;

namespace sim {

const std::vector<Zoo> ZOO = {
  {0, "OneMax", false}, {1, "LinearFunction", true}, {5, "BinVal", false}, {10, "LeadingOnes", false}, {11, "Ridge", false}, {20, "Needle", false},
  {30, "Jump", false}, {31, "DeceptiveJump", false}, {40, "FourPeaks", false}, {41, "SixPeaks", false}, {50, "Qubo", true}, {60, "NkLandscape", true},
  {70, "MaxSat", true}, {71, "MaxNae3Sat", true}, {80, "Labs", false}, {81, "LabsMeritFactor", false}, {90, "EqualProducts", true}, {91, "Partition", true},
  {100, "SummationCancellation", false}, {101, "SinusSummationCancellation", false}, {110, "Trap", false}, {120, "Hiff", false}, {130, "Plateau", false},
  {140, "LongPath", false}, {150, "Factorization", true}, {160, "WalshExpansion", true}, {161, "WalshExpansion1", true}, {162, "WalshExpansion2", true},
  {171, "NearestNeighborIsingModel1", true}, {172, "NearestNeighborIsingModel2", true}, {190, "Sudoku", true}, {200, "Tsp", true},
  {500, "Parsed double", false}, {501, "Parsed long", false}, {502, "Parsed complex", false}, {503, "Parsed int", false}, {504, "Parsed mixed", false},
  {510, "Parsed double, opposite absolute value", false}, {511, "Parsed long, opposite absolute value", false},
  {512, "Parsed complex, opposite squared magnitude", false}, {513, "Parsed int, opposite absolute value", false}, {514, "Parsed mixed, opposite absolute value", false},
  {520, "Parsed double, sum of objectives", false}, {521, "Parsed long, sum of objectives", false}, {523, "Parsed int, sum of objectives", false},
};

void zoo_file(int i, int n, uint64_t seed, const std::string& path) {
  Generator::set_seed(unsigned(seed));
  auto gen = []() { return Generator::normal(); };
  Rng g(seed * 7 + 3);
  std::ostringstream o;
  switch (ZOO[size_t(i)].id) {
  case 1: { LinearFunction f; f.generate(n, gen); f.save(path); return; }
  case 50: {
    int nd = 0, no = 0;
    std::ostringstream body;
    for (int k = 0; k < n; k++) if (g.chance(3, 4)) { body << k << " " << k << " " << (g.chance(1, 2) ? g.range(1, 9) : g.range(-9, -1)) << "\n"; nd++; }
    for (int k = 0; k < n; k++) for (int l = k + 1; l < n; l++) if (g.chance(1, 3)) { body << k << " " << l << " " << (g.chance(1, 2) ? g.range(1, 9) : g.range(-9, -1)) << "\n"; no++; }
    o << "c instance\np qubo 0 " << n << " " << nd << " " << no << "\n" << body.str();
    vd::put(path, o.str());
    return;
  }
  case 60: { NkLandscape f; f.generate(n, std::min(3, n - 1), gen); f.save(path); return; }
  case 70: { MaxSat f; f.random(n, std::min(3, n), n * 3); f.save(path); return; }
  case 71: { MaxSat f; n = std::max(n, 3); f.random(n, 3, n * 3); f.save(path); return; }
  case 90: { EqualProducts f; f.generate(n, []() { return Generator::uniform(); }); f.save(path); return; }
  case 91: { Partition f; f.random(n, 100); f.save(path); return; }
  case 150: { vd::put(path, std::to_string(6 + g.range(0, 5000))); return; }
  case 160: { WalshExpansion f; f.generate(n, 12, gen); f.save(path); return; }
  case 161: { WalshExpansion1 f; f.generate(n, gen); f.save(path); return; }
  case 162: { WalshExpansion2 f; f.generate(n, gen, gen); f.save(path); return; }
  case 171: { NearestNeighborIsingModel1 f; f.generate(n, gen, gen); f.set_periodic_boundary_conditions(seed & 1); f.save(path); return; }
  case 172: { NearestNeighborIsingModel2 f; f.generate(2 + n % 3, std::max(2, n / 3), gen, gen); f.set_periodic_boundary_conditions(seed & 1); f.save(path); return; }
  case 190: { Sudoku f; f.random(2 + int(seed % 6)); f.save(path); return; }
  case 200: {
    int m = 3 + n % 6;
    o << "NAME: sim\nCOMMENT: instance\nTYPE: TSP\nDIMENSION: " << m << "\nEDGE_WEIGHT_TYPE: " << (seed & 1 ? "ATT" : "EUC_2D") << "\nNODE_COORD_SECTION\n";
    for (int k = 1; k <= m; k++) o << k << " " << g.range(0, 1000) << " " << g.range(0, 1000) << "\n";
    o << "EOF\n";
    vd::put(path, o.str());
    return;
  }
  }
}

std::vector<std::string> zoo_args(int i, int n, uint64_t seed, const std::string& path) {
  std::vector<std::string> v;
  const Zoo& z = ZOO[size_t(i)];
  n = std::max(2, n);
  auto add = [&](const std::string& s) { v.push_back("--" + s); };
  add("function=" + std::to_string(z.id));
  switch (z.id) {
  case 5: n = std::min(n, 40); break;
  case 30: case 31: n = std::max(n, 4); add("fn-threshold=" + std::to_string(1 + int(seed % uint64_t(n / 2)))); break;
  case 40: case 41: n = std::max(n, 8); add("fn-threshold=" + std::to_string(1 + int(seed % uint64_t(n / 2 - 2)))); break;
  case 100: case 101: n = 9 * (1 + n % 4); break;
  case 110: { int t = 2 + int(seed % 3); n = t * std::max(2, n / t); add("fn-num-traps=" + std::to_string(t)); break; }
  case 120: { int k = 2; while (k * 2 <= n) k *= 2; n = k; break; }
  case 140: { int k = 2 + int(seed % 2); n = k * std::max(2, n / k); add("fn-prefix-length=" + std::to_string(k)); break; }
  case 500: case 510: add(seed & 1 ? "fp-expression=x^2+y^2-x*y" : "fp-expression=sin(pi*x)+abs(y)"); break;
  case 501: case 511: add("fp-expression=x*x-y"); break;
  case 502: case 512: add("fp-expression=z*z+1"); break;
  case 503: case 513: add("fp-expression=x*y-x^2"); break;
  case 504: case 514: add("fp-expression=x*y-u^2"); break;
  case 520: add("fp-expression=x^2:: y"); break;
  case 521: case 523: add("fp-expression=x*x:: y-x"); break;
  }
  if (z.id >= 500) {
    std::string r;
    switch (z.id) {
    case 501: case 511: case 521: r = "x: long(-9, 20); y: long(0, 6)"; break;
    case 502: case 512: r = "z_re: double(-1, 1, size = 5); z_im: double(-2, 1, precision = 0.1)"; break;
    case 503: case 513: case 523: r = "x: int(-3, 9); y: int(1, 4)"; break;
    case 504: case 514: r = "x: long(0, 5); y: double(0, 2, size = 6); u: set(1, 2.5, 7)"; break;
    default: r = "x: double(0, 1, size = 6); y: double(-2, 3, precision = 0.1)";
    }
    add("fp-representations=" + r);
  }
  if (z.file) { zoo_file(i, n, seed, path); add("path=" + path); }
  add("bv-size=" + std::to_string(n));
  if (z.id == 190) add("rep-categorical-representation=" + std::to_string(seed & 1));
  return v;
}

Function* zoo_make(const std::vector<std::string>& args) {
  auto* o = make_options(args).release();
  auto* ff = new app::CommandLineFunctionFactory(*o);
  auto* d = new app::DecoratedFunctionFactory(*o, *ff);
  return d->make_function_modifier();
}

std::vector<std::string> zoo_modifiers(Rng& g, int n, bool noise) {
  std::vector<std::string> v;
  int m = g.chance(1, 2) ? 0 : int(g.range(1, 6));
  if (m) {
    v.push_back("--map=" + std::to_string(m));
    v.push_back("--map-random");
    v.push_back("--map-ts-length=" + std::to_string(g.range(1, 12)));
    v.push_back("--map-ts-sampling-mode=" + std::to_string(g.range(0, 4)));
    v.push_back("--map-input-size=" + std::to_string(m == 4 || m == 5 ? std::max<int64_t>(1, n + g.range(-1, 2)) : n));
  }
  if (g.chance(1, 4)) v.push_back("--minimize");
  if (g.chance(1, 5)) { v.push_back("--parsed-modifier"); v.push_back("--expression=2*x+1"); }
  if (noise && g.chance(1, 2)) { v.push_back("--additive-gaussian-noise"); v.push_back("--noise-stddev=0.5"); }
  if (noise && g.chance(1, 3)) { v.push_back("--prior-noise"); v.push_back("--pn-neighborhood=" + std::to_string(g.range(0, 3))); v.push_back("--pn-radius=1"); }
  return v;
}

} // namespace sim
