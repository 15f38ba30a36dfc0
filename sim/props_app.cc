// The command-line applications, whole: what they write, what they print and the status they end with.
#include "stack.hh"
#include "vdisk.hh"
#include "zoo.hh"
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstring>
#include <getopt.h>
#include <iostream>
#include <complex>
#include <map>
#include <sstream>
#include <unistd.h>
using namespace sim;
using namespace hnco;

int hnco_main(int, char**);
int hnco_mo_main(int, char**);
int ffgen_main(int, char**);
int mapgen_main(int, char**);

namespace {

typedef std::vector<std::string> Args;
std::string line(const Args& a) { std::string s; for (auto& x : a) s += " " + x; return s; }

// One process: the real main, a fresh address space, the simulated disk and clock.
Sub app(int (*m)(int, char**), const char* name, const Args& args, const Plan& p, uint64_t environment) {
  return run_sub([&]() {
    par::configure(p);
    std::vector<std::string> keep(args);
    std::vector<char*> v;
    v.push_back((char*)name);
    for (auto& a : keep) v.push_back(&a[0]);
    v.push_back(nullptr);
    optind = 0;
    // another environment: other addresses, other heap content, other clock and entropy
    for (uint64_t i = 0; i < environment % 7; i++) { auto* q = new char[64 + 977 * i]; memset(q, int(environment >> 3), 64 + 977 * i); if (i % 2) delete[] q; }
    env::entropy = environment * 0x9e37 + 1;
    env::now_ns += environment * 1234567;
    env::clock_tick_us = int64_t(environment * 31 % 5000);
    env::on = true;
    int r = m(int(v.size()) - 1, v.data());
    exit(r);
  }, "", true, 15);
}

void dead(const Sub& r, const std::string& tag, const Args& args) {
  if (!r.exited()) {
    if (r.sig() == SIGPROF) violate("hang:" + tag, "the application does not end:%s", line(args).c_str());
    violate("dies:" + tag, "the application dies by signal %d: %.300s |%s", r.sig(), r.err.c_str(), line(args).c_str());
  }
}

Args drop(Args a, const std::string& prefix) { Args o; for (auto& x : a) if (x.compare(0, prefix.size(), prefix)) o.push_back(x); return o; }

// A complete hnco command line: real function, algorithm, controllers, map.
struct Cmd { Args args; int bv = 0; bool noise = false; bool map = false; bool has_max = false; double max = 0; int alg = 0; bool cache = false; int64_t budget = 0; int threads = 1; bool exact = false; };
Cmd command(const Plan& p0) {
  Plan p = p0;
  Cmd c;
  int z = int(p.get("fn", 0, 0, int64_t(ZOO.size()) - 1));
  Args f = zoo_args(z, int(p.get("n", 6, 2, 20)), uint64_t(p.get("fseed", 0, 0, 100000)), "/sim/function.txt");
  Rng g(uint64_t(p.get("mods", 0, 0, 1 << 30)));
  random::Generator::set_seed(unsigned(p.get("seed", 0, 0, 1 << 30)));
  auto* plain = zoo_make(f);
  Args mods;
  if (p.get("mods", 0)) mods = zoo_modifiers(g, plain->get_bv_size(), p.get("threads", 1, 1, 4) == 1 && p.get("noisy", 0, 0, 1));
  for (auto& m : mods) {
    if (m.find("noise") != std::string::npos) c.noise = true;
    if (m.compare(0, 6, "--map=") == 0) c.map = true;
  }
  Args all = f;
  all.insert(all.end(), mods.begin(), mods.end());
  all.push_back("--seed=" + std::to_string(p.get("seed", 0, 0, 1 << 30)));
  random::Generator::set_seed(unsigned(p.get("seed", 0, 0, 1 << 30)));
  auto* fn = zoo_make(all);
  c.bv = fn->get_bv_size();
  if (fn->has_known_maximum()) { c.has_max = true; c.max = fn->get_maximum(); }
  if (c.bv < 8 || (plan_alg(p).id == 0 && c.bv > 14)) p.set("alg", 0);    // some algorithms need more bits, some fewer
  if (plan_alg(p).id == 1250 && c.bv > 40) p.set("alg", 0);
  if (c.noise || !fn->provides_incremental_evaluation()) p.set("inc", 0);
  if (c.noise) p.set("cache", 0);
  p.set("minimize", 0);
  p.set("n", c.bv);
  p.set("radius", std::min<int64_t>(p.get("radius", 1), c.bv));
  c.alg = plan_alg(p).id;
  c.cache = p.get("cache", 0, 0, 1);
  if (c.cache) p.set("cachebudget", 1);    // otherwise values found in the cache cost nothing and the run may go on for ever, as documented
  c.budget = p.get("budget", 50, 1, 1000);
  p.set("budget", c.budget);
  c.threads = int(p.get("threads", 1, 1, 4));
  // Sharing one random number generator between threads is a known finding (H01): Tsp orders equal keys at random.
  if (ZOO[size_t(z)].id == 200) { c.threads = 1; p.set("threads", 1); c.noise = true; }
  switch (c.alg) { case 100: case 300: case 301: case 800: case 200: case 160: case 10: case 20: case 0: c.exact = !p.get("restart", 0); break; default:; }
  p.set("noise", 0);
  c.args = drop(run_args(p), "--bv-size=");
  c.args.insert(c.args.end(), f.begin(), f.end());
  c.args.insert(c.args.end(), mods.begin(), mods.end());
  return c;
}
void gen_cmd(Plan& p, Rng& r, bool t) {
  GenOpts o;
  o.max_budget = t ? 600 : 200;
  o.max_n = 20;
  gen_run(p, r, o);
  p.set("algolog", 0);      // standard output is looked at
  p.set("fn", r.range(0, int64_t(ZOO.size()) - 1));
  p.set("n", r.range(2, 16));
  p.set("fseed", r.range(0, 10000));
  p.set("mods", r.chance(1, 2) ? r.range(1, 1 << 30) : 0);
  p.set("noisy", r.chance(1, 4));
  p.set("iters", plan_alg(p).iterations && r.chance(1, 4) ? r.range(1, 30) : 0);
}

// ---------------------------------------------------------------- H13 files are complete or the application fails
Plan gen13(Rng& r, int, bool t) {
  Plan p;
  p.set("app", r.range(0, 3));     // 0, 1 hnco, 2 mapgen, 3 ffgen
  gen_cmd(p, r, t);
  p.set("which", r.range(0, 20));
  p.set("big", r.chance(1, 3));
  p.set("saves", r.range(1, 7));
  p.set("stale", r.chance(1, 2));
  p.set("capacity", r.chance(1, 3) ? r.small(0, 20000) : -1);
  auto& l = p.mut("L3.io");
  for (int64_t i = r.range(0, 2); i > 0; i--) {
    int op = int(r.pick(std::vector<int>{vd::OPEN, vd::WRITE, vd::WRITE, vd::WRITE, vd::CLOSE}));
    l.push_back(op);
    l.push_back(r.small(0, op == vd::WRITE ? 12 : 4));
    l.push_back(op == vd::OPEN ? r.pick(std::vector<int>{vd::F_EACCES, vd::F_EMFILE, vd::F_ENOSPC, vd::F_EISDIR})
                : op == vd::CLOSE ? r.pick(std::vector<int>{vd::F_EIO, vd::F_ENOSPC}) : r.pick(std::vector<int>{vd::F_EIO, vd::F_ENOSPC, vd::F_SHORT, vd::F_EINTR}));
  }
  return p;
}
void exec13(const Plan& p) {
  vd::reset();
  int which = int(p.get("which", 0, 0, 100)), kind = int(p.get("app", 0, 0, 3));
  std::string seed = "--seed=" + std::to_string(p.get("seed", 0, 0, 1 << 30));
  int n = p.get("big", 0, 0, 1) ? 20 + int(p.get("fseed", 0, 0, 100000) % 80) : 3 + int(p.get("fseed", 0, 0, 100000) % 12);
  Args args;
  std::vector<std::string> files;
  int (*m)(int, char**) = hnco_main;
  const char* name = "hnco";
  std::string tag;
  if (kind <= 1) {
    Cmd c = command(p);
    args = c.args;
    int s = int(p.get("saves", 1, 1, 7));
    if (s & 1) { args.push_back("--save-results"); args.push_back("--results-path=/sim/results"); files.push_back("/sim/results"); }
    if (s & 2) { args.push_back("--save-solution"); args.push_back("--solution-path=/sim/solution"); files.push_back("/sim/solution"); }
    if (s & 4) { args.push_back("--save-description"); args.push_back("--description-path=/sim/description"); files.push_back("/sim/description"); }
    tag = "hnco";
  } else if (kind == 2) {
    m = mapgen_main;
    name = "mapgen";
    int t = 1 + which % 6;
    args = {"--map=" + std::to_string(t), "--input-size=" + std::to_string(n), "--output-size=" + std::to_string(t == 6 ? n : n - which % 2), "--ts-length=" + std::to_string(which % (n / 2)),
            "--ts-sampling-mode=" + std::to_string(which % 6), seed, "--path=/sim/map"};
    files = {"/sim/map"};
    tag = "mapgen";
  } else {
    m = ffgen_main;
    name = "ffgen";
    static const int fs[] = {1, 60, 70, 90, 91, 160, 161, 162, 171, 172, 190};
    args = {"--function=" + std::to_string(fs[which % 11]), "--bv-size=" + std::to_string(n), "--nk-k=2", "--ms-num-clauses=" + std::to_string(n * 2), "--walsh-num-features=" + std::to_string(n),
            "--nn2-num-rows=3", "--nn2-num-columns=4", seed, "--path=/sim/function"};
    if (which % 2) args.push_back("--ms-planted-solution"), args.push_back("--periodic-boundary-conditions");
    files = {"/sim/function"};
    tag = "ffgen";
  }
  count(tag.c_str());
  // What the command gives when nothing fails.
  vd::clear_faults();
  Sub r0 = app(m, name, args, p, 1);
  dead(r0, tag, args);
  if (r0.code() == 1) violate("fails-alone:" + tag, "the application fails without any fault: %.300s |%s", r0.err.c_str(), line(args).c_str());
  std::vector<std::string> want;
  for (auto& f : files) {
    if (!vd::exists(f)) violate("file-missing:" + tag, "%s was not written:%s", f.c_str(), line(args).c_str());
    want.push_back(vd::get(f));
    ev("file", int64_t(hash_str(want.back())));
    vd::remove(f);
  }
  if (p.get("stale", 0, 0, 1)) for (auto& f : files) vd::put(f, "an older file that is longer than nothing\n");
  vd::clear_faults();
  // The instance is read before anything is written: read operations come first, so count writes and opens from there.
  int64_t opens_before = kind <= 1 && line(args).find("--path=/sim") != std::string::npos ? int64_t(p.get("threads", 1, 1, 4)) : 0;
  auto& l = p.list("L3.io");
  for (size_t i = 0; i + 2 < l.size(); i += 3) {
    int op = int(((l[i] % 4) + 4) % 4);
    if (op == vd::READ) continue;
    vd::add_fault(op, std::max<int64_t>(0, l[i + 1]) + (op == vd::OPEN || op == vd::CLOSE ? opens_before : 0), int(((l[i + 2] % vd::F_KINDS) + vd::F_KINDS) % vd::F_KINDS));
  }
  if (p.get("capacity", -1) >= 0) vd::set_capacity(vd::bytes() + p.get("capacity", 0, 0, 1 << 20));
  Sub r1 = app(m, name, args, p, 2);
  bool hard = vd::fired_hard() > 0;
  int64_t fired = vd::fired();
  vd::clear_faults();
  dead(r1, tag + " under faults", args);
  if (fired) nontrivial();
  cover(mix(mix(hash_str(tag), uint64_t(which)), mix(uint64_t(fired), uint64_t(r1.code()) * 8 + uint64_t(hard))));
  ev("status", r0.code(), r1.code());
  if (r1.code() == r0.code()) {
    for (size_t i = 0; i < files.size(); i++)
      if (vd::get(files[i]) != want[i])
        violate("incomplete-file:" + tag + ":" + files[i].substr(5), "status %d although %s was not completely written (%zu bytes instead of %zu):%s", r1.code(), files[i].c_str(), vd::get(files[i]).size(),
                want[i].size(), line(args).c_str());
  } else {
    if (!hard) violate("status-changed:" + tag, "status %d instead of %d although no operation failed: %.200s |%s", r1.code(), r0.code(), r1.err.c_str(), line(args).c_str());
    if (r1.code() != 1) violate("status-unknown:" + tag, "status %d:%s", r1.code(), line(args).c_str());
    if (r1.err.empty()) violate("silent-failure:" + tag, "status 1 without a message:%s", line(args).c_str());
    count("reported failures");
  }
}
Register r13({"H13", false, false, gen13, exec13});

// ---------------------------------------------------------------- H14 the applications tell the truth
Plan gen14(Rng& r, int, bool t) {
  Plan p;
  gen_cmd(p, r, t);
  p.set("goal", r.range(0, 3));        // 0 none, 1 target, 2 stop on maximum, 3 both
  p.set("concrete", r.chance(1, 3));
  p.set("time", r.chance(1, 4));
  p.set("env", r.range(1, 1 << 20));
  p.set("info", r.range(0, 6));
  return p;
}
double field(const std::string& js, const std::string& k, bool& ok) {
  auto at = js.find("\"" + k + "\": ");
  ok = at != std::string::npos;
  return ok ? atof(js.c_str() + at + k.size() + 4) : 0;
}
// results without the measured times
std::string untimed(const std::string& s) {
  std::istringstream is(s);
  std::string l, o;
  while (std::getline(is, l)) if (l.find("_time\":") == std::string::npos) o += l + "\n";
  return o;
}
void exec14(const Plan& p) {
  vd::reset();
  Cmd c = command(p);
  Args args = c.args;
  int goal = int(p.get("goal", 0, 0, 3));
  if (goal >= 2 && !c.has_max) goal = 1;
  double target = 0;
  if (goal & 1) {
    // the value of some point: often reached, sometimes not
    Rng g(uint64_t(p.get("targetpos", 0, 0, 1000)));
    random::Generator::set_seed(unsigned(p.get("seed", 0, 0, 1 << 30)));
    Args fa = drop(c.args, "--algorithm");
    auto* f = zoo_make(c.args);
    target = -1e300;
    for (int i = 0; i < 1 + int(p.get("targetpos", 0, 0, 40)); i++) {
      bit_vector_t x(static_cast<size_t>(c.bv));
      for (auto& b : x) b = g.chance(1, 2);
      target = std::max(target, f->evaluate_safely(x));
    }
    char b[64];
    snprintf(b, sizeof b, "--target=%.17g", target);
    args.push_back(b);
  }
  if (goal & 2) { args.push_back("--stop-on-maximum"); }
  bool concrete = c.map && p.get("concrete", 0, 0, 1);
  if (concrete) args.push_back("--concrete-solution");
  if (p.get("time", 0, 0, 1)) { args.push_back("--record-total-time"); args.push_back("--record-evaluation-time"); }
  Args base = args;
  for (const char* o : {"--print-results", "--print-solution", "--print-description", "--save-results", "--results-path=/sim/results", "--save-solution", "--solution-path=/sim/solution", "--save-description",
                        "--description-path=/sim/description"})
    args.push_back(o);
  std::string tag = std::to_string(c.alg);
  Sub r = app(hnco_main, "hnco", args, p, 1);
  std::string fname = ZOO[size_t(p.get("fn", 0, 0, int64_t(ZOO.size()) - 1))].name;
  dead(r, tag + ":" + fname, args);
  int st = r.code();
  ev("status", st, int64_t(hash_str(r.out)));
  count(("status " + std::to_string(st)).c_str());
  cover(mix(mix(uint64_t(c.alg), hash_str(fname)), uint64_t(st) * 64 + uint64_t(goal) * 8 + uint64_t(c.map) * 2 + uint64_t(concrete)));
  if (st != 0 && st != 2 && st != 3) violate("fails:" + tag + ":" + fname, "status %d: %.300s |%s", st, r.err.c_str(), line(args).c_str());
  nontrivial();
  std::string js = vd::get("/sim/results"), sol = vd::get("/sim/solution"), des = vd::get("/sim/description");
  // what is printed is what is saved
  bool tsp = fname == "Tsp";     // it orders equal keys at random each time it decodes a bit vector
  if (tsp ? r.out.compare(0, js.size() + sol.size(), js + sol) != 0 : r.out != js + sol + des) violate("printed-not-saved", "printed:\n%.600s\nsaved:\n%.600s |%s", r.out.c_str(), (js + sol + des).c_str(), line(args).c_str());
  bool ok, o2, o3;
  double value = field(js, "value", ok), total = field(js, "total_num_evaluations", o2), at = field(js, "num_evaluations", o3);
  if (!ok || !o2 || !o3) violate("results-incomplete", "results lack a field: %s", js.c_str());
  if (at > total) violate("last-improvement-late", "the last improvement came at evaluation %g of %g |%s", at, total, line(args).c_str());
  if (at < 1) violate("no-evaluation", "no evaluation recorded |%s", line(args).c_str());
  if (!c.cache && total > double(c.budget)) violate("over-budget:" + tag, "%g evaluations, budget %ld |%s", total, long(c.budget), line(args).c_str());
  if (js.find("lookup_ratio") != std::string::npos != c.cache) violate("lookup-ratio", "lookup ratio: %s |%s", js.c_str(), line(args).c_str());
  // time: none recorded unless asked for, evaluations within the whole
  {
    bool ok6, ok7;
    double whole = field(js, "total_time", ok6), inside = field(js, "evaluation_time", ok7);
    bool timed = p.get("time", 0, 0, 1);
    if (!ok6 || !ok7 || !(whole >= 0) || !(inside >= 0) || (!timed && (whole != 0 || inside != 0)) || inside > whole * (1 + 1e-4) + 1e-5 || (timed && !(inside > 0)))
      violate("times-untrue:" + tag, "total time %g, evaluation time %g, %s recorded |%s", whole, inside, timed ? "" : "not", line(args).c_str());
    if (timed && whole > 0) count("times recorded");
  }
  // status and success
  bool says = js.find("\"success\": true") != std::string::npos, denies = js.find("\"success\": false") != std::string::npos;
  if (goal == 0) {
    if (says || denies) violate("success-without-goal", "%s |%s", js.c_str(), line(args).c_str());
    if (st != 0) violate("status-without-goal", "status %d |%s", st, line(args).c_str());
  } else {
    if (says == denies) violate("success-missing", "%s |%s", js.c_str(), line(args).c_str());
    int expect = says ? 0 : goal & 2 ? 2 : 3;
    if (st != expect) violate("status-wrong", "status %d, success %s, expected status %d |%s", st, says ? "true" : "false", expect, line(args).c_str());
    double goalv = goal == 3 ? std::min(target, c.max) : goal == 2 ? c.max : target;
    double highv = goal == 3 ? std::max(target, c.max) : goalv;
    double tol = 1e-5 * (std::fabs(value) + 1);
    if (says && value < goalv - tol) violate("success-untrue", "success with value %g, goal %g |%s", value, goalv, line(args).c_str());
    if (!says && value >= highv + tol) violate("failure-untrue", "no success although value %g, goal %g |%s", value, highv, line(args).c_str());
    if (!says && value == highv && std::fabs(value) < 1e5 && value == std::floor(value)) violate("failure-untrue", "no success although value %g, goal %g |%s", value, highv, line(args).c_str());
    if (says) count("goals reached");
  }
  // the solution is a bit vector of the right size
  int want = c.bv;
  if (concrete) { random::Generator::set_seed(unsigned(p.get("seed", 0, 0, 1 << 30))); Args b; for (auto& a : c.args) if (a.compare(0, 5, "--map")) b.push_back(a); want = zoo_make(b)->get_bv_size(); }
  if (int(sol.size()) != want + 1 || sol.find_first_not_of("01") != size_t(want)) violate("solution-malformed", "solution of %zu characters for %d bits: %s |%s", sol.size() - 1, want, sol.c_str(), line(args).c_str());
  // the share of values found in the cache: without the cache, the same run computes them all
  if (c.cache && c.threads == 1 && !tsp && !p.get("inc", 0, 0, 1)) {
    Args a;
    for (auto& x : args) if (x != "--cache" && x != "--cache-budget") a.push_back(x);
    Sub q = app(hnco_main, "hnco", a, p, 1);
    dead(q, tag + ":" + fname, a);
    bool ok4, ok5;
    double all = field(q.out, "total_num_evaluations", ok4), ratio = field(js, "lookup_ratio", ok5);
    if (!ok4 || !ok5 || total > all || std::fabs(ratio - (all - total) / all) > 1e-5)
      violate("lookup-ratio-untrue", "lookup ratio %g, with %g evaluations of %g |%s", ratio, total, all, line(args).c_str());
    count("lookup ratios");
  }
  // another process, another environment: the same
  {
    Sub q = app(hnco_main, "hnco", args, p, uint64_t(p.get("env", 1, 1, 1 << 20)) + 1);
    dead(q, tag + ":" + fname, args);
    if (q.code() != st || untimed(q.out) != untimed(r.out))
      violate("not-reproducible:" + tag, "the same command with the same seed gives status %d and\n%.500s\ninstead of %d and\n%.500s |%s", q.code(), untimed(q.out).c_str(), st, untimed(r.out).c_str(), line(args).c_str());
  }
  // the saved solution, loaded again
  {
    Args a;
    for (auto& x : base) if (!concrete || (x.compare(0, 5, "--map") != 0)) a.push_back(x);
    a.push_back("--load-solution");
    a.push_back("--solution-path=/sim/solution");
    Args b = a;
    b.push_back("--print-results");
    Sub q = app(hnco_main, "hnco", b, p, 3);
    dead(q, "load:" + fname, b);
    if (q.code() != 0) violate("load-fails", "the saved solution cannot be loaded: %.200s |%s", q.err.c_str(), line(b).c_str());
    double v = atof(q.out.c_str());
    double tol = 1e-5 * (std::fabs(value) + 1);
    if (q.out.empty() || !(isdigit((unsigned char)q.out[0]) || strchr("-in", q.out[0]))) violate("load-silent", "no value is printed: %.100s |%s", q.out.c_str(), line(b).c_str());
    if (!c.noise) {
      if (v > value + tol) violate("loaded-better:" + tag, "the saved solution has value %g, the results say %g |%s", v, value, line(args).c_str());
      if ((c.exact || says) && v < value - tol) violate("loaded-worse:" + tag, "the saved solution has value %g, the results say %g |%s", v, value, line(args).c_str());
      count("solutions loaded again");
    }
    b = a;
    b.push_back("--print-description");
    Sub d = app(hnco_main, "hnco", b, p, 4);
    dead(d, "describe:" + fname, b);
    if (d.code() == 0 && d.out != des && !tsp) violate("description-differs:" + fname + (concrete ? ":concrete" : ""), "the description of the saved solution is\n%.300s\ninstead of\n%.300s |%s", d.out.c_str(), des.c_str(), line(args).c_str());
  }
  // what is said about the function itself, not about what controls its evaluations
  Args i;
  for (auto& x : base) if (x.compare(0, 9, "--budget=") && x.compare(0, 9, "--target=") && x != "--stop-on-maximum" && x.compare(0, 7, "--cache")) i.push_back(x);
  switch (p.get("info", 0, 0, 6)) {
  case 0: {
    i.push_back("--fn-get-bv-size");
    Sub q = app(hnco_main, "hnco", i, p, 5);
    dead(q, "info", i);
    if (q.code() != 0 || atoi(q.out.c_str()) != c.bv) violate("bv-size-untrue", "status %d, %s bits instead of %d |%s", q.code(), q.out.c_str(), c.bv, line(i).c_str());
    break;
  }
  case 1: {
    Args j = i;
    i.push_back("--fn-has-known-maximum");
    j.push_back("--fn-get-maximum");
    Sub q = app(hnco_main, "hnco", i, p, 5), s = app(hnco_main, "hnco", j, p, 6);
    dead(q, "info", i);
    dead(s, "info", j);
    bool yes = q.out == "yes\n";
    if (q.code() != 0 || (!yes && q.out != "no\n")) violate("known-maximum-untrue", "%s", q.out.c_str());
    if (yes != (s.code() == 0) || (!yes && s.code() != 1)) violate("maximum-status", "known maximum: %s but status %d |%s", q.out.c_str(), s.code(), line(j).c_str());
    if (yes && !c.noise && value > atof(s.out.c_str()) + 1e-5 * (std::fabs(value) + 1)) violate("maximum-exceeded:" + fname, "value %g above the known maximum %s |%s", value, s.out.c_str(), line(args).c_str());
    break;
  }
  case 2: {
    i.push_back("--fn-provides-incremental-evaluation");
    Sub q = app(hnco_main, "hnco", i, p, 5);
    dead(q, "info", i);
    random::Generator::set_seed(unsigned(p.get("seed", 0, 0, 1 << 30)));
    bool yes = zoo_make(c.args)->provides_incremental_evaluation();
    if (q.code() != 0 || q.out != (yes ? "yes\n" : "no\n")) violate("incremental-untrue", "status %d, provides incremental evaluation: %s |%s", q.code(), q.out.c_str(), line(i).c_str());
    break;
  }
  case 3: {
    // amplitudes of the Walsh transform, the largest being one, in descending order
    if (c.noise || c.bv > 11 || tsp) break;
    i.push_back("--fn-walsh-transform");
    Sub q = app(hnco_main, "hnco", i, p, 5);
    dead(q, "info", i);
    random::Generator::set_seed(unsigned(p.get("seed", 0, 0, 1 << 30)));
    auto* f = zoo_make(c.args);
    unsigned N = 1u << c.bv;
    std::vector<double> y(N);
    for (unsigned k = 0; k < N; k++) { bit_vector_t x(static_cast<size_t>(c.bv)); for (size_t b = 0; b < x.size(); b++) x[b] = char((k >> b) & 1); y[k] = f->evaluate_safely(x); }
    std::vector<std::vector<double>> amp(size_t(c.bv) + 1), got(size_t(c.bv) + 1);
    double norm = 0, scale = 0;
    bool finite = true;
    for (double v : y) { if (!std::isfinite(v)) finite = false; scale = std::max(scale, std::fabs(v)); }
    if (!finite) break;
    for (unsigned w = 0; w < N; w++) {
      double a = 0;
      for (unsigned k = 0; k < N; k++) a += __builtin_popcount(k & w) % 2 ? -y[k] : y[k];
      a = std::fabs(a) / N;
      if (w) { norm = std::max(norm, a); amp[size_t(__builtin_popcount(w))].push_back(a); }
    }
    if (norm < 1e-6 * scale || norm == 0) break;      // a constant, up to rounding
    std::istringstream is(q.out);
    int w;
    double a, last = INFINITY;
    while (is >> w >> a) {
      if (w < 1 || w > c.bv) violate("walsh-weight", "a term of weight %d |%s", w, line(i).c_str());
      if (a > last * (1 + 1e-5)) violate("walsh-order", "amplitude %g after %g |%s", a, last, line(i).c_str());
      last = a;
      got[size_t(w)].push_back(a);
    }
    if (q.code() != 0 || !is.eof()) violate("walsh-malformed", "status %d: %.200s |%s", q.code(), q.out.c_str(), line(i).c_str());
    for (size_t k = 1; k < amp.size(); k++) {
      auto& A = amp[k];
      for (auto& v : A) v /= norm;
      std::sort(A.begin(), A.end(), std::greater<double>());
      size_t na = 0, ng = 0;
      // what is smaller may be rounding
      while (na < A.size() && A[na] > 1e-6) na++;
      while (ng < got[k].size() && got[k][ng] > 1e-6) ng++;
      if (na != ng && std::none_of(A.begin(), A.end(), [](double v) { return v > 5e-7 && v < 2e-6; }))
        violate("walsh-untrue:" + fname, "%zu terms of weight %zu instead of %zu |%s", ng, k, na, line(i).c_str());
      for (size_t j = 0; j < std::min(na, ng); j++)
        if (std::fabs(A[j] - got[k][j]) > 2e-5 * A[j] + 1e-8) violate("walsh-untrue:" + fname, "amplitude %g of weight %zu instead of %g |%s", got[k][j], k, A[j], line(i).c_str());
    }
    count("Walsh transforms");
    break;
  }
  case 4: case 5: {
    i.push_back(p.get("info", 0, 0, 6) == 4 ? "--fn-display" : "--map-display");
    Sub q = app(hnco_main, "hnco", i, p, 5), s = app(hnco_main, "hnco", i, p, uint64_t(p.get("env", 1, 1, 1 << 20)) + 7);
    dead(q, "display:" + fname, i);
    dead(s, "display:" + fname, i);
    if (q.code() != 0) violate("display-fails:" + fname, "status %d: %.200s |%s", q.code(), q.err.c_str(), line(i).c_str());
    if (q.code() != s.code() || q.out != s.out) violate("display-not-reproducible:" + fname, "\n%.300s\nand then\n%.300s |%s", q.out.c_str(), s.out.c_str(), line(i).c_str());
    break;
  }
  default:;
  }
}
Register r14({"H14", false, false, gen14, exec14});

// ---------------------------------------------------------------- H22 hnco-mo prints a true Pareto front
Plan gen22(Rng& r, int, bool t) {
  Plan p;
  p.set("kind", r.range(0, 9));
  p.set("vars", r.range(1, 4));
  p.set("objectives", r.range(1, 4));
  p.set("formula", r.range(0, 1 << 30));
  p.set("seed", r.range(0, 1 << 30));
  p.set("mu", r.range(3, 12) * 2);
  p.set("iterations", r.range(0, t ? 25 : 10));
  p.set("cross", r.range(0, 10));
  p.set("mut", r.range(0, 5));
  p.set("tournament", r.range(2, 4));
  p.set("threads", r.chance(1, 2) ? r.range(2, 4) : 1);
  p.set("files", r.range(0, 3));
  p.set("env", r.range(1, 1 << 20));
  par::gen(p, r, false);
  auto& l = p.mut("L3.io");
  for (int64_t i = r.range(0, 2); i > 0; i--) {
    int op = int(r.pick(std::vector<int>{vd::OPEN, vd::READ, vd::READ, vd::CLOSE}));
    l.push_back(op);
    l.push_back(r.small(0, 8));
    l.push_back(op == vd::OPEN ? r.pick(std::vector<int>{vd::F_EACCES, vd::F_EMFILE}) : op == vd::CLOSE ? int(vd::F_EIO) : r.pick(std::vector<int>{vd::F_EIO, vd::F_SHORT, vd::F_EINTR}));
  }
  return p;
}
// An objective: a sum of terms over the variables, in a form that all parsers understand.
typedef std::complex<double> Cplx;
struct Term { int coef, v, w; double shift; std::string text; };
Cplx read_value(const char* s) {
  if (*s != '(') return atof(s);
  char* e;
  double re = strtod(s + 1, &e);
  return Cplx(re, *e == ',' ? strtod(e + 1, nullptr) : 0);
}
// The value of an objective before conversion, and how large the numbers in it may get.
Cplx value_of(const std::vector<Term>& f, const std::vector<Cplx>& x, double& scale) {
  Cplx s = 0;
  for (auto& t : f) {
    Cplx v = x[size_t(t.v)], w = t.w >= 0 ? x[size_t(t.w)] : v;
    s += double(t.coef) * (t.w >= 0 ? v * w : (v - t.shift) * (v - t.shift));
    scale += 5 * (std::abs(v) + 6) * (std::abs(w) + 6);
  }
  return s;
}
void exec22(const Plan& p) {
  vd::reset();
  static const int fns[] = {520, 521, 523, 524, 530, 531, 533, 522, 532, 534};
  int fn = fns[p.get("kind", 0, 0, 9)];
  const bool cplx = fn % 10 == 2;
  int nv = int(p.get("vars", 2, 1, 4)), no = int(p.get("objectives", 2, 1, 4));
  Rng g(uint64_t(p.get("formula", 0, 0, 1 << 30)));
  std::vector<std::string> names = {"y", "a", "x10", "x2"};       // neither in alphabetic nor in any other order
  std::vector<std::vector<Term>> f(static_cast<size_t>(no));
  std::string expr;
  std::vector<bool> used(static_cast<size_t>(nv));
  for (int i = 0; i < no; i++) {
    int nt = int(g.range(1, 4));
    if (i) expr += g.chance(1, 2) ? " :: " : "::";
    for (int j = 0; j < nt; j++) {
      Term t{int(g.range(1, 5)) * (g.chance(1, 2) ? 1 : -1), int(g.range(0, nv - 1)), g.chance(1, 3) ? int(g.range(0, nv - 1)) : -1, double(g.range(0, 6)), ""};
      t.text = std::to_string(int(t.shift));
      if (fn % 10 != 1 && g.chance(1, 6)) { if (g.chance(1, 2)) { t.shift = M_PI; t.text = "pi"; } else { t.shift = M_E; t.text = "e"; } }
      f[size_t(i)].push_back(t);
      used[size_t(t.v)] = true;
      if (t.w >= 0) used[size_t(t.w)] = true;
      std::string v = names[size_t(t.v)];
      expr += (t.coef < 0 ? "-" : j ? "+" : "") + std::to_string(std::abs(t.coef)) + "*" + (t.w >= 0 ? v + "*" + names[size_t(t.w)] : "(" + v + "-" + t.text + ")*(" + v + "-" + t.text + ")");
    }
  }
  struct Dom { int kind; double lo, hi; std::vector<double> set; };    // kind: int, long, double, set
  std::vector<Dom> dom, imag;
  std::string reps;
  Args deflt;
  bool fraction = fn % 10 != 1;    // the parser of real expressions rounds
  // what is not declared, or declared as something else, has the default representation
  Dom dint{0, -10, 10, {}}, dlong{1, -100, 100, {}}, ddouble{2, 0, 1, {}};
  if (g.chance(1, 2)) {
    dint.lo = -3; dint.hi = 7; dlong.lo = 2; dlong.hi = 17; ddouble.lo = -2; ddouble.hi = 0.5;
    deflt = {"--fp-default-int-rep=int(-3, 7)", "--fp-default-long-rep=long(2, 17)", "--fp-default-double-rep=double(-2, 0.5, size = 5)"};
  }
  const bool bare = g.chance(1, 2);
  if (bare) { if (g.chance(1, 2)) deflt.push_back("--fp-default-double-size=6"); else deflt.push_back("--fp-default-double-precision=0.05"); }
  auto declare = [&](const std::string& name, std::vector<Dom>& out) {
    Dom d{0, 0, 0, {}};
    switch (fn % 10) { case 0: case 2: d.kind = 2; break; case 1: d.kind = 1; break; case 3: d.kind = 0; break; default: d.kind = 1 + int(g.range(0, 2)); }
    const Dom& fall = fn % 10 == 1 ? dlong : fn % 10 == 3 ? dint : ddouble;
    if (g.chance(1, 8)) { out.push_back(fall); return; }          // not declared
    const bool other = g.chance(1, 10);                           // declared as something that does not fit
    if (other) d.kind = fn % 10 == 4 ? 0 : (d.kind + 1) % 3;
    d.lo = double(g.range(-5, 4));
    d.hi = d.lo + double(g.range(1, 12));
    std::ostringstream o;
    o << name << (g.chance(1, 4) ? " :" : ":") << (g.chance(1, 4) ? "" : " ");
    if (d.kind == 0) o << "int(" << d.lo << ", " << d.hi << ")";
    if (d.kind == 1) o << "long(" << d.lo << ", " << d.hi << ")";
    if (d.kind == 2) {
      o << "double(" << d.lo << ", " << d.hi;
      if (bare && g.chance(1, 3)) o << ")";
      else if (g.chance(1, 3)) o << ", precision = 0.0" << g.range(1, 9) << ")";
      else o << ", size = " << g.range(1, 8) << ")";
    }
    if (d.kind == 3) {
      o << "set(";
      for (int64_t k = g.range(2, 5); k > 0; k--) { d.set.push_back(double(g.range(-8, 8)) / 2); o << d.set.back() << (k > 1 ? ", " : ")"); }
    }
    if (!reps.empty()) reps += "; ";
    reps += o.str();
    out.push_back(other ? fall : d);
  };
  for (int i = 0; i < nv; i++) {
    if (cplx) { declare(names[size_t(i)] + "_re", dom); declare(names[size_t(i)] + "_im", imag); }
    else declare(names[size_t(i)], dom);
  }
  Args args = {"--function=" + std::to_string(fn), "--seed=" + std::to_string(p.get("seed", 0, 0, 1 << 30)), "--ea-mu=" + std::to_string(p.get("mu", 6, 6, 24)),
               "--num-iterations=" + std::to_string(p.get("iterations", 3, 0, 100)), "--ea-crossover-probability=" + std::to_string(double(p.get("cross", 5, 0, 10)) / 10),
               "--ea-tournament-size=" + std::to_string(p.get("tournament", 2, 2, 4))};
  int64_t m = p.get("mut", 0, 0, 5);
  if (m) args.push_back("--ea-mutation-rate=" + std::to_string(double(m) / 10));
  int files = int(p.get("files", 0, 0, 3));
  if (files & 1) { vd::put("/sim/expression", expr + "\n"); args.push_back("--path=/sim/expression"); } else args.push_back("--fp-expression=" + expr);
  if (files & 2) { vd::put("/sim/representations", reps.empty() ? reps : reps + "\n"); args.push_back("--fp-representations-path=/sim/representations"); } else args.push_back("--fp-representations=" + reps);
  for (auto& a : deflt) args.push_back(a);
  Args base = args;
  args.push_back("--print-description");
  args.push_back("--print-pareto-front");
  Args par_args = args;
  par_args.push_back("--num-threads=" + std::to_string(p.get("threads", 1, 1, 4)));
  vd::clear_faults();
  Sub r = app(hnco_mo_main, "hnco-mo", args, p, 1);
  dead(r, "hnco-mo", args);
  if (r.code() != 0) violate("fails:hnco-mo", "status %d: %.400s |%s", r.code(), r.err.c_str(), line(args).c_str());
  ev("front", int64_t(hash_str(r.out)));
  // read the descriptions and the front
  struct Point { std::vector<double> values; std::map<std::string, Cplx> at; };
  std::vector<Point> points;
  std::vector<std::vector<double>> front;
  std::istringstream is(r.out);
  std::string l;
  bool described = true;
  while (std::getline(is, l)) {
    if (l.compare(0, 13, "Objectives: (") == 0) {
      Point q;
      std::string b = l.substr(13);
      for (auto& ch : b) if (ch == ',' || ch == ')') ch = ' ';
      std::istringstream v(b);
      for (double x; v >> x;) q.values.push_back(x);
      points.push_back(q);
      described = true;
    } else if (l.empty()) described = false;
    else if (l.find(" = ") != std::string::npos && described && !points.empty()) points.back().at[l.substr(0, l.find(" = "))] = read_value(l.c_str() + l.find(" = ") + 3);
    else {
      std::istringstream v(l);
      std::vector<double> x;
      for (double y; v >> y;) x.push_back(y);
      front.push_back(x);
    }
  }
  if (points.empty()) violate("front-empty", "no solution is described:\n%.500s |%s", r.out.c_str(), line(args).c_str());
  if (points.size() != front.size()) violate("front-differs", "%zu solutions described, %zu points of the front:\n%.800s |%s", points.size(), front.size(), r.out.c_str(), line(args).c_str());
  size_t nused = 0;
  for (bool u : used) nused += u;
  auto inside = [&](const char* who, int j, const Dom& d, double v, const Args& a) {
    bool in = d.kind == 3 ? std::find(d.set.begin(), d.set.end(), v) != d.set.end() : v >= d.lo - 1e-4 && v <= d.hi + 1e-4 && (d.kind == 2 || v == std::floor(v));
    if (!in) violate(std::string("outside-domain") + who, "%s = %g, in the domain of kind %d from %g to %g |%s", names[size_t(j)].c_str(), v, d.kind, d.lo, d.hi, line(a).c_str());
  };
  for (size_t i = 0; i < points.size(); i++) {
    auto& q = points[i];
    if (q.values != front[i]) violate("front-differs", "point %zu of the front is not the one described:\n%.800s |%s", i, r.out.c_str(), line(args).c_str());
    if (int(q.values.size()) != no) violate("objectives", "%zu objectives instead of %d:\n%.500s |%s", q.values.size(), no, r.out.c_str(), line(args).c_str());
    if (q.at.size() != nused) violate("variables", "%zu variables instead of %zu:\n%.500s |%s", q.at.size(), nused, r.out.c_str(), line(args).c_str());
    std::vector<Cplx> x;
    for (int j = 0; j < nv; j++) {
      if (!used[size_t(j)]) { x.push_back(0); continue; }
      if (!q.at.count(names[size_t(j)])) violate("variables", "%s is missing:\n%.500s |%s", names[size_t(j)].c_str(), r.out.c_str(), line(args).c_str());
      Cplx z = q.at[names[size_t(j)]];
      x.push_back(z);
      inside("", j, dom[size_t(j)], z.real(), args);
      if (cplx) inside("", j, imag[size_t(j)], z.imag(), args);
    }
    for (int j = 0; j < no; j++) {
      double scale = 1;
      Cplx s = value_of(f[size_t(j)], x, scale);
      double v = cplx ? std::norm(s) : fn >= 530 ? std::fabs(s.real()) : s.real();
      if (std::fabs(v - q.values[size_t(j)]) > 2e-5 * (cplx ? 4 * scale * scale : scale))
        violate("value-untrue", "objective %d is said to be %g but is %g:\n%.600s |%s", j, q.values[size_t(j)], v, r.out.c_str(), line(args).c_str());
    }
  }
  // no point of the front dominates another; printed with six digits: only clear cases where values are fractions
  for (auto& a : front)
    for (auto& b : front) {
      bool le = true, lt = false;
      for (size_t k = 0; k < a.size(); k++) {
        double tol = fraction ? 1e-4 * (1 + std::fabs(a[k])) : 0;
        if (a[k] < b[k] - tol) lt = true;
        else if (fraction || a[k] != b[k]) le = false;
      }
      if (le && lt) violate("front-dominated", "a point of the front is dominated:\n%.800s |%s", r.out.c_str(), line(args).c_str());
    }
  cover(mix(mix(uint64_t(fn), front.size()), mix(uint64_t(no), hash_str(r.out) % 64)));
  if (front.size() > 1) nontrivial();
  // another process and environment, more threads: the same
  {
    Sub q = app(hnco_mo_main, "hnco-mo", par_args, p, uint64_t(p.get("env", 1, 1, 1 << 20)) + 1);
    dead(q, "hnco-mo threads", par_args);
    if (q.code() != 0 || q.out != r.out) violate("not-reproducible", "status %d and\n%.500s\ninstead of\n%.500s |%s", q.code(), q.out.c_str(), r.out.c_str(), line(par_args).c_str());
  }
  // what is said about the function
  {
    Args i = base;
    i.push_back("--fn-get-output-size");
    Sub q = app(hnco_mo_main, "hnco-mo", i, p, 3);
    if (!q.exited() || q.code() != 0 || q.out != std::to_string(no) + "\n") violate("output-size", "status %d, %s instead of %d |%s", q.status, q.out.c_str(), no, line(i).c_str());
  }
  // the sum of the objectives, as a function for hnco
  {
    int hf = no == 1 && g.chance(1, 2) ? fn - 20 : fn;
    Args h = {"--function=" + std::to_string(hf), args[1], "--algorithm=10", "--budget=" + std::to_string(1 + p.get("iterations", 3, 0, 100)), "--print-results", "--print-description"};
    for (auto& a : base) if (!a.compare(0, 5, "--fp-") || !a.compare(0, 7, "--path=")) h.push_back(a);
    vd::clear_faults();
    Sub q = app(hnco_main, "hnco", h, p, 3);
    dead(q, "hnco parsed", h);
    if (q.code() != 0) violate("fails:hnco", "status %d: %.400s |%s", q.code(), q.err.c_str(), line(h).c_str());
    bool ok;
    double value = field(q.out, "value", ok), sum = 0, scale = 1;
    std::map<std::string, Cplx> at;
    std::istringstream js(q.out.substr(std::min(q.out.size(), q.out.find("}\n"))));
    for (std::string t; std::getline(js, t);) if (t.find(" = ") != std::string::npos) at[t.substr(0, t.find(" = "))] = read_value(t.c_str() + t.find(" = ") + 3);
    if (at.size() != nused) violate("variables:hnco", "%zu variables instead of %zu:\n%.500s |%s", at.size(), nused, q.out.c_str(), line(h).c_str());
    std::vector<Cplx> x;
    for (int j = 0; j < nv; j++) {
      x.push_back(used[size_t(j)] ? at[names[size_t(j)]] : 0);
      if (!used[size_t(j)]) continue;
      inside(":hnco", j, dom[size_t(j)], x.back().real(), h);
      if (cplx) inside(":hnco", j, imag[size_t(j)], x.back().imag(), h);
    }
    for (auto& o : f) {
      Cplx s = value_of(o, x, scale);
      double v = cplx ? std::norm(s) : fn >= 530 ? std::fabs(s.real()) : s.real();
      sum += fn >= 530 ? -v : v;
    }
    if (!ok || std::fabs(sum - value) > 2e-5 * (cplx ? 4 * scale * scale : scale)) violate("value-untrue:hnco", "the value is said to be %g but is %g:\n%.600s |%s", value, sum, q.out.c_str(), line(h).c_str());
  }
  // read errors
  vd::clear_faults();
  auto& io = p.list("L3.io");
  for (size_t i = 0; i + 2 < io.size(); i += 3) {
    int op = int(((io[i] % 4) + 4) % 4);
    if (op != vd::WRITE) vd::add_fault(op, std::max<int64_t>(0, io[i + 1]), int(((io[i + 2] % vd::F_KINDS) + vd::F_KINDS) % vd::F_KINDS));
  }
  Sub q = app(hnco_mo_main, "hnco-mo", par_args, p, 4);
  bool hard = vd::fired_hard() > 0;
  vd::clear_faults();
  dead(q, "hnco-mo under faults", par_args);
  if (q.code() == 0) {
    if (q.out != r.out) violate("fault-unnoticed", "status 0 but another front after a read error:\n%.400s\ninstead of\n%.400s |%s", q.out.c_str(), r.out.c_str(), line(par_args).c_str());
  } else {
    if (!hard) violate("status-changed:hnco-mo", "status %d although no operation failed: %.200s |%s", q.code(), q.err.c_str(), line(par_args).c_str());
    if (q.code() != 1 || q.err.empty()) violate("silent-failure:hnco-mo", "status %d, message: %.200s |%s", q.code(), q.err.c_str(), line(par_args).c_str());
    count("reported failures");
  }
}
Register r22({"H22", false, false, gen22, exec22});

} // namespace
