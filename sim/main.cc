// Runner: batches of seeded runs, each in a forked copy of this process; minimisation; replay; determinism proof.
#include "core.hh"

#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <fcntl.h>
#include <fnmatch.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <csignal>
#include <typeinfo>
#include <unistd.h>

using namespace sim;

namespace {

double wall() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return double(ts.tv_sec) + 1e-9 * double(ts.tv_nsec);
}

struct Result {
  int violated = 0;      // 0 ok, 1 violation, 2 harness error
  std::string cls, detail;
  uint64_t hash = 0, cover = 0, steps = 0;
  double sim_time = 0;
  bool nontrivial = false;
  std::vector<int64_t> switches;
};

std::string last_line(const std::string& s) {
  std::string best;
  std::istringstream is(s);
  std::string l;
  while (std::getline(is, l)) if (!l.empty()) best = l;
  return best.substr(0, 300);
}

// Keep what identifies an assertion, not the path to the source or the line it is on.
std::string crash_site(const std::string& err) {
  auto p = err.find("Assertion `");
  if (p != std::string::npos) {
    auto q = err.find("' failed", p);
    std::string e = err.substr(p + 11, (q == std::string::npos ? err.size() : q) - p - 11);
    return "assert(" + e.substr(0, 90) + ")";
  }
  p = err.find("terminate called after throwing an instance of '");
  if (p != std::string::npos) {
    p += 48;
    auto q = err.find("'", p);
    return "uncaught " + err.substr(p, q - p);
  }
  if (err.find("terminate called") != std::string::npos) return "terminate";
  return "";
}

std::string slurp(int fd) {
  std::string s;
  char buf[8192];
  off_t off = 0;
  ssize_t n;
  while ((n = pread(fd, buf, sizeof buf, off)) > 0) { s.append(buf, size_t(n)); off += n; if (s.size() > (1u << 20)) break; }
  return s;
}

const char* hash_note = nullptr;

Result run_plan(const Prop& p, const Plan& plan, const char* trace_file = nullptr, double cpu_limit = 20) {
  memset(sh, 0, offsetof(Shared, switches));
  sh->hash = 0x811c9dc5;
  static int fe = -1, fo = -1;
  if (fe < 0) { fe = memfd_create("stderr", 0); fo = memfd_create("stdout", 0); }
  if (ftruncate(fe, 0) || ftruncate(fo, 0)) abort();
  lseek(fe, 0, SEEK_SET);
  lseek(fo, 0, SEEK_SET);
  fflush(nullptr);
  std::cout.flush();
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(2); }
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    dup2(fo, 1);
    dup2(fe, 2);
    int n = open("/dev/null", O_RDONLY);
    dup2(n, 0);
    if (trace_file) trace = fopen(trace_file, "a");
    struct itimerval tv;
    memset(&tv, 0, sizeof tv);
    tv.it_value.tv_sec = long(cpu_limit);
    setitimer(ITIMER_PROF, &tv, nullptr);
    alarm(300);
    struct rlimit rl = {6ull << 30, 6ull << 30};
    setrlimit(RLIMIT_AS, &rl);
    rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    try {
      p.exec(plan);
    } catch (std::exception& e) {
      env::on = false;
      int st = 0;
      char* d = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
      violate(std::string("escaped-exception:") + (d ? d : "?"), "exception escaped: %s", e.what());
    } catch (...) {
      env::on = false;
      violate("escaped-exception:other", "an exception escaped");
    }
    sh->done = 1;
    if (trace) fflush(trace);
    _exit(0);
  }
  int status = 0;
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
  Result r;
  if (!sh->done) {
    std::string err = slurp(fe);
    if (WIFSIGNALED(status)) {
      int s = WTERMSIG(status);
      if (s == SIGPROF) {
        r.violated = 1;
        r.cls = "hang";
        r.detail = "the run used more than its bound of CPU time without finishing";
      } else if (s == SIGALRM || s == SIGKILL) {
        r.violated = 2;
        r.cls = "HARNESS-ERROR";
        r.detail = s == SIGKILL ? "run killed (SIGKILL)" : "wall clock limit reached (machine overloaded?)";
      } else {
        r.violated = 1;
        std::string site = crash_site(err);
        r.cls = std::string("crash:") + (s == SIGABRT ? "SIGABRT" : s == SIGSEGV ? "SIGSEGV" : s == SIGFPE ? "SIGFPE" : s == SIGBUS ? "SIGBUS" : std::to_string(s)) +
                (site.empty() ? "" : ":" + site);
        r.detail = "the process died: " + last_line(err);
      }
    } else {
      r.violated = 1;
      r.cls = "exit:" + std::to_string(WEXITSTATUS(status));
      r.detail = "the library ended the process: " + last_line(err);
    }
    for (char& c : r.cls) if (c == '\n') c = ' ';
    r.hash = mix(sh->hash, hash_str(r.cls));
  } else {
    r.violated = sh->violated;
    r.cls = sh->cls;
    r.detail = sh->detail;
    r.hash = mix(sh->hash, hash_str(r.cls));
  }
  r.cover = sh->cover;
  r.steps = sh->steps;
  r.sim_time = sh->sim_time;
  r.nontrivial = sh->nontrivial;
  if (r.violated && sh->nswitches) r.switches.assign(sh->switches, sh->switches + 2 * std::min(sh->nswitches, kMaxSwitches));
  return r;
}

int tuple_width(const std::string& k) { return k.size() > 2 && k[0] == 'L' && isdigit(k[1]) && k[2] == '.' ? k[1] - '0' : 0; }

// Delta-debugging on the lists, then shrinking of the scalars, preserving the violation class.
Plan minimise(const Prop& p, Plan plan, const std::string& cls, double seconds, int& tries) {
  double end = wall() + seconds;
  auto still = [&](const Plan& q) {
    tries++;
    Result r = run_plan(p, q);
    return r.violated == 1 && r.cls == cls;
  };
  bool hang = cls == "hang";
  if (hang) end = wall() + seconds / 2;
  for (int round = 0; round < 3 && wall() < end; round++) {
    std::string before = plan.text();
    std::vector<std::string> keys;
    for (auto& kv : plan.m) keys.push_back(kv.first);
    for (auto& k : keys) {
      int w = tuple_width(k);
      if (!w || plan.list(k).empty()) continue;
      Plan q = plan;
      q.m[k].clear();
      if (still(q)) { plan = q; continue; }
      int64_t n = int64_t(plan.list(k).size()) / w;
      for (int64_t chunk = std::max<int64_t>(1, n / 2); chunk >= 1 && wall() < end; chunk /= 2) {
        for (int64_t at = 0; at < int64_t(plan.list(k).size()) / w && wall() < end;) {
          Plan q = plan;
          auto& v = q.m[k];
          int64_t e = std::min<int64_t>(int64_t(v.size()), (at + chunk) * w);
          v.erase(v.begin() + at * w, v.begin() + e);
          if (still(q)) plan = q; else at += chunk;
        }
      }
    }
    for (auto& k : keys) {
      if (wall() > end) break;
      if (tuple_width(k) || plan.list(k).size() != 1) continue;
      int64_t v = plan.get(k);
      if (v == 0) continue;
      for (int64_t c : {int64_t(0), int64_t(1), v / 2, v * 3 / 4, v - 1}) {
        if (c == v || std::llabs(c) >= std::llabs(v) || wall() > end) continue;
        Plan q = plan;
        q.set(k, c);
        if (still(q)) { plan = q; v = c; if (c == 0) break; }
      }
    }
    if (plan.text() == before) break;
  }
  return plan;
}

std::string json_str(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o + "\"";
}

void write_replay(const std::string& path, const Prop& p, const Plan& plan, const Result& r, uint64_t seed, int64_t index) {
  std::ofstream f(path);
  f << "@property: " << p.id << "\n@variant: " << (p.inst ? "inst" : "plain") << "\n@class: " << r.cls
    << "\n@hash: " << (p.nondet ? 0 : r.hash) << "\n@seed: " << seed << "\n@index: " << index << "\n@detail: " << r.detail
    << "\n@plan\n" << plan.text() << "@trace\n";
  f.close();
  run_plan(p, plan, path.c_str());
}

const Prop* find(const std::string& id) {
  for (auto& p : props()) if (id == p.id) return &p;
  return nullptr;
}

struct Known { std::string prop, cls; };

int cmd_batch(char** a) {
  const Prop* p = find(a[0]);
  if (!p) { fprintf(stderr, "unknown property %s\n", a[0]); return 2; }
  uint64_t seed = strtoull(a[1], nullptr, 10);
  int worker = atoi(a[2]), nworkers = atoi(a[3]);
  double seconds = atof(a[4]);
  int64_t maxruns = atoll(a[5]);
  std::string outdir = a[6];
  bool thorough = !strcmp(a[7], "thorough");
  std::vector<Known> known;
  {
    std::ifstream f(a[8]);
    std::string l;
    while (std::getline(f, l)) {
      auto t = l.find('\t');
      if (t != std::string::npos && l.substr(0, t) == p->id) known.push_back({l.substr(0, t), l.substr(t + 1)});
    }
  }
  double t0 = wall(), end = t0 + seconds;
  uint64_t runs = 0, steps = 0, nontriv = 0, rechecked = 0, unrep = 0;
  double simt = 0;
  std::set<uint64_t> covers;
  std::map<std::string, uint64_t> counters, known_hits, known_first;
  std::vector<std::string> samples;
  std::string viol;
  bool timed_out = false;
  for (int64_t i = worker; i < maxruns; i += nworkers) {
    if (wall() > end) { timed_out = true; break; }
    Rng g(mix(mix(seed, hash_str(p->id)), uint64_t(i)));
    Plan plan = p->gen(g, int(i), thorough);
    Result r = run_plan(*p, plan);
    runs++;
    steps += r.steps;
    simt += r.sim_time;
    for (int k = 0; k < sh->ncounters; k++) counters[sh->counters[k].name] += sh->counters[k].n;
    if (r.nontrivial) { nontriv++; covers.insert(r.cover); }
    if (samples.size() < 2 && r.nontrivial) samples.push_back(plan.text());
    if (r.violated == 2) {
      fprintf(stderr, "harness error in run %ld of %s: %s\n%s\n", long(i), p->id, r.detail.c_str(), plan.text().c_str());
      return 2;
    }
    if (r.violated == 0) {
      if (i % 23 == 0) {
        rechecked++;
        Result r2 = run_plan(*p, plan);
        if (r2.hash != r.hash || r2.violated) {
          unrep++;
          fprintf(stderr, "run %ld of %s is not deterministic (%s)\n%s\n", long(i), p->id, r2.cls.c_str(), plan.text().c_str());
        }
      }
      continue;
    }
    bool isk = false;
    for (auto& k : known)
      if (!fnmatch(k.cls.c_str(), r.cls.c_str(), 0)) { known_hits[k.cls]++; isk = true; break; }
    if (isk) continue;
    // Gate: the same plan must give the same violation twice.
    Result r2 = run_plan(*p, plan);
    if (r2.violated != 1 || r2.cls != r.cls || (!p->nondet && r2.hash != r.hash)) {
      // Not believed. The search goes on; if nothing reproducible turns up, the check ends in an error.
      unrep++;
      fprintf(stderr, "violation %s in run %ld of %s does not reproduce (%s)\n%s\n", r.cls.c_str(), long(i), p->id,
              r2.cls.c_str(), plan.text().c_str());
      if (unrep > 20) break;
      continue;
    }
    if (!r.switches.empty()) {
      Plan q = plan;
      q.set("sched.mode", 0);
      q.mut("L2.switch") = r.switches;
      Result r3 = run_plan(*p, q);
      if (r3.violated == 1 && r3.cls == r.cls) plan = q;
    }
    int tries = 0;
    Plan m = minimise(*p, plan, r.cls, thorough ? 60 : 40, tries);
    Result rm = run_plan(*p, m);
    std::string path = outdir + "/" + p->id + "-" + std::to_string(seed) + "-" + std::to_string(i) + ".replay";
    write_replay(path, *p, m, rm, seed, i);
    std::ostringstream o;
    o << "{\"class\":" << json_str(rm.cls) << ",\"detail\":" << json_str(rm.detail) << ",\"replay\":" << json_str(path)
      << ",\"index\":" << i << ",\"minimise_runs\":" << tries << ",\"plan\":" << json_str(m.text()) << "}";
    viol = o.str();
    break;
  }
  std::string of = outdir + "/" + p->id + ".w" + std::to_string(worker) + ".json";
  std::ofstream f(of);
  f.precision(17);
  f << "{\"runs\":" << runs << ",\"steps\":" << steps << ",\"nontrivial\":" << nontriv << ",\"rechecked\":" << rechecked << ",\"unreproducible\":" << unrep
    << ",\"sim_time\":" << simt << ",\"wall\":" << wall() - t0 << ",\"timed_out\":" << (timed_out ? "true" : "false") << ",\"covers\":[";
  bool first = true;
  for (auto c : covers) { if (!first) f << ","; first = false; f << "\"" << std::hex << c << std::dec << "\""; }
  f << "],\"counters\":{";
  first = true;
  for (auto& c : counters) { if (!first) f << ","; first = false; f << json_str(c.first) << ":" << c.second; }
  f << "},\"known\":{";
  first = true;
  for (auto& c : known_hits) { if (!first) f << ","; first = false; f << json_str(c.first) << ":" << c.second; }
  f << "},\"samples\":[";
  first = true;
  for (auto& s : samples) { if (!first) f << ","; first = false; f << json_str(s.substr(0, 1500)); }
  f << "],\"violation\":" << (viol.empty() ? "null" : viol) << "}\n";
  return 0;
}

int cmd_replay(const char* file, bool verbose) {
  std::ifstream f(file);
  if (!f) { fprintf(stderr, "cannot read %s\n", file); return 2; }
  std::string l, prop, cls, plan;
  uint64_t hash = 0;
  bool in_plan = false;
  while (std::getline(f, l)) {
    if (l == "@trace") break;
    if (l == "@plan") { in_plan = true; continue; }
    if (in_plan) { plan += l + "\n"; continue; }
    if (!l.compare(0, 11, "@property: ")) prop = l.substr(11);
    if (!l.compare(0, 8, "@class: ")) cls = l.substr(8);
    if (!l.compare(0, 7, "@hash: ")) hash = strtoull(l.c_str() + 7, nullptr, 10);
  }
  const Prop* p = find(prop);
  if (!p) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
  Result r = run_plan(*p, Plan::parse(plan), verbose ? "/dev/stdout" : nullptr);
  printf("replay property=%s class=%s hash=%lu\n  %s\n", prop.c_str(), r.violated ? r.cls.c_str() : "(no violation)", (unsigned long)r.hash, r.detail.c_str());
  bool same = r.violated == 1 && r.cls == cls && (p->nondet || hash == 0 || r.hash == hash);
  printf("%s\n", same ? "reproduced" : "NOT reproduced");
  return same ? 0 : 3;
}

// Prints the hash of every run in a range of seeds: two processes must print the same.
int cmd_hashes(char** a) {
  const Prop* p = find(a[0]);
  if (!p) return 2;
  uint64_t seed = strtoull(a[1], nullptr, 10);
  for (int64_t i = atoll(a[2]); i < atoll(a[3]); i++) {
    Rng g(mix(mix(seed, hash_str(p->id)), uint64_t(i)));
    Result r = run_plan(*p, p->gen(g, int(i), getenv("SIM_THOROUGH") != nullptr));
    printf("%ld %016lx %s\n", long(i), (unsigned long)r.hash, r.cls.c_str());
  }
  return 0;
}

int cmd_one(char** a) {
  const Prop* p = find(a[0]);
  if (!p) return 2;
  uint64_t seed = strtoull(a[1], nullptr, 10);
  int64_t i = atoll(a[2]);
  Rng g(mix(mix(seed, hash_str(p->id)), uint64_t(i)));
  Plan plan = p->gen(g, int(i), getenv("SIM_THOROUGH") != nullptr);
  printf("%s", plan.text().c_str());
  fflush(stdout);
  Result r = run_plan(*p, plan, "/dev/stdout");
  printf("=> %d %s | %s | steps %lu\n", r.violated, r.cls.c_str(), r.detail.c_str(), (unsigned long)r.steps);
  return 0;
}

// Survey: run many seeds, report the frequency of each violation class (development aid).
int cmd_survey(char** a) {
  const Prop* p = find(a[0]);
  if (!p) return 2;
  uint64_t seed = strtoull(a[1], nullptr, 10);
  std::map<std::string, std::pair<int, std::string>> h;
  std::map<std::string, uint64_t> counters;
  double t0 = wall();
  for (int64_t i = atoll(a[2]); i < atoll(a[3]); i++) {
    Rng g(mix(mix(seed, hash_str(p->id)), uint64_t(i)));
    Result r = run_plan(*p, p->gen(g, int(i), getenv("SIM_THOROUGH") != nullptr));
    for (int k = 0; k < sh->ncounters; k++) counters[sh->counters[k].name] += sh->counters[k].n;
    auto& e = h[r.violated ? r.cls : "ok"];
    if (!e.first++) e.second = std::to_string(i) + " " + r.detail;
  }
  for (auto& e : h) printf("%6d  %-60s first: %s\n", e.second.first, e.first.c_str(), e.second.second.c_str());
  for (auto& c : counters) printf("    %s=%lu", c.first.c_str(), (unsigned long)c.second);
  printf("\n%.1f s\n", wall() - t0);
  return 0;
}

} // namespace

int main(int argc, char** argv) {
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::string c = argc > 1 ? argv[1] : "";
  if (c == "batch" && argc == 11) return cmd_batch(argv + 2);
  if (c == "replay" && argc >= 3) return cmd_replay(argv[2], argc > 3);
  if (c == "hashes" && argc == 6) return cmd_hashes(argv + 2);
  if (c == "survey" && argc == 6) return cmd_survey(argv + 2);
  if (c == "one" && argc == 5) return cmd_one(argv + 2);
  if (c == "list") { for (auto& p : props()) printf("%s %s\n", p.id, p.inst ? "inst" : "plain"); return 0; }
  fprintf(stderr, "usage: sim batch|replay|hashes|survey|one|list ...\n");
  return 2;
}
