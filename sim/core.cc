#include "core.hh"

#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <new>
#include <random>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {

Shared* sh;
FILE* trace;
uint64_t step_limit = 2000000;

uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15ull + (a << 6) + (a >> 2));
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
uint64_t hash_str(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}

std::string Plan::text() const {
  std::ostringstream o;
  for (auto& kv : m) {
    o << kv.first << ":";
    for (auto x : kv.second) o << " " << x;
    o << "\n";
  }
  return o.str();
}
Plan Plan::parse(const std::string& t) {
  Plan p;
  std::istringstream is(t);
  std::string line;
  while (std::getline(is, line)) {
    if (line.empty() || line[0] == '#') continue;
    auto pos = line.find(':');
    if (pos == std::string::npos) continue;
    std::istringstream ls(line.substr(pos + 1));
    std::vector<int64_t> v;
    int64_t x;
    while (ls >> x) v.push_back(x);
    p.m[line.substr(0, pos)] = v;
  }
  return p;
}

void ev(const char* tag, int64_t a, int64_t b, int64_t c) {
  uint64_t h = sh->hash;
  for (const char* p = tag; *p; p++) h = (h ^ (unsigned char)*p) * 1099511628211ull;
  h = mix(h, uint64_t(a));
  h = mix(h, uint64_t(b));
  sh->hash = mix(h, uint64_t(c));
  if (trace) fprintf(trace, "# %s %ld %ld %ld\n", tag, long(a), long(b), long(c));
}
void evd(const char* tag, double a, double b) {
  uint64_t x, y;
  memcpy(&x, &a, 8);
  memcpy(&y, &b, 8);
  FILE* t = trace;
  trace = nullptr;
  ev(tag, int64_t(x), int64_t(y));
  trace = t;
  if (trace) fprintf(trace, "# %s %.17g %.17g\n", tag, a, b);
}
void cover(uint64_t h) { sh->cover = mix(sh->cover, h); }
void count(const char* name, uint64_t n) {
  for (int i = 0; i < sh->ncounters; i++)
    if (!strcmp(sh->counters[i].name, name)) { sh->counters[i].n += n; return; }
  if (sh->ncounters == kMaxCounters) return;
  auto& c = sh->counters[sh->ncounters++];
  snprintf(c.name, sizeof c.name, "%s", name);
  c.n = n;
}
uint64_t counter(const char* name) {
  for (int i = 0; i < sh->ncounters; i++)
    if (!strcmp(sh->counters[i].name, name)) return sh->counters[i].n;
  return 0;
}
void violate(const std::string& cls, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(sh->detail, sizeof sh->detail, fmt, ap);
  va_end(ap);
  snprintf(sh->cls, sizeof sh->cls, "%s", cls.c_str());
  for (char* p = sh->cls; *p; p++) if (*p == '\n' || *p == '\r') *p = ' ';
  for (char* p = sh->detail; *p; p++) if (*p == '\n' || *p == '\r') *p = ' ';
  sh->violated = 1;
  sh->done = 1;
  if (trace) fflush(trace);
  _exit(0);
}
void harness_error(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(sh->detail, sizeof sh->detail, fmt, ap);
  va_end(ap);
  snprintf(sh->cls, sizeof sh->cls, "HARNESS-ERROR");
  sh->violated = 2;
  sh->done = 1;
  _exit(0);
}
void step() {
  if (++sh->steps > step_limit) violate("no-progress", "no end after %lu simulator events", (unsigned long)step_limit);
}

std::vector<Prop>& props() {
  static std::vector<Prop> p;
  return p;
}

// ---------------------------------------------------------------- sub-processes
bool Sub::exited() const { return WIFEXITED(status); }
int Sub::code() const { return WIFEXITED(status) ? WEXITSTATUS(status) : -1; }
int Sub::sig() const { return WIFSIGNALED(status) ? WTERMSIG(status) : 0; }

static std::string slurp_fd(int fd) {
  std::string s;
  char buf[4096];
  off_t off = 0;
  ssize_t n;
  while ((n = pread(fd, buf, sizeof buf, off)) > 0) { s.append(buf, size_t(n)); off += n; if (s.size() > (1u << 20)) break; }
  return s;
}

Sub run_sub(const std::function<void()>& f, const std::string& input, bool input_null, double cpu) {
  Sub r;
  int fo = memfd_create("out", 0), fe = memfd_create("err", 0);
  int fi = input_null ? open("/dev/null", O_RDONLY) : memfd_create("in", 0);
  if (!input_null) {
    if (::write(fi, input.data(), input.size()) != ssize_t(input.size())) abort();
    lseek(fi, 0, SEEK_SET);
  }
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    dup2(fi, 0); dup2(fo, 1); dup2(fe, 2);
    if (trace) { fclose(trace); trace = nullptr; }
    struct itimerval tv;
    memset(&tv, 0, sizeof tv);
    double lim = cpu > 0 ? cpu : 8;
    tv.it_value.tv_sec = long(lim);
    tv.it_value.tv_usec = long((lim - long(lim)) * 1e6);
    setitimer(ITIMER_PROF, &tv, nullptr);
    alarm(120);
    [&]() noexcept { f(); }();   // an exception nobody catches ends the process, as it would outside
    _exit(0);
  }
  while (waitpid(pid, &r.status, 0) < 0) {}
  r.out = slurp_fd(fo);
  r.err = slurp_fd(fe);
  close(fo); close(fe); close(fi);
  return r;
}

// ---------------------------------------------------------------- simulated environment
namespace env {
bool on = false;
uint64_t now_ns = 1700000000ull * 1000000000ull;
uint64_t cpu_us = 0;
uint64_t entropy = 0x1234;
int64_t clock_tick_us = 0;
int64_t alloc_fail_at = -1;
int64_t alloc_count = 0;
uint64_t alloc_limit = 256ull << 20;
int64_t alloc_fired = 0;
}
} // namespace sim

using namespace sim;

// The clock, entropy and allocation seams are link-time: the definitions below take precedence over the shared
// libraries' for the system under test and for libstdc++.
extern "C" {
clock_t clock(void) {
  if (env::on) {
    env::cpu_us += uint64_t(env::clock_tick_us);
    ev("clock", int64_t(env::cpu_us));
    return clock_t(env::cpu_us);
  }
  struct timespec ts;
  static auto real = (int (*)(clockid_t, struct timespec*))dlsym(RTLD_NEXT, "clock_gettime");
  real(CLOCK_PROCESS_CPUTIME_ID, &ts);
  return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}
int clock_gettime(clockid_t id, struct timespec* ts) {
  if (env::on) {
    env::now_ns += 1000;
    ts->tv_sec = time_t(env::now_ns / 1000000000ull);
    ts->tv_nsec = long(env::now_ns % 1000000000ull);
    return 0;
  }
  static auto real = (int (*)(clockid_t, struct timespec*))dlsym(RTLD_NEXT, "clock_gettime");
  return real(id, ts);
}
time_t time(time_t* t) {
  time_t r;
  if (env::on) { env::now_ns += 1000; r = time_t(env::now_ns / 1000000000ull); }
  else { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); r = ts.tv_sec; }
  if (t) *t = r;
  return r;
}
int gettimeofday(struct timeval* tv, void*) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
ssize_t getrandom(void* p, size_t n, unsigned) {
  Rng r(env::entropy);
  for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)r.next();
  env::entropy = r.s;
  return ssize_t(n);
}
int getentropy(void* p, size_t n) { getrandom(p, n, 0); return 0; }
pid_t getpid(void) {
  static auto real = (pid_t (*)())dlsym(RTLD_NEXT, "getpid");
  if (env::on) return pid_t(env::entropy % 30000 + 2);
  return real();
}
}
// std::random_device
std::random_device::result_type std::random_device::_M_getval() {
  Rng r(env::entropy);
  uint64_t x = r.next();
  env::entropy = r.s;
  return (unsigned)x;
}

static void* sim_alloc(size_t n) {
  if (env::on) {
    env::alloc_count++;
    if (env::alloc_fail_at >= 0 && env::alloc_fail_at-- == 0) { env::alloc_fired++; throw std::bad_alloc(); }
    if (n > env::alloc_limit) { throw std::bad_alloc(); }
  }
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
extern "C" void sim_note_alloc(void*, size_t);
void* operator new(size_t n) { void* p = sim_alloc(n); sim_note_alloc(p, n); return p; }
void* operator new[](size_t n) { void* p = sim_alloc(n); sim_note_alloc(p, n); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
