// The OpenMP runtime the system under test is linked with: teams of simulated threads, exactly one of which runs at a
// time. Every scheduling decision is taken here, from the plan. In the instrumented build every memory access of the
// system under test is a potential preemption point and feeds a vector-clock happens-before race detector.
#include "par.hh"

#include <algorithm>
#include <array>
#include <cerrno>
#include <climits>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <unordered_map>
#include <vector>
#include <map>

using namespace sim;

namespace sim { namespace par {

Config cfg;
const char* ignore_from; const char* ignore_to;
std::string race_tag;
const char* engine_from; const char* engine_to;

namespace {
const int MAXT = 8;
typedef std::array<uint32_t, MAXT> VC;

struct Loop { long start, end, incr, chunk, next; bool ull; bool up; int kind; int left; bool init; };
struct Work { Loop loop; int arrived = 0, ended = 0; int single_taken = 0; long sections_next = 0, sections_count = 0; void* copy = nullptr; int copies = 0; long turn = 0; std::map<long, long>* finished = nullptr; };
struct Thread {
  int id = 0;
  sem_t sem;
  bool runnable = false, finished = true, blocked = false;
  uint64_t prio = 0;
  uint64_t work = 0;       // index of the work-sharing construct this thread is in
  std::vector<long> st;    // static loop state
  long static_next = 0;
  bool static_done = false, in_chunk = false;
  long chunk_start = 0, chunk_end = 0;
  uint64_t barrier_seen = 0;
  pthread_t pt;
  bool started = false;
};
struct Team {
  int n = 1;
  void (*fn)(void*) = nullptr;
  void* data = nullptr;
  uint64_t barrier_gen = 0;
  int barrier_in = 0;
  std::map<uint64_t, Work> works;
};
Thread T[MAXT];
Team G;
bool active = false;         // a team of more than one thread is running
int cur = 0;
thread_local int tl_id = 0;
thread_local int tl_level = 0;
int max_threads = 4;
int64_t yields = 0;
uint64_t n_regions = 0, n_preempt = 0;
Rng rng(1);
std::vector<int64_t> explicit_sw;
size_t ex_pos = 0;
std::vector<int64_t> change_points;
int64_t region_yield0 = 0;

VC vc[MAXT];
struct Access { int8_t tid; bool w; uint8_t mask; uint32_t clk; const void* pc; };
struct Cell { uint8_t n = 0; Access a[6]; };
std::unordered_map<uintptr_t, Cell>* shadow;
std::unordered_map<uintptr_t, VC>* syncs;
struct CritState { int owner = -1; int depth = 0; };
std::map<uintptr_t, CritState>* locks;
thread_local bool in_rt = false;   // this thread is inside the runtime or the harness: no preemption, no shadow
struct In { bool was; In(): was(in_rt) { in_rt = true; } ~In() { in_rt = was; } };

void record(int64_t idx, int to) {
  n_preempt++;
  if (sh->nswitches < kMaxSwitches) {
    sh->switches[2 * sh->nswitches] = int32_t(idx);
    sh->switches[2 * sh->nswitches + 1] = to;
    sh->nswitches++;
  }
}

std::vector<int> runnable_threads() {
  std::vector<int> v;
  for (int i = 0; i < G.n; i++) if (T[i].runnable && !T[i].finished) v.push_back(i);
  return v;
}

int choose(bool must, int64_t idx) {
  auto rs = runnable_threads();
  if (rs.empty()) return -1;
  switch (cfg.mode) {
  case 0: {
    while (ex_pos + 1 < explicit_sw.size() && explicit_sw[ex_pos] < idx) ex_pos += 2;
    if (ex_pos + 1 < explicit_sw.size() && explicit_sw[ex_pos] == idx) {
      int t = int(explicit_sw[ex_pos + 1]);
      ex_pos += 2;
      for (int x : rs) if (x == t) return t;
    }
    return must ? rs[0] : cur;
  }
  case 1:
    if (!must && !rng.chance(1, int(std::min<int64_t>(cfg.period, 1000000)))) return cur;
    return rng.pick(rs);
  case 2: {
    bool changed = false;
    while (!change_points.empty() && change_points.back() <= idx - region_yield0) {
      change_points.pop_back();
      T[cur].prio = change_points.size();   // below every initial priority
      changed = true;
    }
    if (!must && !changed) return cur;
    int best = rs[0];
    for (int x : rs) if (T[x].prio > T[best].prio) best = x;
    return best;
  }
  default:
    if (!must) return cur;
    return rng.pick(rs);
  }
}

void hand_over(int to) {
  int me = tl_id;
  cur = to;
  if (to == me) return;
  sem_post(&T[to].sem);
  while (sem_wait(&T[me].sem) && errno == EINTR) {}
}

void sched(bool must) {
  In in;
  int64_t idx = ++yields;
  int to = choose(must, idx);
  if (to < 0) {
    violate("deadlock", "every simulated thread is blocked");
  }
  if (to != cur || must) {
    if (to != cur) { record(idx, to); ev("switch", idx, to); cover(uint64_t(to) * 131 + uint64_t(idx)); }
    hand_over(to);
  }
}

void wake_all() { for (int i = 0; i < G.n; i++) if (!T[i].finished) T[i].runnable = true; }

void join(VC& a, const VC& b) { for (int i = 0; i < MAXT; i++) a[i] = std::max(a[i], b[i]); }
void sync_acquire(uintptr_t k) { if (!active) return; In in; auto it = syncs->find(k); if (it != syncs->end()) join(vc[tl_id], it->second); }
void sync_release(uintptr_t k) { if (!active) return; In in; auto& s = (*syncs)[k]; join(s, vc[tl_id]); vc[tl_id][tl_id]++; }

void run_thread_body(int id) {
  tl_id = id;
  tl_level = 1;
  in_rt = false;
  G.fn(G.data);
  in_rt = true;
  tl_level = 0;
}

void* thread_main(void* arg) {
  int id = int(intptr_t(arg));
  tl_id = id;
  in_rt = true;
  for (;;) {
    while (sem_wait(&T[id].sem) && errno == EINTR) {}
    run_thread_body(id);
    T[id].finished = true;
    T[id].runnable = false;
    wake_all();
    ++yields;
    int to = choose(true, yields);
    if (to < 0) {
      if (!T[0].finished) violate("deadlock", "no simulated thread can run");
      to = 0;
    }
    record(yields, to);
    ev("end", id, to);
    cur = to;
    sem_post(&T[to].sem);
  }
  return nullptr;
}

bool all_done(void*) { for (int i = 1; i < G.n; i++) if (!T[i].finished) return false; return true; }

void parallel(void (*fn)(void*), void* data, unsigned num) {
  n_regions++;
  int want = num ? int(num) : max_threads;
  if (active || tl_level > 0) {
    // nested region: one thread
    bool a = active;
    fn(data);
    active = a;
    return;
  }
  want = std::max(1, std::min(want, MAXT));
  int n = std::max(1, want - cfg.shrink);
  if (n < want) count("fault:fewer-threads");
  In in;
  Team saved = G;
  G = Team();
  G.n = n;
  G.fn = fn;
  G.data = data;
  ev("region", n);
  if (n == 1) {
    tl_level = 1;
    in_rt = in.was;
    fn(data);
    in_rt = true;
    tl_level = 0;
    G = saved;
    return;
  }
  if (!shadow) {
    shadow = new std::unordered_map<uintptr_t, Cell>;
    syncs = new std::unordered_map<uintptr_t, VC>;
    locks = new std::map<uintptr_t, CritState>;
  }
  shadow->clear();
  syncs->clear();
  locks->clear();
  for (int i = 0; i < MAXT; i++) { vc[i].fill(0); vc[i][i] = 1; }
  region_yield0 = yields;
  change_points.clear();
  if (cfg.mode == 2) {
    for (int i = 0; i < cfg.depth; i++) change_points.push_back(rng.range(1, std::max<int64_t>(1, cfg.horizon)));
    std::sort(change_points.rbegin(), change_points.rend());
  }
  for (int i = 0; i < n; i++) {
    Thread& t = T[i];
    t.id = i;
    if (!t.started) {
      sem_init(&t.sem, 0, 0);
      if (i > 0) {
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 1 << 20);
        if (pthread_create(&t.pt, &at, thread_main, (void*)intptr_t(i))) harness_error("cannot create a thread");
        pthread_attr_destroy(&at);
      }
      t.started = true;
    }
    t.finished = false;
    t.runnable = true;
    t.work = 0;
    t.static_done = false;
    t.prio = 100 + rng.next() % 1000000;
  }
  cur = 0;
  active = true;
  sched(false);
  run_thread_body(0);
  // Implicit barrier: wait for the others.
  tl_id = 0;
  T[0].finished = true;
  while (!all_done(nullptr)) {
    T[0].finished = true;
    T[0].runnable = false;
    int64_t idx = ++yields;
    int to = choose(true, idx);
    if (to < 0) {
      // nobody can run
      violate("deadlock", "no simulated thread can run");
    }
    record(idx, to);
    ev("wait", to);
    cur = to;
    sem_post(&T[to].sem);
    while (sem_wait(&T[0].sem) && errno == EINTR) {}
  }
  active = false;
  cur = 0;
  G = saved;
  ev("endregion", yields - region_yield0);
}

} // namespace

void configure(const Plan& p) {
  cfg.mode = int(p.get("sched.mode", 1, 0, 3));
  cfg.seed = uint64_t(p.get("sched.seed", 1));
  cfg.period = p.get("sched.period", 50, 1, 1000000);
  cfg.horizon = p.get("sched.horizon", 2000, 1, 10000000);
  cfg.depth = int(p.get("sched.depth", 3, 0, 20));
  cfg.shrink = int(p.get("sched.shrink", 0, 0, 7));
  rng = Rng(cfg.seed);
  explicit_sw = p.list("L2.switch");
  ex_pos = 0;
  yields = 0;
}
void gen(Plan& p, Rng& r, bool inst) {
  p.set("sched.mode", r.pick(std::vector<int>{1, 1, 1, 2, 2, 3}));
  p.set("sched.seed", int64_t(r.next() >> 2));
  p.set("sched.period", inst ? r.pick(std::vector<int>{3, 10, 40, 150, 600, 3000}) : r.pick(std::vector<int>{2, 3, 5, 10}));
  p.set("sched.horizon", inst ? r.pick(std::vector<int>{50, 500, 5000, 50000}) : r.pick(std::vector<int>{10, 50, 200}));
  p.set("sched.depth", r.range(1, 6));
  p.set("sched.shrink", r.chance(1, 6) ? r.range(1, 3) : 0);
}
void yield_point(int) { if (active && !in_rt) sched(false); }
int self() { return active ? tl_id : 0; }
int team() { return active ? G.n : 1; }
bool in_region() { return active; }
Shield::Shield(): was(in_rt) { in_rt = true; }
Shield::~Shield() { in_rt = was; }
uint64_t regions() { return n_regions; }
uint64_t preemptions() { return n_preempt; }

// ---------------------------------------------------------------- race detector
namespace {
const char* site(const void* pc, char* buf, size_t n) {
  Dl_info i;
  if (dladdr(pc, &i) && i.dli_sname) snprintf(buf, n, "%s", i.dli_sname); else snprintf(buf, n, "?");
  return buf;
}

void touch(uintptr_t a, size_t n, bool w, const void* pc) {
  int me = tl_id;
  if ((const char*)a >= ignore_from && (const char*)a < ignore_to) return;
  In in;
  while (n > 0) {
    uintptr_t g = a >> 3;
    size_t off = a & 7, len = std::min<size_t>(n, 8 - off);
    uint8_t mask = uint8_t(((1u << len) - 1) << off);
    Cell& c = (*shadow)[g];
    int slot = -1;
    for (int i = 0; i < c.n; i++) {
      Access& x = c.a[i];
      if (x.tid == me) {
        if (x.w == w && x.clk == vc[me][me]) { x.mask |= mask; slot = i; }
        continue;
      }
      if ((x.mask & mask) && (x.w || w) && x.clk > vc[me][x.tid]) {
        char b1[300], b2[300];
        site(pc, b1, sizeof b1);
        site(x.pc, b2, sizeof b2);
        std::string s1 = b1, s2 = b2;
        if (s2 < s1) std::swap(s1, s2);
        active = false;
        bool eng = (const char*)a >= engine_from && (const char*)a < engine_to;
        violate(eng ? "data-race:generator" + race_tag : "data-race", "two threads access the same memory without synchronisation, one of them writing: %s of %zu bytes by thread %d in %s, earlier %s by thread %d in %s",
                w ? "write" : "read", len, me, b1, x.w ? "write" : "read", x.tid, b2);
      }
    }
    if (slot < 0) {
      // replace an own older entry of the same kind, else take a free slot, else evict
      for (int i = 0; i < c.n; i++) if (c.a[i].tid == me && c.a[i].w == w && (c.a[i].mask & ~mask) == 0) { slot = i; break; }
      if (slot < 0) slot = c.n < 6 ? c.n++ : int((g + vc[me][me]) % 6);
      c.a[slot] = Access{int8_t(me), w, mask, vc[me][me], pc};
    }
    a += len;
    n -= len;
  }
}
inline void access(const void* p, size_t n, bool w, const void* pc) {
  if (!active || in_rt) return;
  if (cfg.races) touch(uintptr_t(p), n, w, pc);
  sched(false);
}
} // namespace
} } // namespace sim::par

using namespace sim::par;

extern "C" void sim_note_alloc(void* p, size_t n) {
  if (!active || in_rt || !shadow) return;
  In in;
  uintptr_t a = uintptr_t(p) >> 3, b = (uintptr_t(p) + n + 7) >> 3;
  if (b - a > 4096) {
    for (auto it = shadow->begin(); it != shadow->end();) if (it->first >= a && it->first < b) it = shadow->erase(it); else ++it;
  } else
    for (; a < b; a++) shadow->erase(a);
}

extern "C" {
// malloc family of the linked objects (see --wrap in build.py)
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); sim_note_alloc(p, n); return p; }
void* __wrap_calloc(size_t a, size_t b) { void* p = __real_calloc(a, b); sim_note_alloc(p, a * b); return p; }
void* __wrap_realloc(void* q, size_t n) { void* p = __real_realloc(q, n); sim_note_alloc(p, n); return p; }

void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
#ifdef SIM_INST
#define PC __builtin_return_address(0)
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (n) { access(s, n, false, PC); access(d, n, true, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (n) { access(s, n, false, PC); access(d, n, true, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (n) access(d, n, true, PC); return __real_memset(d, c, n); }
#define RW(n) \
  void __tsan_read##n(void* p) { access(p, n, false, PC); } \
  void __tsan_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } \
  void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, PC); } \
  void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_read_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_unaligned_read_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { if (n) access(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { if (n) access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_init() {}
void __tsan_atomic_thread_fence(int) { }
void __tsan_atomic_signal_fence(int) {}
#define AT(bits, T) \
  static inline void at_pre##bits(volatile T* a) { if (active && !in_rt) { sched(false); sync_acquire(uintptr_t(a)); } } \
  static inline void at_post##bits(volatile T* a) { if (active && !in_rt) sync_release(uintptr_t(a)); } \
  T __tsan_atomic##bits##_load(const volatile T* a, int) { at_pre##bits((volatile T*)a); return *a; } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int) { at_pre##bits(a); *a = v; at_post##bits(a); } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { at_pre##bits(a); T o = *a; *a = v; at_post##bits(a); return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { at_pre##bits(a); T o = *a; *a = T(o + v); at_post##bits(a); return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { at_pre##bits(a); T o = *a; *a = T(o - v); at_post##bits(a); return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { at_pre##bits(a); T o = *a; *a = T(o & v); at_post##bits(a); return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { at_pre##bits(a); T o = *a; *a = T(o | v); at_post##bits(a); return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { at_pre##bits(a); T o = *a; *a = T(o ^ v); at_post##bits(a); return o; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { at_pre##bits(a); T o = *a; *a = T(~(o & v)); at_post##bits(a); return o; } \
  bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { at_pre##bits(a); T o = *a; bool ok = o == *c; if (ok) *a = v; else *c = o; at_post##bits(a); return ok; } \
  bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int m, int f) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, m, f); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
#else
void* __wrap_memcpy(void* d, const void* s, size_t n) { return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { return __real_memset(d, c, n); }
#endif

// ---------------------------------------------------------------- function-local statics
int __cxa_guard_acquire(long long* g) {
  char* b = (char*)g;
  if (active) sync_acquire(uintptr_t(g));
  if (b[0]) return 0;
  while (b[1]) {
    if (!active) abort();
    T[tl_id].runnable = false;
    sched(true);
    T[tl_id].runnable = true;
    if (b[0]) { sync_acquire(uintptr_t(g)); return 0; }
  }
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(long long* g) {
  char* b = (char*)g;
  b[1] = 0;
  b[0] = 1;
  if (active) { sync_release(uintptr_t(g)); wake_all(); }
}
void __cxa_guard_abort(long long* g) { ((char*)g)[1] = 0; if (active) wake_all(); }

// ---------------------------------------------------------------- locks
static void lock(uintptr_t k) {
  if (!active) return;
  In in;
  sched(false);
  while (true) {
    CritState& c = (*locks)[k];
    if (c.owner < 0) { c.owner = tl_id; break; }
    if (c.owner == tl_id) { violate("deadlock", "a thread waits for a lock it holds"); }
    count("lock-contended");
    T[tl_id].runnable = false;
    sched(true);
    T[tl_id].runnable = true;
  }
  sync_acquire(k);
}
static void unlock(uintptr_t k) {
  if (!active) return;
  In in;
  sync_release(k);
  (*locks)[k].owner = -1;
  wake_all();
  sched(false);
}
static char atomic_key, crit_key;
void GOMP_critical_start() { lock(uintptr_t(&crit_key)); }
void GOMP_critical_end() { unlock(uintptr_t(&crit_key)); }
void GOMP_critical_name_start(void** p) { lock(uintptr_t(p)); }
void GOMP_critical_name_end(void** p) { unlock(uintptr_t(p)); }
void GOMP_atomic_start() { lock(uintptr_t(&atomic_key)); }
void GOMP_atomic_end() { unlock(uintptr_t(&atomic_key)); }
typedef struct { int x; } omp_lock_t_;
void omp_init_lock(void*) {}
void omp_destroy_lock(void*) {}
void omp_set_lock(void* p) { lock(uintptr_t(p)); }
void omp_unset_lock(void* p) { unlock(uintptr_t(p)); }
int omp_test_lock(void* p) { In in; if (!active) return 1; if ((*locks)[uintptr_t(p)].owner >= 0) return 0; lock(uintptr_t(p)); return 1; }
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (active && !in_rt) { lock(uintptr_t(m)); return 0; }
  static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  return real ? real(m) : 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (active && !in_rt) { In in; if ((*locks)[uintptr_t(m)].owner >= 0) return EBUSY; lock(uintptr_t(m)); return 0; }
  static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  return real ? real(m) : 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (active && !in_rt) { unlock(uintptr_t(m)); return 0; }
  static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  return real ? real(m) : 0;
}

// ---------------------------------------------------------------- OpenMP
int omp_get_thread_num() { if (active) sched(false); return active ? tl_id : 0; }
int omp_get_num_threads() { return active ? G.n : 1; }
int omp_get_max_threads() { return max_threads; }
int omp_get_num_procs() { return 4; }
void omp_set_num_threads(int n) { max_threads = std::max(1, std::min(n, 8)); }
int omp_in_parallel() { return active; }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
int omp_get_nested() { return 0; }
void omp_set_nested(int) {}
int omp_get_level() { return tl_level; }
int omp_get_thread_limit() { return 8; }
void omp_set_schedule(int, int) {}
int omp_get_team_size(int) { return active ? G.n : 1; }
double omp_get_wtime() { return double(env::now_ns) * 1e-9; }
double omp_get_wtick() { return 1e-6; }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n); }

void GOMP_barrier() {
  if (!active) return;
  uint64_t g = G.barrier_gen;
  sync_release(uintptr_t(&G.barrier_gen));
  if (++G.barrier_in == G.n) { G.barrier_in = 0; G.barrier_gen++; wake_all(); sched(false); }
  else while (G.barrier_gen == g) { T[tl_id].runnable = false; sched(true); T[tl_id].runnable = true; }
  sync_acquire(uintptr_t(&G.barrier_gen));
}

static bool loop_next(long* s, long* e) {
  In in;
  Work& w = G.works[T[tl_id].work];
  Loop& l = w.loop;
  if (active) sched(false);
  auto more = [&](long x) {
    if (l.ull) return l.up ? (unsigned long)x < (unsigned long)l.end : (unsigned long)x > (unsigned long)l.end;
    return l.up ? x < l.end : x > l.end;
  };
  if (l.kind == 0) {
    // static schedule through the runtime
    long chunk = l.chunk;
    long iters = l.up ? (l.end - l.start + l.incr - 1) / l.incr : (l.end - l.start + l.incr + 1) / l.incr;
    if (iters <= 0) return false;
    int n = active ? G.n : 1;
    if (chunk <= 0) {
      if (T[tl_id].static_done) return false;
      T[tl_id].static_done = true;
      long q = iters / n, r = iters % n, id = tl_id;
      long b = id * q + std::min<long>(id, r), len = q + (id < r ? 1 : 0);
      if (!len) return false;
      *s = l.start + b * l.incr;
      *e = l.start + (b + len) * l.incr;
      return true;
    }
    long k = T[tl_id].static_next;
    long b = (k * n + tl_id) * chunk;
    if (b >= iters) return false;
    T[tl_id].static_next++;
    *s = l.start + b * l.incr;
    *e = l.start + std::min(iters, b + chunk) * l.incr;
    return true;
  }
  if (!more(l.next)) return false;
  long chunk = std::max<long>(1, l.chunk);
  *s = l.next;
  long x = l.next;
  for (long i = 0; i < chunk && more(x); i++) x += l.incr;
  *e = x;
  l.next = x;
  return true;
}
static void loop_init(long a, long b, long inc, long chunk, int kind, bool ull, bool up) {
  In in;
  Thread& t = T[tl_id];
  if (active) t.work++;
  Work& w = G.works[t.work];
  t.static_done = false;
  t.static_next = 0;
  if (!active || w.arrived == 0) w.loop = Loop{a, b, inc, chunk, a, ull, up, kind, 0, true};
  w.arrived++;
}
#define LOOPS(name, kind) \
  bool GOMP_loop_##name##_start(long a, long b, long i, long c, long* s, long* e) { loop_init(a, b, i, c, kind, false, i > 0); return loop_next(s, e); } \
  bool GOMP_loop_##name##_next(long* s, long* e) { return loop_next(s, e); } \
  bool GOMP_loop_ull_##name##_start(bool up, unsigned long a, unsigned long b, unsigned long i, unsigned long c, unsigned long* s, unsigned long* e) { loop_init(long(a), long(b), long(i), long(c), kind, true, up); return loop_next((long*)s, (long*)e); } \
  bool GOMP_loop_ull_##name##_next(unsigned long* s, unsigned long* e) { return loop_next((long*)s, (long*)e); }
LOOPS(static, 0) LOOPS(dynamic, 1) LOOPS(guided, 2) LOOPS(nonmonotonic_dynamic, 1) LOOPS(nonmonotonic_guided, 2)
bool GOMP_loop_runtime_start(long a, long b, long i, long* s, long* e) { loop_init(a, b, i, 1, 1, false, i > 0); return loop_next(s, e); }
bool GOMP_loop_runtime_next(long* s, long* e) { return loop_next(s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long i, long* s, long* e) { return GOMP_loop_runtime_start(a, b, i, s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* s, long* e) { return loop_next(s, e); }
bool GOMP_loop_ull_runtime_start(bool up, unsigned long a, unsigned long b, unsigned long i, unsigned long* s, unsigned long* e) { loop_init(long(a), long(b), long(i), 1, 1, true, up); return loop_next((long*)s, (long*)e); }
bool GOMP_loop_ull_runtime_next(unsigned long* s, unsigned long* e) { return loop_next((long*)s, (long*)e); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_start(bool up, unsigned long a, unsigned long b, unsigned long i, unsigned long* s, unsigned long* e) { return GOMP_loop_ull_runtime_start(up, a, b, i, s, e); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_next(unsigned long* s, unsigned long* e) { return loop_next((long*)s, (long*)e); }
// Ordered loops: a chunk enters its ordered region once all chunks before it have finished.
static void chunk_done() {
  In in;
  Thread& t = T[tl_id];
  if (!active || !t.in_chunk) return;
  t.in_chunk = false;
  Work& w = G.works[t.work];
  (*w.finished)[t.chunk_start] = t.chunk_end;
  sync_release(uintptr_t(&w) + 1);
  for (auto it = w.finished->find(w.turn); it != w.finished->end() && it->first != it->second; it = w.finished->find(w.turn)) w.turn = it->second;
  wake_all();
}
static bool ordered_next(long* s, long* e) {
  chunk_done();
  bool more = loop_next(s, e);
  In in;
  Thread& t = T[tl_id];
  if (active && more) { t.in_chunk = true; t.chunk_start = *s; t.chunk_end = *e; }
  return more;
}
static bool ordered_start(long a, long b, long inc, long chunk, int kind, bool ull, bool up, long* s, long* e) {
  loop_init(a, b, inc, chunk, kind, ull, up);
  {
    In in;
    Thread& t = T[tl_id];
    Work& w = G.works[t.work];
    t.in_chunk = false;
    if (active && !w.finished) { w.finished = new std::map<long, long>; w.turn = a; }
  }
  return ordered_next(s, e);
}
void GOMP_ordered_start() {
  if (!active) return;
  In in;
  Thread& t = T[tl_id];
  Work& w = G.works[t.work];
  if (!t.in_chunk) return;
  sched(false);
  while (w.turn != t.chunk_start) { t.runnable = false; sched(true); t.runnable = true; }
  sync_acquire(uintptr_t(&w) + 1);
}
void GOMP_ordered_end() { if (active) sched(false); }
#define OLOOPS(name, kind) \
  bool GOMP_loop_ordered_##name##_start(long a, long b, long i, long c, long* s, long* e) { return ordered_start(a, b, i, c, kind, false, i > 0, s, e); } \
  bool GOMP_loop_ordered_##name##_next(long* s, long* e) { return ordered_next(s, e); } \
  bool GOMP_loop_ull_ordered_##name##_start(bool up, unsigned long a, unsigned long b, unsigned long i, unsigned long c, unsigned long* s, unsigned long* e) { return ordered_start(long(a), long(b), long(i), long(c), kind, true, up, (long*)s, (long*)e); } \
  bool GOMP_loop_ull_ordered_##name##_next(unsigned long* s, unsigned long* e) { return ordered_next((long*)s, (long*)e); }
OLOOPS(static, 0) OLOOPS(dynamic, 1) OLOOPS(guided, 2)
bool GOMP_loop_ordered_runtime_start(long a, long b, long i, long* s, long* e) { return ordered_start(a, b, i, 1, 1, false, i > 0, s, e); }
bool GOMP_loop_ordered_runtime_next(long* s, long* e) { return ordered_next(s, e); }
bool GOMP_loop_ull_ordered_runtime_start(bool up, unsigned long a, unsigned long b, unsigned long i, unsigned long* s, unsigned long* e) { return ordered_start(long(a), long(b), long(i), 1, 1, true, up, (long*)s, (long*)e); }
bool GOMP_loop_ull_ordered_runtime_next(unsigned long* s, unsigned long* e) { return ordered_next((long*)s, (long*)e); }
void GOMP_loop_end_nowait() { chunk_done(); if (active) sched(false); }
void GOMP_loop_end() { chunk_done(); GOMP_barrier(); }
// Combined constructs: every thread joins work-sharing construct number 1.
struct PL { void (*fn)(void*); void* data; long a, b, i, c; int kind; };
static void pl_body(void* p) {
  PL* l = (PL*)p;
  loop_init(l->a, l->b, l->i, l->c, l->kind, false, l->i > 0);
  l->fn(l->data);
}
#define PLOOP(name, kind) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long a, long b, long i, long c, unsigned) { PL l{fn, d, a, b, i, c, kind}; parallel(pl_body, &l, n); }
PLOOP(static, 0) PLOOP(dynamic, 1) PLOOP(guided, 2) PLOOP(nonmonotonic_dynamic, 1) PLOOP(nonmonotonic_guided, 2)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned n, long a, long b, long i, unsigned) { PL l{fn, d, a, b, i, 1, 1}; parallel(pl_body, &l, n); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long a, long b, long i, unsigned f) { GOMP_parallel_loop_runtime(fn, d, n, a, b, i, f); }
bool GOMP_single_start() {
  In in;
  if (!active) return true;
  Thread& t = T[tl_id];
  t.work++;
  sched(false);
  Work& w = G.works[t.work];
  if (w.single_taken) return false;
  w.single_taken = 1;
  return true;
}
void* GOMP_single_copy_start() {
  In in;
  if (!active) return nullptr;
  Thread& t = T[tl_id];
  t.work++;
  Work& w = G.works[t.work];
  if (!w.single_taken) { w.single_taken = 1; return nullptr; }
  while (!w.copy) { T[tl_id].runnable = false; sched(true); T[tl_id].runnable = true; }
  sync_acquire(uintptr_t(&w));
  return w.copy;
}
void GOMP_single_copy_end(void* d) { In in; if (!active) return; Work& w = G.works[T[tl_id].work]; w.copy = d; sync_release(uintptr_t(&w)); wake_all(); }
static unsigned sections_next() { In in; Work& w = G.works[T[tl_id].work]; if (active) sched(false); return w.sections_next < w.sections_count ? unsigned(++w.sections_next) : 0; }
unsigned GOMP_sections_start(unsigned c) { In in; Thread& t = T[tl_id]; if (active) t.work++; Work& w = G.works[t.work]; if (!active || !w.arrived++) { w.sections_next = 0; w.sections_count = c; } return sections_next(); }
unsigned GOMP_sections_next() { return sections_next(); }
void GOMP_sections_end() { GOMP_barrier(); }
void GOMP_sections_end_nowait() {}
struct PS { void (*fn)(void*); void* data; unsigned c; };
static void ps_body(void* p) { PS* s = (PS*)p; { In in; Thread& t = T[tl_id]; if (active) t.work++; Work& w = G.works[t.work]; if (!active || !w.arrived++) { w.sections_next = 0; w.sections_count = s->c; } } s->fn(s->data); }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned c, unsigned) { PS s{fn, d, c}; parallel(ps_body, &s, n); }
void GOMP_task(void (*fn)(void*), void* d, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
  if (cpy) {
    std::vector<char> b(size_t(size + align));
    char* p = (char*)((uintptr_t(b.data()) + uintptr_t(align) - 1) / uintptr_t(align) * uintptr_t(align));
    cpy(p, d);
    fn(p);
  } else fn(d);
}
void GOMP_taskloop(void (*fn)(void*), void* d, void (*cpy)(void*, void*), long size, long align, unsigned, unsigned long, int, long start, long end, long) {
  std::vector<char> b(size_t(size + align));
  char* p = (char*)((uintptr_t(b.data()) + uintptr_t(align) - 1) / uintptr_t(align) * uintptr_t(align));
  if (cpy) cpy(p, d); else memcpy(p, d, size_t(size));
  ((long*)p)[0] = start;
  ((long*)p)[1] = end;
  fn(p);
}
void GOMP_taskloop_ull(void (*fn)(void*), void* d, void (*cpy)(void*, void*), long size, long align, unsigned f, unsigned long n, int q, unsigned long start, unsigned long end, unsigned long step) {
  GOMP_taskloop(fn, d, cpy, size, align, f, n, q, long(start), long(end), long(step));
}
void GOMP_taskyield() {}
void GOMP_taskwait() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
}
