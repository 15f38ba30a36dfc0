#pragma once
#include <unordered_set>
#include "stack.hh"
#include <cstring>
#include <sys/mman.h>
namespace sim {
// ---------------------------------------------------------------- histories of whole runs, for comparison
struct History { uint64_t len; uint64_t hash; uint64_t ops[4000]; int outcome; key_t64 sol; double solv; int calls; uint64_t raw; int repeats; };
inline History* new_history() { return (History*)mmap(nullptr, sizeof(History), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }

inline void record(Run& r, Outcome o, History* h, size_t from = 0) {
  h->len = 0; h->hash = 7;
  for (size_t i = from; i < r.spy->ops.size(); i++) {
    auto& e = r.spy->ops[i];
    if (e.type == SAFE) continue;
    uint64_t b; memcpy(&b, &e.v, 8);
    // An operation of a sequential run (evaluate) and of a parallel one (update) count alike.
    uint64_t c = mix(mixk(e.exc == X_NONE ? b : 0, e.x), uint64_t(e.exc));
    h->hash = mix(h->hash, c);
    if (h->len < 4000) h->ops[h->len] = c;
    h->len++;
  }
  h->outcome = o;
  h->raw = r.led.raw.size();
  if (o == RETURNED || o == BUDGET) {
    if (r.finalize()) { auto s = r.algorithm->get_solution(); h->sol = key_of(s.first); h->solv = s.second; }
    else h->outcome = 100;
  }
  std::unordered_set<key_t64, KeyHash> points;            // also those whose value came from the cache
  for (auto& op : r.spy->ops) if (op.type != SAFE && !points.insert(op.x).second) h->repeats = 1;
  h->calls = r.tracker->get_num_calls();
}
inline void compare(const History* a, const History* b, const std::string& cls, const char* what) {
  if (a->hash != b->hash || a->len != b->len) {
    uint64_t i = 0;
    while (i < a->len && i < b->len && i < 4000 && a->ops[i] == b->ops[i]) i++;
    violate(cls + ":history", "%s: the runs make %lu and %lu evaluations and differ from evaluation %lu on", what, (unsigned long)a->len, (unsigned long)b->len, (unsigned long)(i + 1));
  }
  if (a->outcome != b->outcome) violate(cls + ":outcome", "%s: same evaluations, but one run ends with outcome %d, the other with %d", what, a->outcome, b->outcome);
  if (a->sol != b->sol || memcmp(&a->solv, &b->solv, 8)) violate(cls + ":solution", "%s: same evaluations, but the solutions differ (%.17g and %.17g)", what, a->solv, b->solv);
  if (a->calls != b->calls) violate(cls + ":count", "%s: same evaluations, but the trackers report %d and %d", what, a->calls, b->calls);
}
} // namespace sim
