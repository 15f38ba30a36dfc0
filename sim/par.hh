// Simulated threads: the OpenMP runtime of the system under test, under a seeded scheduler.
#pragma once
#include <cstdint>
#include <string>
#include "core.hh"
namespace sim {
namespace par {
struct Config {
  int mode = 1;           // 0 explicit list of switches, 1 random preemption, 2 priorities with change points, 3 run to completion in seeded order
  uint64_t seed = 1;
  int64_t period = 50;    // mode 1: a preemption about every `period` yield points
  int64_t horizon = 2000; // mode 2: change points are drawn below this yield index
  int depth = 3;          // mode 2: number of change points
  int shrink = 0;         // the runtime delivers this many threads fewer than asked for
  int64_t skew = 0;       // 1: reversed assignment of thread ids to start order
  bool races = true;      // happens-before race detection on every instrumented access
};
extern Config cfg;
void configure(const Plan& p);          // from keys sched.*, and list L2.switch
void gen(Plan& p, Rng& r, bool inst);   // draws a scheduler configuration
void yield_point(int kind);
int self();                             // simulated thread number (0 outside teams)
int team();                             // size of the current team (1 outside)
bool in_region();
// Code of the simulator itself: no preemption, no race detection.
struct Shield { bool was; Shield(); ~Shield(); };
extern std::string race_tag;            // appended to the class of races on the library's random number generator
extern const char* engine_from; extern const char* engine_to;
uint64_t regions();
uint64_t preemptions();
// Race found (instrumented build): description
extern const char* ignore_from; extern const char* ignore_to;   // addresses exempt from race detection
}
}
