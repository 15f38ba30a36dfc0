// A simulated disk: every path under /sim/ lives in shared memory and fails as the plan says.
#pragma once
#include <string>
#include <vector>
#include "core.hh"
namespace sim {
namespace vd {
enum Op { OPEN = 0, READ = 1, WRITE = 2, CLOSE = 3 };
enum Fault { F_EIO = 0, F_ENOSPC = 1, F_SHORT = 2, F_EINTR = 3, F_EACCES = 4, F_CRASH = 5, F_EISDIR = 6, F_EMFILE = 7, F_KINDS = 8 };
extern const char* const op_names[];
extern const char* const fault_names[];
void reset();                                    // empties the disk, forgets the faults
void clear_faults();
void put(const std::string& name, const std::string& content);
bool exists(const std::string& name);
std::string get(const std::string& name);
void remove(const std::string& name);
void rename(const std::string& a, const std::string& b);
void set_capacity(int64_t bytes);                // disk-full after that many bytes in total (< 0: unlimited)
void add_fault(int op, int64_t nth, int kind);   // the nth (from 0) operation of that kind, counted from the last reset of the counts
void reset_counts();
void set_chunk(int64_t n);                       // reads return at most n bytes (0: no limit)
int64_t count(int op);
int64_t fired();                                 // faults that fired (short and interrupted calls included)
int64_t fired_hard();                            // faults that the caller must notice
int64_t bytes();                                 // bytes on the disk
bool full_hit();                                 // a write was refused for lack of space
void configure(const Plan& p, const std::string& list_key = "L3.io");   // tuples (op, nth, kind)
}
}
