// Real objective functions of the library, every type the command line offers, on small seeded instances.
#pragma once
#include "stack.hh"
namespace sim {
struct Zoo { int id; const char* name; bool file; };
extern const std::vector<Zoo> ZOO;
// Arguments of the command line for a function of type ZOO[i] with about n bits; writes its instance to the simulated
// disk under `path` when the type is read from a file.
std::vector<std::string> zoo_args(int i, int n, uint64_t seed, const std::string& path = "/sim/function.txt");
// Writes the instance only; returns its number of bits.
void zoo_file(int i, int n, uint64_t seed, const std::string& path);
hnco::function::Function* zoo_make(const std::vector<std::string>& args);
// Extra modifiers (map, minimisation, expression), as the command line offers them.
std::vector<std::string> zoo_modifiers(Rng& g, int bv_size, bool noise);
}
