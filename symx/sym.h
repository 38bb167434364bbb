// Harness API of the symbolic executor (symx).  The same harness source is built
//  * symbolically (clang -> LLVM IR -> symx-instr -> linked with symx runtime + Z3), and
//  * natively (g++/clang -fsanitize=address, linked with sym_native.cpp) to replay a model.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
// a fresh symbolic value of `bits` (1..64) bits, zero extended
uint64_t sym_bits(const char* name, unsigned bits);
// a value in [0,n): the executor forks over all n values (path-wise concrete afterwards)
uint64_t sym_choice(const char* name, uint64_t n);
// path constraint
void sym_assume(bool c);
// proof obligation: valid for all values of all symbolic variables on this path
void sym_check(bool c, const char* label);
// vacuity witness: label must be reached on at least one feasible path
void sym_cover(const char* label);
// fork until the value is concrete
uint64_t sym_concretize(uint64_t v);
// value compared between the symbolic run (under a model of the path) and the native replay
void sym_observe(const char* name, uint64_t v);
// drop the current path silently
void sym_drop();
// 1 when running under the symbolic executor
int sym_is_symbolic();
// per-path cpu seconds before a path counts as a hang
void sym_path_timeout(unsigned seconds);
// seed / tier given by the driver
uint64_t sym_seed();
int sym_thorough();
// harness entry: called by the runtime with the harness name
void sym_main(const char* harness);
// text description of the current input (shown with violations)
void sym_note(const char* text);
}
static inline bool sym_bool(const char* n) { return sym_bits(n, 1) != 0; }
