// Interface between harnesses and the symbolic executor (engine/exec.cpp).
// The same harness source is also compiled natively (rt/replay.cpp gives these
// functions their replay meaning), so that every counterexample and a sample of
// the explored paths is run against the real build.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint8_t  sym_u8(const char* name);
uint16_t sym_u16(const char* name);
uint32_t sym_u32(const char* name);
uint64_t sym_u64(const char* name);
uint64_t sym_below(const char* name, uint64_t n);   // one of 0..n-1
void sym_assume(bool);
void sym_check(bool, const char* label);
void sym_cover(const char* label);
void sym_out(uint64_t);
void sym_note(const char* name, uint64_t);
uint64_t sym_concretize(uint64_t);
bool sym_decide(bool);
int64_t sym_live();
int sym_engine();
void sym_fail(const char* label);
void sym_violation(const char* kind, const char* label);
void sym_unsupported(const char* msg);
void sym_end();
bool sym_is_valid_ptr(const void*, size_t);
void sym_spawn(void (*)(void*), void*);
void sym_join_all();
void sym_yield();
void sym_fmt_double(char* buf, size_t cap, double v, char conv, int prec);
void vx_file_set(const char* name, const char* data, size_t len);   // the file system of the run
void vx_clock_stop(void);                 // the clock of the run stands still from now on (natively: no effect)
long vx_file_get(const char* name, char* data, size_t cap);
double sym_parse_double(const char* s, size_t* used, int* erange);
float sym_parse_float(const char* s, size_t* used, int* erange);
}
