// Interface between IR harnesses and the executor (irx.cpp); vx_replay.cpp
// implements it natively for replaying counterexamples.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
int32_t vx_i32(const char* name);
uint64_t vx_u64(const char* name);
uint32_t vx_choose(const char* name, uint32_t n);  // any of 0..n-1
uint32_t vx_fork(uint32_t v);                      // explore each value of v separately
bool vx_thorough();
void vx_assume(bool);
void vx_check(bool, const char* label);
void vx_reach(const char* label);
void vx_expect_assert();  // from here on the path must end in a failed assertion
int64_t vx_live_allocations();
void vx_check_block(const void* p, size_t n);  // [p, p+n) lies in one live allocation
}
// HARNESS(name, shards, thorough_only, bounds): shards > 1 fixes the first
// vx_choose() per process.
#define IRX_HARNESS(name, shards, th, bounds)                                             \
  extern "C" __attribute__((used)) const char irx_meta_##name[] = #shards "\t" #th "\t" bounds; \
  extern "C" __attribute__((used)) void irx_run_##name()
