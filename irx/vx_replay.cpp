// Native implementation of vx.hpp: runs a harness on the values of a
// counterexample, under the address and undefined-behaviour sanitizers.
//   prog HARNESS FILE LABEL  -> exit 10 when a check fails (named LABEL, if given)
#include <signal.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <string>

#include "vx.hpp"

static std::map<std::string, unsigned long long>* values;
static std::map<std::string, int>* used;
static const char* wanted = nullptr;
static bool th = false, expect_assert = false, failed = false;
// live allocations, in a fixed table so that bookkeeping allocates nothing
static struct {
  const void* p;
  size_t n;
} table[1 << 16];
static long live;
static bool tracking;

static void* take(size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) abort();
  if (tracking) {
    ++live;
    for (auto& t : table)
      if (!t.p) {
        t = {p, n};
        break;
      }
  }
  return p;
}
static void give(void* p) {
  if (p && tracking)
    for (auto& t : table)
      if (t.p == p) {
        --live;
        t.p = nullptr;
        break;
      }
  free(p);
}
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }

static unsigned long long value(const char* name) {
  bool t = tracking;
  tracking = false;
  std::string n = name;
  for (char& c : n)
    if (c == ' ') c = '_';
  int k = ++(*used)[n];
  if (k > 1) n += "#" + std::to_string(k);
  unsigned long long v = values->count(n) ? (*values)[n] : 0;
  tracking = t;
  return v;
}
static void failure(const char* label) {
  printf("FAIL %s\n", label);
  fflush(stdout);
  if (!wanted || !*wanted || !strcmp(wanted, label)) _exit(10);
  failed = true;
}
extern "C" {
int32_t vx_i32(const char* name) { return static_cast<int32_t>(value(name)); }
uint64_t vx_u64(const char* name) { return value(name); }
uint32_t vx_choose(const char* name, uint32_t n) { return static_cast<uint32_t>(value(name)) % n; }
uint32_t vx_fork(uint32_t v) { return v; }
bool vx_thorough() { return th; }
void vx_assume(bool b) {
  if (!b) {
    printf("assumption not met\n");
    fflush(stdout);
    _exit(0);
  }
}
void vx_check(bool b, const char* label) {
  if (!b) failure(label);
}
void vx_expect_assert() { expect_assert = true; }
void vx_reach(const char*) {}
int64_t vx_live_allocations() { return live; }
void vx_check_block(const void* p, size_t n) {
  for (auto& t : table)
    if (t.p && p >= t.p && static_cast<const char*>(p) + n <= static_cast<const char*>(t.p) + t.n) return;
  failure("block inside live memory");
}
}
static void on_abort(int) { _exit(expect_assert ? 0 : 10); }
struct Entry {
  const char* name;
  void (*run)();
};
extern const Entry vx_entries[];
int main(int argc, char** argv) {
  values = new std::map<std::string, unsigned long long>;
  used = new std::map<std::string, int>;
  FILE* f = fopen(argv[2], "r");
  char line[512], name[400];
  unsigned long long v;
  while (f && fgets(line, sizeof line, f))
    if (sscanf(line, "v %399s %llu", name, &v) == 2) (*values)[name] = v;
  if (argc > 3) wanted = argv[3];
  th = argc > 4;
  signal(SIGABRT, on_abort);
  alarm(20);
  for (const Entry* e = vx_entries; e->name; ++e)
    if (!strcmp(e->name, argv[1])) {
      tracking = true;
      e->run();
      tracking = false;
      if (expect_assert) failure("misuse is rejected by an assertion");
    }
  puts("held");
  return 0;
}
