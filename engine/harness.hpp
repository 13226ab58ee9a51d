// Harness API shared by the symbolic build (SYMX_REPLAY undefined: scalar S is
// symx::Sym) and the concrete replay build (SYMX_REPLAY: S is symx::Dbl).
#pragma once
#include "sym.hpp"

#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace symx {

#ifdef SYMX_REPLAY
using S = Dbl;
#else
using S = Sym;
#endif

struct PathKilled {};     // assumption false on this path
struct PathTruncated {};  // decision bound reached

// Bounds given in the harness declaration are reported verbatim.
class H {
 public:
  // A real-valued symbolic input.
  S real(const std::string& name);
  // Symbolic input restricted to [lo, hi].
  S real(const std::string& name, double lo, double hi);
  // Nondeterministic choice in 0..n-1 (all explored).
  int choose(const std::string& name, int n);
  bool flip(const std::string& name) { return choose(name, 2) == 1; }

  void assume(bool b);
  void assume_lt(const S& a, const S& b);
  void assume_le(const S& a, const S& b);
  void assume_gt(const S& a, const S& b) { assume_lt(b, a); }
  void assume_ge(const S& a, const S& b) { assume_le(b, a); }
  void assume_ne(const S& a, const S& b);

  void check(const std::string& label, bool cond, const std::string& note = "");
  void check_eq(const std::string& label, const S& a, const S& b, double tol = 1e-6);
  void check_le(const std::string& label, const S& a, const S& b, double tol = 1e-6);
  void check_lt(const std::string& label, const S& a, const S& b, double tol = 1e-6);
  void check_ne(const std::string& label, const S& a, const S& b);
  void fail(const std::string& label, const std::string& note = "") { check(label, false, note); }
  // Integer equality (structural facts along the path).
  void eq(const std::string& label, long long a, long long b) {
    check(label, a == b, std::to_string(a) + " != " + std::to_string(b));
  }
  // Reachability witness: must be hit on at least one completed path.
  void reach(const std::string& label);
  bool thorough() const;
  static constexpr bool symbolic() {
#ifdef SYMX_REPLAY
    return false;
#else
    return true;
#endif
  }
};

struct HarnessDef {
  const char* name;
  const char* bounds;
  int shards;       // > 1: the first choose("shard", shards) is fixed per process
  bool thorough_only;
  void (*fn)(H&);
  HarnessDef* next;
};
void register_harness(HarnessDef* d);
struct Reg {
  HarnessDef d;
  Reg(const char* n, const char* b, int shards, bool th, void (*f)(H&)) : d{n, b, shards, th, f, nullptr} {
    register_harness(&d);
  }
};
}  // namespace symx

#define HARNESS_X(name, shards, thorough_only, bounds)                          \
  static void name(symx::H& h);                                                 \
  static symx::Reg reg_##name(#name, bounds, shards, thorough_only, &name);     \
  static void name(symx::H& h)
#define HARNESS(name, bounds) HARNESS_X(name, 1, false, bounds)
#define HARNESS_SHARDED(name, n, bounds) HARNESS_X(name, n, false, bounds)
#define HARNESS_THOROUGH(name, n, bounds) HARNESS_X(name, n, true, bounds)
