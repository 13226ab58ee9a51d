// symx: symbolic execution of Scalar-generic C++ code.
//
// symx::Sym is a scalar type whose values are terms over real-valued symbolic
// inputs (plus the IEEE special values inf/nan as concrete tags). Arithmetic
// builds hash-consed terms; a comparison in the code under test becomes a path
// decision that is decided by the SMT solver (Z3), and both outcomes are
// explored if both are feasible. Assertions are discharged by asking the solver
// for a counterexample under the path condition.
#pragma once

#include <stdint.h>

#include <algorithm>
#include <cmath>
#include <compare>
#include <concepts>
#include <format>
#include <functional>
#include <initializer_list>
#include <limits>
#include <ostream>
#include <span>
#include <string>
#include <utility>
#include <vector>

namespace symx {

enum : uint32_t { TAG_CONST = 0, TAG_NODE = 1 };

struct Sym;

// Engine entry points (engine.cpp)
int32_t mk_const_id(double c);
bool node_const_double(int32_t id, double* out);
Sym op_add(const Sym& a, const Sym& b);
Sym op_sub(const Sym& a, const Sym& b);
Sym op_mul(const Sym& a, const Sym& b);
Sym op_div(const Sym& a, const Sym& b);
Sym op_neg(const Sym& a);
bool op_lt(const Sym& a, const Sym& b);
bool op_le(const Sym& a, const Sym& b);
bool op_eq(const Sym& a, const Sym& b);
Sym fn_abs(const Sym& x);
Sym fn_max(const Sym& a, const Sym& b);
Sym fn_min(const Sym& a, const Sym& b);
Sym fn_sqrt(const Sym& x);
Sym fn_cbrt(const Sym& x);
Sym fn_uf1(const char* name, const Sym& x);
Sym fn_exp(const Sym& x);
Sym fn_log(const Sym& x);
Sym fn_log10(const Sym& x);
Sym fn_sin(const Sym& x);
Sym fn_cos(const Sym& x);
Sym fn_tan(const Sym& x);
Sym fn_sinh(const Sym& x);
Sym fn_cosh(const Sym& x);
Sym fn_tanh(const Sym& x);
Sym fn_asin(const Sym& x);
Sym fn_acos(const Sym& x);
Sym fn_atan2(const Sym& y, const Sym& x);
Sym fn_pow(const Sym& b, const Sym& p);
bool fn_isfinite(const Sym& x);
bool fn_isinf(const Sym& x);
bool fn_isnan(const Sym& x);
double to_double(const Sym& x);
std::string to_string(const Sym& x);

struct Sym;
// While set, formatting a scalar writes a token that identifies it exactly
// (ignoring the format), and converting a term to int asks the harness.
inline bool format_tokens = false;
inline std::function<int(const Sym&)> int_hook;

struct Sym {
  uint32_t tag;
  int32_t id;
  double c;

  Sym() = default;
  constexpr Sym(std::floating_point auto v) noexcept
      : tag{TAG_CONST}, id{0}, c{static_cast<double>(v)} {}
  constexpr Sym(std::integral auto v) noexcept
      : tag{TAG_CONST}, id{0}, c{static_cast<double>(v)} {}
  static Sym node(int32_t id) {
    Sym s(0.0);
    s.tag = TAG_NODE;
    s.id = id;
    return s;
  }

  Sym& operator+=(const Sym& r) { return *this = op_add(*this, r); }
  Sym& operator-=(const Sym& r) { return *this = op_sub(*this, r); }
  Sym& operator*=(const Sym& r) { return *this = op_mul(*this, r); }
  Sym& operator/=(const Sym& r) { return *this = op_div(*this, r); }
  Sym operator+() const { return *this; }
  constexpr Sym operator-() const {
    if (std::is_constant_evaluated() || tag == TAG_CONST) return Sym(-c);
    return op_neg(*this);
  }
  friend constexpr Sym operator+(const Sym& a, const Sym& b) {
    if (std::is_constant_evaluated()) return Sym(a.c + b.c);
    return op_add(a, b);
  }
  friend constexpr Sym operator-(const Sym& a, const Sym& b) {
    if (std::is_constant_evaluated()) return Sym(a.c - b.c);
    return op_sub(a, b);
  }
  friend constexpr Sym operator*(const Sym& a, const Sym& b) {
    if (std::is_constant_evaluated()) return Sym(a.c * b.c);
    return op_mul(a, b);
  }
  friend constexpr Sym operator/(const Sym& a, const Sym& b) {
    if (std::is_constant_evaluated()) return Sym(a.c / b.c);
    return op_div(a, b);
  }
  Sym& operator++() { return *this += Sym(1.0); }
  Sym& operator--() { return *this -= Sym(1.0); }
  Sym operator++(int) {
    Sym r = *this;
    ++*this;
    return r;
  }
  Sym operator--(int) {
    Sym r = *this;
    --*this;
    return r;
  }
  friend bool operator<(const Sym& a, const Sym& b) { return op_lt(a, b); }
  friend bool operator>(const Sym& a, const Sym& b) { return op_lt(b, a); }
  friend bool operator<=(const Sym& a, const Sym& b) { return op_le(a, b); }
  friend bool operator>=(const Sym& a, const Sym& b) { return op_le(b, a); }
  friend bool operator==(const Sym& a, const Sym& b) { return op_eq(a, b); }
  friend bool operator!=(const Sym& a, const Sym& b) { return !op_eq(a, b); }
  friend std::partial_ordering operator<=>(const Sym& a, const Sym& b) {
    if (fn_isnan(a) || fn_isnan(b)) return std::partial_ordering::unordered;
    if (op_lt(a, b)) return std::partial_ordering::less;
    if (op_lt(b, a)) return std::partial_ordering::greater;
    return std::partial_ordering::equivalent;
  }
  explicit operator double() const { return to_double(*this); }
  explicit operator float() const { return static_cast<float>(to_double(*this)); }
  explicit operator int() const {
    if (int_hook && tag == TAG_NODE) return int_hook(*this);
    return static_cast<int>(to_double(*this));
  }
  explicit operator long() const { return static_cast<long>(to_double(*this)); }
  explicit operator bool() const { return !op_eq(*this, Sym(0.0)); }

  friend Sym abs(const Sym& x) { return fn_abs(x); }
  friend Sym fabs(const Sym& x) { return fn_abs(x); }
  friend Sym sqrt(const Sym& x) { return fn_sqrt(x); }
  friend Sym cbrt(const Sym& x) { return fn_cbrt(x); }
  friend Sym exp(const Sym& x) { return fn_exp(x); }
  friend Sym log(const Sym& x) { return fn_log(x); }
  friend Sym log10(const Sym& x) { return fn_log10(x); }
  friend Sym sin(const Sym& x) { return fn_sin(x); }
  friend Sym cos(const Sym& x) { return fn_cos(x); }
  friend Sym tan(const Sym& x) { return fn_tan(x); }
  friend Sym sinh(const Sym& x) { return fn_sinh(x); }
  friend Sym cosh(const Sym& x) { return fn_cosh(x); }
  friend Sym tanh(const Sym& x) { return fn_tanh(x); }
  friend Sym asin(const Sym& x) { return fn_asin(x); }
  friend Sym acos(const Sym& x) { return fn_acos(x); }
  friend Sym atan(const Sym& x) { return fn_uf1("atan", x); }
  friend Sym atan2(const Sym& y, const Sym& x) { return fn_atan2(y, x); }
  friend Sym erf(const Sym& x) { return fn_uf1("erf", x); }
  friend Sym pow(const Sym& b, const Sym& p) { return fn_pow(b, p); }
  friend Sym hypot(const Sym& x, const Sym& y) { return fn_sqrt(x * x + y * y); }
  friend Sym hypot(const Sym& x, const Sym& y, const Sym& z) {
    return fn_sqrt(x * x + y * y + z * z);
  }
  friend bool isfinite(const Sym& x) { return fn_isfinite(x); }
  friend bool isinf(const Sym& x) { return fn_isinf(x); }
  friend bool isnan(const Sym& x) { return fn_isnan(x); }
  friend std::ostream& operator<<(std::ostream& os, const Sym& s) {
    return os << to_string(s);
  }
};

// A double wrapper: the same code under test, instantiated with real double
// arithmetic, used to replay counterexamples.
struct Dbl {
  double v;
  Dbl() = default;
  constexpr Dbl(std::floating_point auto x) noexcept : v{static_cast<double>(x)} {}
  constexpr Dbl(std::integral auto x) noexcept : v{static_cast<double>(x)} {}
  constexpr Dbl& operator+=(const Dbl& r) { v += r.v; return *this; }
  constexpr Dbl& operator-=(const Dbl& r) { v -= r.v; return *this; }
  constexpr Dbl& operator*=(const Dbl& r) { v *= r.v; return *this; }
  constexpr Dbl& operator/=(const Dbl& r) { v /= r.v; return *this; }
  constexpr Dbl operator+() const { return *this; }
  constexpr Dbl operator-() const { return Dbl(-v); }
  friend constexpr Dbl operator+(const Dbl& a, const Dbl& b) { return Dbl(a.v + b.v); }
  friend constexpr Dbl operator-(const Dbl& a, const Dbl& b) { return Dbl(a.v - b.v); }
  friend constexpr Dbl operator*(const Dbl& a, const Dbl& b) { return Dbl(a.v * b.v); }
  friend constexpr Dbl operator/(const Dbl& a, const Dbl& b) { return Dbl(a.v / b.v); }
  Dbl& operator++() { ++v; return *this; }
  Dbl& operator--() { --v; return *this; }
  Dbl operator++(int) { Dbl r = *this; ++v; return r; }
  Dbl operator--(int) { Dbl r = *this; --v; return r; }
  friend constexpr bool operator<(const Dbl& a, const Dbl& b) { return a.v < b.v; }
  friend constexpr bool operator>(const Dbl& a, const Dbl& b) { return a.v > b.v; }
  friend constexpr bool operator<=(const Dbl& a, const Dbl& b) { return a.v <= b.v; }
  friend constexpr bool operator>=(const Dbl& a, const Dbl& b) { return a.v >= b.v; }
  friend constexpr bool operator==(const Dbl& a, const Dbl& b) { return a.v == b.v; }
  friend constexpr bool operator!=(const Dbl& a, const Dbl& b) { return a.v != b.v; }
  friend constexpr auto operator<=>(const Dbl& a, const Dbl& b) { return a.v <=> b.v; }
  explicit constexpr operator double() const { return v; }
  explicit constexpr operator float() const { return static_cast<float>(v); }
  explicit constexpr operator int() const { return static_cast<int>(v); }
  explicit constexpr operator long() const { return static_cast<long>(v); }
  explicit constexpr operator bool() const { return v != 0; }
#define SYMX_F1(f) friend Dbl f(const Dbl& x) { return Dbl(std::f(x.v)); }
  SYMX_F1(abs) SYMX_F1(fabs) SYMX_F1(sqrt) SYMX_F1(cbrt) SYMX_F1(exp) SYMX_F1(log)
  SYMX_F1(log10) SYMX_F1(sin) SYMX_F1(cos) SYMX_F1(tan) SYMX_F1(sinh) SYMX_F1(cosh)
  SYMX_F1(tanh) SYMX_F1(asin) SYMX_F1(acos) SYMX_F1(atan) SYMX_F1(erf)
#undef SYMX_F1
  friend Dbl atan2(const Dbl& y, const Dbl& x) { return Dbl(std::atan2(y.v, x.v)); }
  friend Dbl pow(const Dbl& b, const Dbl& p) { return Dbl(std::pow(b.v, p.v)); }
  friend Dbl hypot(const Dbl& x, const Dbl& y) { return Dbl(std::hypot(x.v, y.v)); }
  friend Dbl hypot(const Dbl& x, const Dbl& y, const Dbl& z) { return Dbl(std::hypot(x.v, y.v, z.v)); }
  friend bool isfinite(const Dbl& x) { return std::isfinite(x.v); }
  friend bool isinf(const Dbl& x) { return std::isinf(x.v); }
  friend bool isnan(const Dbl& x) { return std::isnan(x.v); }
  friend std::ostream& operator<<(std::ostream& os, const Dbl& s) { return os << s.v; }
};

}  // namespace symx

namespace std {
// Merging max/min/clamp: one term instead of a path split. max(a, b) has
// exactly std::max's semantics on non-NaN operands; NaN operands follow
// std::max's definition (a < b ? b : a).
inline symx::Sym max(const symx::Sym& a, const symx::Sym& b) { return symx::fn_max(a, b); }
inline symx::Sym min(const symx::Sym& a, const symx::Sym& b) { return symx::fn_min(a, b); }
inline symx::Sym max(initializer_list<symx::Sym> l) {
  auto it = l.begin();
  symx::Sym r = *it;
  for (++it; it != l.end(); ++it) r = symx::fn_max(r, *it);
  return r;
}
inline symx::Sym min(initializer_list<symx::Sym> l) {
  auto it = l.begin();
  symx::Sym r = *it;
  for (++it; it != l.end(); ++it) r = symx::fn_min(r, *it);
  return r;
}
inline symx::Sym clamp(const symx::Sym& v, const symx::Sym& lo, const symx::Sym& hi) {
  return symx::fn_min(symx::fn_max(v, lo), hi);
}
template <>
struct numeric_limits<symx::Sym> : numeric_limits<double> {
  static constexpr symx::Sym min() noexcept { return numeric_limits<double>::min(); }
  static constexpr symx::Sym max() noexcept { return numeric_limits<double>::max(); }
  static constexpr symx::Sym lowest() noexcept { return numeric_limits<double>::lowest(); }
  static constexpr symx::Sym epsilon() noexcept { return numeric_limits<double>::epsilon(); }
  static constexpr symx::Sym round_error() noexcept { return 0.5; }
  static constexpr symx::Sym infinity() noexcept { return numeric_limits<double>::infinity(); }
  static constexpr symx::Sym quiet_NaN() noexcept { return numeric_limits<double>::quiet_NaN(); }
  static constexpr symx::Sym signaling_NaN() noexcept { return numeric_limits<double>::quiet_NaN(); }
  static constexpr symx::Sym denorm_min() noexcept { return numeric_limits<double>::denorm_min(); }
};
template <>
struct numeric_limits<symx::Dbl> : numeric_limits<double> {
  static constexpr symx::Dbl min() noexcept { return numeric_limits<double>::min(); }
  static constexpr symx::Dbl max() noexcept { return numeric_limits<double>::max(); }
  static constexpr symx::Dbl lowest() noexcept { return numeric_limits<double>::lowest(); }
  static constexpr symx::Dbl epsilon() noexcept { return numeric_limits<double>::epsilon(); }
  static constexpr symx::Dbl round_error() noexcept { return 0.5; }
  static constexpr symx::Dbl infinity() noexcept { return numeric_limits<double>::infinity(); }
  static constexpr symx::Dbl quiet_NaN() noexcept { return numeric_limits<double>::quiet_NaN(); }
  static constexpr symx::Dbl signaling_NaN() noexcept { return numeric_limits<double>::quiet_NaN(); }
  static constexpr symx::Dbl denorm_min() noexcept { return numeric_limits<double>::denorm_min(); }
};
template <>
struct formatter<symx::Sym> : formatter<double> {
  template <typename C>
  auto format(const symx::Sym& d, C& ctx) const {
    if (symx::format_tokens)
      return d.tag == symx::TAG_NODE ? format_to(ctx.out(), "#{}", d.id) : format_to(ctx.out(), "{:.17g}", d.c);
    return formatter<double>::format(symx::to_double(d), ctx);
  }
};
template <>
struct formatter<symx::Dbl> : formatter<double> {
  template <typename C>
  auto format(const symx::Dbl& d, C& ctx) const {
    if (symx::format_tokens) return format_to(ctx.out(), "{:.17g}", d.v);
    return formatter<double>::format(d.v, ctx);
  }
};
}  // namespace std

#include <Eigen/Core>
namespace Eigen {
template <>
struct NumTraits<symx::Sym> : GenericNumTraits<symx::Sym> {
  using Real = symx::Sym;
  using NonInteger = symx::Sym;
  using Nested = symx::Sym;
  using Literal = double;
  enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 0, ReadCost = 1, AddCost = 3, MulCost = 3 };
  static symx::Sym epsilon() { return std::numeric_limits<double>::epsilon(); }
  static symx::Sym dummy_precision() { return 1e-12; }
  static symx::Sym highest() { return std::numeric_limits<double>::max(); }
  static symx::Sym lowest() { return std::numeric_limits<double>::lowest(); }
  static symx::Sym infinity() { return std::numeric_limits<double>::infinity(); }
  static symx::Sym quiet_NaN() { return std::numeric_limits<double>::quiet_NaN(); }
  static int digits10() { return 15; }
  static int max_digits10() { return 17; }
};
template <>
struct NumTraits<symx::Dbl> : GenericNumTraits<symx::Dbl> {
  using Real = symx::Dbl;
  using NonInteger = symx::Dbl;
  using Nested = symx::Dbl;
  using Literal = double;
  enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 0, ReadCost = 1, AddCost = 3, MulCost = 3 };
  static symx::Dbl epsilon() { return std::numeric_limits<double>::epsilon(); }
  static symx::Dbl dummy_precision() { return 1e-12; }
  static symx::Dbl highest() { return std::numeric_limits<double>::max(); }
  static symx::Dbl lowest() { return std::numeric_limits<double>::lowest(); }
  static symx::Dbl infinity() { return std::numeric_limits<double>::infinity(); }
  static symx::Dbl quiet_NaN() { return std::numeric_limits<double>::quiet_NaN(); }
  static int digits10() { return 15; }
  static int max_digits10() { return 17; }
};
}  // namespace Eigen
