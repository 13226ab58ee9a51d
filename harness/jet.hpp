// Reference semantics for expressions: second-order jets (value, gradient,
// Hessian) with closed-form partial derivatives, written independently of the
// implementation under test.
#pragma once
#include "harness.hpp"

#include <array>
#include <sleipnir/autodiff/gradient.hpp>
#include <sleipnir/autodiff/hessian.hpp>
#include <sleipnir/autodiff/jacobian.hpp>
#include <sleipnir/autodiff/variable.hpp>
#include <sleipnir/autodiff/variable_matrix.hpp>

using symx::H;
using symx::S;
using V = slp::Variable<S>;
using VM = slp::VariableMatrix<S>;

#ifndef JET_NV
#define JET_NV 3
#endif
constexpr int NV = JET_NV;  // number of independent variables tracked by a jet
struct Jet {
  S v{0};
  std::array<S, NV> g{};
  std::array<std::array<S, NV>, NV> h{};
  Jet() {
    for (auto& x : g) x = S(0);
    for (auto& r : h)
      for (auto& x : r) x = S(0);
  }
  explicit Jet(S c) : Jet() { v = c; }
  static Jet var(S x, int i) {
    Jet j(x);
    j.g[i] = S(1);
    return j;
  }
};
// f(a): value f, first derivative d, second derivative dd
inline Jet chain1(const Jet& a, S f, S d, S dd) {
  Jet r(f);
  for (int i = 0; i < NV; ++i) {
    r.g[i] = d * a.g[i];
    for (int j = 0; j < NV; ++j) r.h[i][j] = d * a.h[i][j] + dd * a.g[i] * a.g[j];
  }
  return r;
}
inline Jet chain2(const Jet& a, const Jet& b, S f, S fa, S fb, S faa, S fab, S fbb) {
  Jet r(f);
  for (int i = 0; i < NV; ++i) {
    r.g[i] = fa * a.g[i] + fb * b.g[i];
    for (int j = 0; j < NV; ++j)
      r.h[i][j] = fa * a.h[i][j] + fb * b.h[i][j] + faa * a.g[i] * a.g[j] + fbb * b.g[i] * b.g[j] +
                  fab * (a.g[i] * b.g[j] + a.g[j] * b.g[i]);
  }
  return r;
}

struct E {
  V v;
  Jet j;
};

enum Un { NEG, POS, ABS, ACOS, ASIN, ATAN, CBRT, COS, COSH, ERF, EXP, LOG, LOG10, SIGN, SIN, SINH, SQRT, TAN, TANH, POW2, POW3, POWM1, POWH, POW0, POW1, NUN };
inline const char* un_names[] = {"neg", "pos", "abs", "acos", "asin", "atan", "cbrt", "cos", "cosh", "erf", "exp", "log", "log10", "sign", "sin", "sinh", "sqrt", "tan", "tanh", "pow2", "pow3", "pow-1", "pow0.5", "pow0", "pow1"};
enum Bin { ADD, SUB, MUL, DIV, ATAN2, HYPOT, MAX, MIN, POW, NBIN };
inline const char* bin_names[] = {"+", "-", "*", "/", "atan2", "hypot", "max", "min", "pow"};

// Restricts the argument to the region where the function is differentiable
// (strict: both value and derivatives defined).
inline void un_domain(H& h, int op, S x, bool strict = true) {
  switch (op) {
    case ACOS:
    case ASIN:
      if (strict) {
        h.assume_lt(S(-1), x);
        h.assume_lt(x, S(1));
      } else {
        h.assume_le(S(-1), x);
        h.assume_le(x, S(1));
      }
      break;
    case CBRT:
      if (strict) h.assume_ne(x, S(0));
      break;
    case LOG:
    case LOG10:
      h.assume_lt(S(0), x);
      break;
    case SQRT:
    case POWH:
      if (strict) h.assume_lt(S(0), x);
      else h.assume_le(S(0), x);
      break;
    case POWM1: h.assume_ne(x, S(0)); break;
    case TAN: {
      using std::cos;
      h.assume_ne(cos(x), S(0));
      break;
    }
    default: break;
  }
}
inline V un_apply(int op, const V& x) {
  switch (op) {
    case NEG: return -x;
    case POS: return +x;
    case ABS: return slp::abs(x);
    case ACOS: return slp::acos(x);
    case ASIN: return slp::asin(x);
    case ATAN: return slp::atan(x);
    case CBRT: return slp::cbrt(x);
    case COS: return slp::cos(x);
    case COSH: return slp::cosh(x);
    case ERF: return slp::erf(x);
    case EXP: return slp::exp(x);
    case LOG: return slp::log(x);
    case LOG10: return slp::log10(x);
    case SIGN: return slp::sign(x);
    case SIN: return slp::sin(x);
    case SINH: return slp::sinh(x);
    case SQRT: return slp::sqrt(x);
    case TAN: return slp::tan(x);
    case TANH: return slp::tanh(x);
    case POW2: return slp::pow(x, 2);
    case POW3: return slp::pow(x, 3);
    case POWM1: return slp::pow(x, -1);
    case POWH: return slp::pow(x, 0.5);
    case POW0: return slp::pow(x, 0);
    case POW1: return slp::pow(x, 1);
  }
  return x;
}
// value, first and second derivative of the unary function
inline Jet un_ref(int op, const Jet& a, bool value_only = false) {
  using std::abs, std::acos, std::asin, std::atan, std::cbrt, std::cos, std::cosh, std::erf, std::exp, std::log,
      std::log10, std::sin, std::sinh, std::sqrt, std::tan, std::tanh;
  S x = a.v;
  auto R = [&](S f, auto d, auto dd) { return value_only ? Jet(f) : chain1(a, f, d(), dd()); };
  auto zero = [] { return S(0); };
  switch (op) {
    case NEG: return R(S(0) - x, [] { return S(-1); }, zero);
    case POS: return R(x, [] { return S(1); }, zero);
    case ABS: {
      if (x > S(0)) return R(x, [] { return S(1); }, zero);
      if (x < S(0)) return R(-x, [] { return S(-1); }, zero);
      return R(S(0), zero, zero);
    }
    case ACOS: return R(acos(x), [&] { return S(-1) / sqrt(S(1) - x * x); }, [&] { S q = S(1) - x * x; return -x / (q * sqrt(q)); });
    case ASIN: return R(asin(x), [&] { return S(1) / sqrt(S(1) - x * x); }, [&] { S q = S(1) - x * x; return x / (q * sqrt(q)); });
    case ATAN: return R(atan(x), [&] { return S(1) / (S(1) + x * x); }, [&] { S q = S(1) + x * x; return S(-2) * x / (q * q); });
    case CBRT: return R(cbrt(x), [&] { S c = cbrt(x); return S(1) / (S(3) * c * c); }, [&] { S c = cbrt(x); return S(-2) / (S(9) * x * c * c); });
    case COS: return R(cos(x), [&] { return -sin(x); }, [&] { return -cos(x); });
    case COSH: return R(cosh(x), [&] { return sinh(x); }, [&] { return cosh(x); });
    case ERF: {
      S k = S(2.0 * std::numbers::inv_sqrtpi);
      return R(erf(x), [&] { return k * exp(-(x * x)); }, [&] { return S(-2) * x * k * exp(-(x * x)); });
    }
    case EXP: return R(exp(x), [&] { return exp(x); }, [&] { return exp(x); });
    case LOG: return R(log(x), [&] { return S(1) / x; }, [&] { return S(-1) / (x * x); });
    case LOG10: {
      S l10 = S(std::numbers::ln10);
      return R(log10(x), [&] { return S(1) / (x * l10); }, [&] { return S(-1) / (x * x * l10); });
    }
    case SIGN: {
      S s = x > S(0) ? S(1) : x < S(0) ? S(-1) : S(0);
      return R(s, zero, zero);
    }
    case SIN: return R(sin(x), [&] { return cos(x); }, [&] { return -sin(x); });
    case SINH: return R(sinh(x), [&] { return cosh(x); }, [&] { return sinh(x); });
    case SQRT:
    case POWH: return R(sqrt(x), [&] { return S(1) / (S(2) * sqrt(x)); }, [&] { return S(-1) / (S(4) * x * sqrt(x)); });
    case TAN: return R(tan(x), [&] { return S(1) + tan(x) * tan(x); }, [&] { return S(2) * tan(x) * (S(1) + tan(x) * tan(x)); });
    case TANH: return R(tanh(x), [&] { return S(1) - tanh(x) * tanh(x); }, [&] { return S(-2) * tanh(x) * (S(1) - tanh(x) * tanh(x)); });
    case POW2: return R(x * x, [&] { return S(2) * x; }, [&] { return S(2); });
    case POW3: return R(x * x * x, [&] { return S(3) * x * x; }, [&] { return S(6) * x; });
    case POWM1: return R(S(1) / x, [&] { return S(-1) / (x * x); }, [&] { return S(2) / (x * x * x); });
    case POW0: return R(S(1), zero, zero);
    case POW1: return R(x, [] { return S(1); }, zero);
  }
  return a;
}
inline void bin_domain(H& h, int op, S a, S b, bool strict = true) {
  switch (op) {
    case DIV: h.assume_ne(b, S(0)); break;
    case ATAN2: h.assume_lt(S(0), a * a + b * b); break;
    case HYPOT:
      if (strict) h.assume_lt(S(0), a * a + b * b);
      break;
    case POW: h.assume_lt(S(0), a); break;
    default: break;
  }
}
inline V bin_apply(int op, const V& a, const V& b) {
  switch (op) {
    case ADD: return a + b;
    case SUB: return a - b;
    case MUL: return a * b;
    case DIV: return a / b;
    case ATAN2: return slp::atan2(a, b);
    case HYPOT: return slp::hypot(a, b);
    case MAX: return slp::max(a, b);
    case MIN: return slp::min(a, b);
    case POW: return slp::pow(a, b);
  }
  return a;
}
inline Jet bin_ref(int op, const Jet& A, const Jet& B, bool value_only = false) {
  using std::atan2, std::sqrt, std::pow, std::log;
  S a = A.v, b = B.v, z = S(0), o = S(1);
  switch (op) {
    case ADD: return chain2(A, B, a + b, o, o, z, z, z);
    case SUB: return chain2(A, B, a - b, o, S(-1), z, z, z);
    case MUL: return chain2(A, B, a * b, b, a, z, o, z);
    case DIV: return chain2(A, B, a / b, o / b, -a / (b * b), z, S(-1) / (b * b), S(2) * a / (b * b * b));
    case ATAN2: {
      if (value_only) return Jet(atan2(a, b));
      S q = a * a + b * b, q2 = q * q;
      return chain2(A, B, atan2(a, b), b / q, -a / q, S(-2) * a * b / q2, (a * a - b * b) / q2, S(2) * a * b / q2);
    }
    case HYPOT: {
      S r = sqrt(a * a + b * b);
      if (value_only) return Jet(r);
      S r3 = r * r * r;
      return chain2(A, B, r, a / r, b / r, b * b / r3, -a * b / r3, a * a / r3);
    }
    case MAX:
      if (a >= b) return chain2(A, B, a, o, z, z, z, z);
      return chain2(A, B, b, z, o, z, z, z);
    case MIN:
      if (a <= b) return chain2(A, B, a, o, z, z, z, z);
      return chain2(A, B, b, z, o, z, z, z);
    case POW: {
      if (value_only) return Jet(pow(a, b));
      S f = pow(a, b), l = log(a), f1 = pow(a, b - o), f2 = pow(a, b - o - o);
      return chain2(A, B, f, b * f1, f * l, b * (b - o) * f2, f1 * b * l + f / a, f * l * l);
    }
  }
  return A;
}

inline VM column(std::initializer_list<V> xs) {
  VM m(slp::detail::empty, (int)xs.size(), 1);
  int i = 0;
  for (auto& x : xs) m[i++] = x;
  return m;
}
