// Constraint construction: normalisation to standard form, broadcasting,
// truth value, concatenation.
#include "jet.hpp"

using VB = slp::VariableBlock<VM>;
using CVB = slp::VariableBlock<const VM>;
using EM = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
using EC = slp::EqualityConstraints<S>;
using IC = slp::InequalityConstraints<S>;
using slp::Slice;
using slp::slicing::_;

struct In {
  std::vector<std::pair<V, S>> pending;
  void flush() {
    for (auto& [v, s] : pending) v.set_value(s);
  }
};
struct Side {
  int r = 1, c = 1;
  bool scalar = false;
  std::vector<S> d;
  const S& at(int i, int j) const { return scalar ? d[0] : d[i * c + j]; }
};
// kinds: 0 variable, 1 expression, 2 number, 3 int, 4 matrix, 5 strided block,
// 6 const block, 7 constant Eigen matrix, 8 matrix rvalue (expression)
template <typename F>
static void side(H& h, In& in, const std::string& n, int kind, int r, int c, F&& f) {
  Side s;
  auto var = [&](const std::string& m) {
    V v;
    S x = h.real(m);
    in.pending.emplace_back(v, x);
    return std::pair{v, x};
  };
  if (kind <= 3) {
    s.scalar = true;
    if (kind == 0) {
      auto [v, x] = var(n);
      s.d = {x};
      f(v, s);
    } else if (kind == 1) {
      auto [v, x] = var(n);
      s.d = {x * x - S(1)};
      f(v * v - S(1), s);
    } else if (kind == 2) {
      S x = h.real(n);
      s.d = {x};
      f(x, s);
    } else {
      s.d = {S(2)};
      f(2, s);
    }
    return;
  }
  s.r = r;
  s.c = c;
  auto mat = [&](int R, int C) {
    VM m(R, C);
    for (int i = 0; i < R; ++i)
      for (int j = 0; j < C; ++j) {
        auto [v, x] = var(n + std::to_string(i) + std::to_string(j));
        m[i, j] = v;
        s.d.push_back(x);
      }
    return m;
  };
  if (kind == 4) {
    VM m = mat(r, c);
    f(m, s);
  } else if (kind == 5) {
    VM m = mat(r, c);
    std::reverse(s.d.begin(), s.d.end());
    f(m[Slice{_, _, -1}, Slice{_, _, -1}], s);
  } else if (kind == 6) {
    const VM m = mat(r, c);
    f(m.block(0, 0, r, c), s);
  } else if (kind == 7) {
    EM m(r, c);
    for (int i = 0; i < r; ++i)
      for (int j = 0; j < c; ++j) {
        S x = (i + j) % 2 ? S(3) : h.real(n + std::to_string(i) + std::to_string(j));
        m(i, j) = x;
        s.d.push_back(x);
      }
    f(m, s);
  } else {
    VM m = mat(r, c);
    for (auto& x : s.d) x = S(2) * x;
    f(S(2) * m, s);
  }
}
static void compare(H& h, int op, bool truth) {
  int ka = h.choose("lhs kind", 9), kb = h.choose("rhs kind", 9);
  auto slei = [](int k) { return k != 2 && k != 3 && k != 7; };
  if (!slei(ka) && !slei(kb)) return;
  int shp = h.choose("shape", truth ? 2 : 3);
  static const int R[] = {1, 2, 2}, C[] = {2, 1, 3};
  if (ka <= 3 && kb <= 3 && shp) return;
  int r = R[shp], c = C[shp];
  In in;
  side(h, in, "l", ka, r, c, [&](auto&& l, Side& sl) {
    side(h, in, "r", kb, r, c, [&](auto&& rr, Side& sr) {
      if constexpr (slp::SleipnirType<decltype(l)> || slp::SleipnirType<decltype(rr)>) {
        bool sc = sl.scalar && sr.scalar;
        int rows = sc ? 1 : r, cols = sc ? 1 : c;
        auto judge = [&](auto con, bool equality, int sign) {
          in.flush();
          h.eq("number of scalar constraints", con.constraints.size(), rows * cols);
          if ((int)con.constraints.size() != rows * cols) return;
          bool all = true;
          for (int i = 0; i < rows; ++i)
            for (int j = 0; j < cols; ++j) {
              S d = sl.at(i, j) - sr.at(i, j);
              if (truth) {
                all = all && (equality ? d == S(0) : sign > 0 ? d >= S(0) : d <= S(0));
                continue;
              }
              S v = V(con.constraints[i * cols + j]).value();
              if (equality) h.check_eq("equality constraint is zero exactly where the sides agree", v * v, d * d);
              else h.check_eq("inequality constraint is its greater side minus its lesser side", v, sign > 0 ? d : -d);
            }
          if (truth) h.check("truth value", static_cast<bool>(con) == all);
        };
        switch (op) {
          case 0: judge(l == rr, true, 0); break;
          case 1: judge(l >= rr, false, 1); break;
          case 2: judge(l > rr, false, 1); break;
          case 3: judge(l <= rr, false, -1); break;
          case 4: judge(l < rr, false, -1); break;
        }
      }
    });
  });
}
#define B_C "every pair of operand kinds (variable, expression, number, int, matrix, reversed block, const block, constant Eigen matrix, matrix expression) that contains a symbolic side, shapes 1x2, 2x1, 2x3; all real values"
HARNESS_SHARDED(c01_normal_form, 5, B_C) { compare(h, h.choose("shard", 5), false); }
HARNESS_SHARDED(c01_truth_value, 5, B_C) { compare(h, h.choose("shard", 5), true); }
HARNESS(c01_concatenate, "concatenation of up to three constraint sets of different sizes (initializer list and vector), both kinds; bounds(l, x, u) with scalar and matrix operands") {
  In in;
  std::vector<S> xs;
  auto mk = [&](int n) {
    VM m(n, 1);
    for (int i = 0; i < n; ++i) {
      S x = h.real("x" + std::to_string(xs.size()));
      xs.push_back(x);
      in.pending.emplace_back(m[i], x);
    }
    return m;
  };
  int mode = h.choose("mode", 6);
  auto cmp = [&](auto& con, const std::vector<S>& ref, bool sq) {
    in.flush();
    h.eq("size", con.constraints.size(), ref.size());
    if (con.constraints.size() != ref.size()) return;
    for (size_t i = 0; i < ref.size(); ++i) {
      S v = V(con.constraints[i]).value();
      h.check_eq("concatenated constraint", sq ? v * v : v, sq ? ref[i] * ref[i] : ref[i]);
    }
  };
  if (mode < 4) {
    int a = 1 + h.choose("a", 3), b = 1 + h.choose("b", 2), c = h.choose("c", 3);
    VM A = mk(a), B = mk(b), C = mk(c);
    S k = h.real("k");
    std::vector<S> ref;
    for (auto& x : xs) ref.push_back(x - k);
    if (mode == 0) {
      EC con{A == k, B == k, C == k};
      cmp(con, ref, true);
    } else if (mode == 1) {
      EC con{std::vector<EC>{A == k, B == k, C == k}};
      cmp(con, ref, true);
    } else if (mode == 2) {
      IC con{A >= k, B >= k, C >= k};
      cmp(con, ref, false);
    } else {
      IC con{std::vector<IC>{A >= k, B >= k, C >= k}};
      cmp(con, ref, false);
    }
  } else {
    int n = 1 + h.choose("n", 2);
    VM X = mk(n);
    S l = h.real("l"), u = h.real("u");
    std::vector<S> ref;
    for (int i = 0; i < n; ++i) ref.push_back(xs[i] - l);
    for (int i = 0; i < n; ++i) ref.push_back(u - xs[i]);
    if (mode == 4) {
      IC con = slp::bounds(l, X, u);
      cmp(con, ref, false);
    } else {
      EM L = EM::Constant(n, 1, l);
      IC con = slp::bounds(L, X, u);
      cmp(con, ref, false);
    }
  }
}
