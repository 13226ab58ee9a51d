// Variable matrices, blocks and slices against element-wise reference formulas.
#include "jet.hpp"

#include <functional>

using VB = slp::VariableBlock<VM>;
using CVB = slp::VariableBlock<const VM>;
using EM = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
using slp::Slice;
using slp::slicing::_;
// reference matrices are plain row-major vectors so that they do not share any
// code with Eigen or the library
struct Ref {
  int r = 0, c = 0;
  std::vector<S> d;
  Ref(int r_, int c_) : r(r_), c(c_), d(r_ * c_, S(0)) {}
  S& operator()(int i, int j) { return d[i * c + j]; }
  const S& operator()(int i, int j) const { return d[i * c + j]; }
};
static Ref rmul(const Ref& a, const Ref& b) {
  Ref o(a.r, b.c);
  for (int i = 0; i < a.r; ++i)
    for (int j = 0; j < b.c; ++j)
      for (int k = 0; k < a.c; ++k) o(i, j) = o(i, j) + a(i, k) * b(k, j);
  return o;
}
static Ref rmap(const Ref& a, const Ref& b, int op) {
  Ref o(a.r, a.c);
  for (size_t i = 0; i < a.d.size(); ++i) o.d[i] = op == 0 ? a.d[i] + b.d[i] : op == 1 ? a.d[i] - b.d[i] : a.d[i] * b.d[i];
  return o;
}
static Ref rscale(const Ref& a, const S& s, bool div = false) {
  Ref o(a.r, a.c);
  for (size_t i = 0; i < a.d.size(); ++i) o.d[i] = div ? a.d[i] / s : a.d[i] * s;
  return o;
}
template <typename M>
static void same(H& h, const std::string& t, M&& m, const Ref& r) {
  h.eq(t + " rows", m.rows(), r.r);
  h.eq(t + " cols", m.cols(), r.c);
  if (m.rows() != r.r || m.cols() != r.c) return;
  for (int i = 0; i < r.r; ++i)
    for (int j = 0; j < r.c; ++j) {
      V e = m[i, j];
      h.check_eq(t + " element", e.value(), r(i, j));
    }
}
// Inputs are created as decision variables with value zero; their symbolic
// values are stored only after the expression was built, so the result has to
// be linked to the inputs and not to their values at construction.
struct In {
  std::vector<std::pair<V, S>> pending;
  void flush() {
    for (auto& [v, s] : pending) v.set_value(s);
  }
};
static VM fresh(H& h, In& in, const std::string& n, int r, int c, Ref* ref) {
  VM m(r, c);
  for (int i = 0; i < r; ++i)
    for (int j = 0; j < c; ++j) {
      S x = h.real(n + std::to_string(i) + std::to_string(j));
      in.pending.emplace_back(m[i, j], x);
      if (ref) (*ref)(i, j) = x;
    }
  return m;
}
// Operand kinds: 0 whole matrix, 1 strided block of a larger matrix, 2 reversed
// block, 3 const block, 4 constant Eigen matrix.
template <typename F>
static void operand(H& h, In& in, const std::string& n, int kind, int r, int c, F&& f) {
  Ref ref(r, c);
  if (kind == 0) {
    VM m = fresh(h, in, n, r, c, &ref);
    f(m, ref);
  } else if (kind == 1) {
    Ref big(2 * r + 1, 2 * c + 1);
    VM m = fresh(h, in, n, 2 * r + 1, 2 * c + 1, &big);
    for (int i = 0; i < r; ++i)
      for (int j = 0; j < c; ++j) ref(i, j) = big(1 + 2 * i, 1 + 2 * j);
    VB b = m[Slice{1, _, 2}, Slice{1, _, 2}];
    f(b, ref);
  } else if (kind == 2) {
    Ref big(r, c);
    VM m = fresh(h, in, n, r, c, &big);
    for (int i = 0; i < r; ++i)
      for (int j = 0; j < c; ++j) ref(i, j) = big(r - 1 - i, c - 1 - j);
    VB b = m[Slice{_, _, -1}, Slice{_, _, -1}];
    f(b, ref);
  } else if (kind == 3) {
    Ref big(r + 1, c + 1);
    const VM m = fresh(h, in, n, r + 1, c + 1, &big);
    for (int i = 0; i < r; ++i)
      for (int j = 0; j < c; ++j) ref(i, j) = big(1 + i, 1 + j);
    CVB b = m.block(1, 1, r, c);
    f(b, ref);
  } else {
    EM m(r, c);
    for (int i = 0; i < r; ++i)
      for (int j = 0; j < c; ++j) {
        int k = (i * c + j) % 3;
        S x = k == 0 ? h.real(n + std::to_string(i) + std::to_string(j), 1, 5) : k == 1 ? S(-2) : S(0);
        m(i, j) = x;
        ref(i, j) = x;
      }
    f(m, ref);
  }
}
template <typename A, typename B>
constexpr bool both_eigen = !slp::SleipnirType<A> && !slp::SleipnirType<B>;

// ------------------------------------------------------------- M01 arithmetic
HARNESS_SHARDED(m01_product, 12, "A(r x k)*B(k x c), r,k,c <= 3 (rectangular) and (1,5,1), (2,5,2), (4,1,4), operands: matrix, strided block, reversed block, const block, constant matrix") {
  int s = h.choose("shard", 12);
  static const int shp[12][3] = {{1, 1, 1}, {2, 2, 2}, {1, 3, 2}, {3, 1, 2}, {2, 3, 1}, {2, 1, 3}, {3, 2, 2}, {1, 2, 1}, {2, 3, 2}, {1, 5, 1}, {2, 5, 2}, {4, 1, 4}};
  int ka = h.choose("kindA", 5), kb = h.choose("kindB", 5);
  if (ka == 4 && kb == 4) return;
  In in;
  operand(h, in, "a", ka, shp[s][0], shp[s][1], [&](auto& a, Ref& ra) {
    operand(h, in, "b", kb, shp[s][1], shp[s][2], [&](auto& b, Ref& rb) {
      if constexpr (!both_eigen<decltype(a), decltype(b)>) {
        VM c = a * b;
        in.flush();
        same(h, "A*B", c, rmul(ra, rb));
      }
    });
  });
}
HARNESS_SHARDED(m01_sum_difference, 4, "A+B, A-B, A+=B, A-=B, -A, T(), r,c <= 3, all operand kinds") {
  int s = h.choose("shard", 4);
  static const int shp[4][2] = {{1, 1}, {2, 3}, {3, 2}, {3, 1}};
  int r = shp[s][0], c = shp[s][1];
  int ka = h.choose("kindA", 5), kb = h.choose("kindB", 5), op = h.choose("op", 4);
  if (ka == 4 && kb == 4) return;
  In in;
  operand(h, in, "a", ka, r, c, [&](auto& a, Ref& ra) {
    operand(h, in, "b", kb, r, c, [&](auto& b, Ref& rb) {
      if constexpr (!both_eigen<decltype(a), decltype(b)>) {
        using A = std::decay_t<decltype(a)>;
        if (op == 0) {
          VM x = a + b;
          in.flush();
          same(h, "A+B", x, rmap(ra, rb, 0));
        } else if (op == 1) {
          VM x = a - b;
          in.flush();
          same(h, "A-B", x, rmap(ra, rb, 1));
        } else if constexpr (std::same_as<A, VM> || std::same_as<A, VB>) {
          if (op == 2) a += b;
          else a -= b;
          in.flush();
          same(h, op == 2 ? "A+=B" : "A-=B", a, rmap(ra, rb, op - 2));
        }
      }
    });
  });
}
HARNESS(m01_unary, "-A and T() of a matrix and of blocks, shapes <= 3") {
  int r = 1 + h.choose("r", 3), c = 1 + h.choose("c", 3), k = h.choose("kind", 4);
  In in;
  operand(h, in, "a", k, r, c, [&](auto& a, Ref& ra) {
    if constexpr (slp::SleipnirType<decltype(a)>) {
      VM t = a.T(), n = -a;
      VM cp{a};
      in.flush();
      Ref rt(c, r), rn(r, c);
      for (int i = 0; i < r; ++i)
        for (int j = 0; j < c; ++j) rt(j, i) = ra(i, j), rn(i, j) = -ra(i, j);
      same(h, "transpose", t, rt);
      same(h, "negation", n, rn);
      same(h, "copy", cp, ra);
    }
  });
}
HARNESS_SHARDED(m01_scalar_ops, 2, "A*s, s*A, A/s, A*=s, A/=s with s a variable, an expression, a constant, a number or an int; all matrix operand kinds, 2x2 and 3x1") {
  int r = h.choose("shard", 2) ? 3 : 2, c = r == 3 ? 1 : 2;
  int k = h.choose("kind", 4), op = h.choose("op", 5), sk = h.choose("scalar", 4);
  In in;
  S sv = h.real("s", 0.5, 4);
  V s;
  operand(h, in, "a", k, r, c, [&](auto& a, Ref& ra) {
    auto go = [&](auto sc, S ref) {
      using A = std::decay_t<decltype(a)>;
      using T = std::decay_t<decltype(sc)>;
      if constexpr (slp::SleipnirType<A>) {
        if (op == 0) {
          VM x = a * sc;
          in.flush();
          same(h, "A*s", x, rscale(ra, ref));
        } else if (op == 1) {
          VM x = sc * a;
          in.flush();
          same(h, "s*A", x, rscale(ra, ref));
        } else if (op == 2) {
          VM x = a / sc;
          in.flush();
          same(h, "A/s", x, rscale(ra, ref, true));
        } else if constexpr (std::same_as<A, VM> || std::same_as<A, VB>) {
          if (op == 3) a *= sc;
          else a /= sc;
          in.flush();
          same(h, op == 3 ? "A*=s" : "A/=s", a, rscale(ra, ref, op == 4));
        }
      }
    };
    if (sk == 0) {
      in.pending.emplace_back(s, sv);
      go(s, sv);
    } else if (sk == 1) {
      in.pending.emplace_back(s, sv);
      go(s * s + S(1), sv * sv + S(1));
    } else if (sk == 2) {
      go(sv, sv);
    } else {
      if constexpr (slp::SleipnirType<decltype(a)>) go(3, S(3));
    }
  });
}
// Compound operators whose right-hand side is (part of) the left-hand side.
HARNESS(m01_aliasing, "A op= A, A op= block of A, A *= A[i,j], A /= A[i,j], block *= own matrix; n <= 2, all elements") {
  int n = 1 + h.choose("n", 2), op = h.choose("op", 9), blk = h.choose("block", 2);
  int ei = h.choose("i", n), ej = h.choose("j", n);
  if (op < 5 && (ei || ej)) return;
  In in;
  Ref r(n, n);
  VM base = fresh(h, in, "a", n, n, &r);
  VB b{base};
  Ref e(n, n);
  auto go = [&](auto& A) {
    using A_t = std::decay_t<decltype(A)>;
    switch (op) {
      case 0: A += A; e = rmap(r, r, 0); break;
      case 1: A -= A; e = rmap(r, r, 1); break;
      case 2: A *= A; e = rmul(r, r); break;
      case 3: A *= base.T(); {
        Ref t(n, n);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) t(i, j) = r(j, i);
        e = rmul(r, t);
      } break;
      case 4: if constexpr (std::same_as<A_t, VM>) A *= b; else A *= base; e = rmul(r, r); break;
      case 5: A *= A[ei, ej]; e = rscale(r, r(ei, ej)); break;
      case 6: h.assume_ne(r(ei, ej), S(0)); A /= A[ei, ej]; e = rscale(r, r(ei, ej), true); break;
      case 7: A = A * A[ei, ej]; e = rscale(r, r(ei, ej)); break;
      case 8: A = A * A; e = rmul(r, r); break;
    }
    in.flush();
    same(h, "aliased compound operator", A, e);
    if (op == 0 || op == 2 || op == 5) same(h, "through the block", base, e);
  };
  if (blk) go(b);
  else go(base);
}
HARNESS(m01_scalar_1x1, "1x1 matrices and blocks with scalars: +=, -=, conversion, assignment; all values") {
  In in;
  S x = h.real("x"), y = h.real("y"), w = h.real("w");
  V vy;
  in.pending.emplace_back(vy, y);
  VM m(1, 1);
  in.pending.emplace_back(m[0], x);
  VM big(2, 2);
  in.pending.emplace_back(big[1, 0], w);
  VB b = big.block(1, 0, 1, 1);
  int op = h.choose("op", 6);
  if (op == 0) {
    m += vy;
    b += vy;
    in.flush();
    h.check_eq("+=", m[0].value(), x + y);
    h.check_eq("+= block", big[1, 0].value(), w + y);
  } else if (op == 1) {
    m -= vy;
    b -= 2;
    in.flush();
    h.check_eq("-=", m[0].value(), x - y);
    h.check_eq("-= block", big[1, 0].value(), w - S(2));
  } else if (op == 2) {
    V q = m, p = b;
    V s = q * p;
    in.flush();
    h.check_eq("conversion", s.value(), x * w);
  } else if (op == 3) {
    m = vy;
    b = vy;
    in.flush();
    h.check_eq("scalar assignment", m[0].value(), y);
    h.check_eq("scalar assignment to block", big[1, 0].value(), y);
    h.check_eq("other elements untouched", big[1, 1].value(), S(0));
  } else if (op == 4) {
    b.set_value(y);
    h.check_eq("set_value on block", big[1, 0].value(), y);
    V direct = big[1, 0];
    h.check_eq("set_value keeps identity", direct.value(), y);
  } else {
    // sums with scalars
    VM s1 = m + VM{vy}, s2 = VM{vy} - m;
    in.flush();
    h.check_eq("1x1 sum", s1[0].value(), x + y);
    h.check_eq("1x1 difference", s2[0].value(), y - x);
  }
}
// ------------------------------------------------- M02 indexing, slicing, blocks
static std::vector<int> py(int len, int kind_start, int start, int kind_stop, int stop, int step) {
  // Python's slice.indices() written from its documentation
  std::vector<int> out;
  int lo, hi;
  if (step > 0) {
    lo = kind_start ? 0 : start < 0 ? std::max(start + len, 0) : std::min(start, len);
    hi = kind_stop ? len : stop < 0 ? std::max(stop + len, 0) : std::min(stop, len);
    for (int i = lo; i < hi; i += step) out.push_back(i);
  } else {
    lo = kind_start ? len - 1 : start < 0 ? std::max(start + len, -1) : std::min(start, len - 1);
    hi = kind_stop ? -1 : stop < 0 ? std::max(stop + len, -1) : std::min(stop, len - 1);
    for (int i = lo; i > hi; i += step) out.push_back(i);
  }
  return out;
}
struct Sl {
  Slice s;
  std::vector<int> ix;
};
static Sl pick(H& h, const std::string& n, int len, bool rich) {
  static const int steps[] = {1, -1, 2, -2, 3};
  int step = steps[h.choose(n + "step", rich ? 5 : 3)];
  int ks = h.choose(n + "start", rich ? 4 : 3), kp = h.choose(n + "stop", rich ? 4 : 3);
  int starts[] = {0, 1, -1, len + 1}, stops[] = {0, len - 1, -1, -len};
  int st = starts[ks], sp = stops[kp];
  bool ns = ks == 0, np = kp == 0;
  Slice s = ns && np ? Slice{_, _, step} : ns ? Slice{_, sp, step} : np ? Slice{st, _, step} : Slice{st, sp, step};
  return {s, py(len, ns, st, np, sp, step)};
}
// The matrix stores distinct symbolic values; a view must read and write
// exactly the selected elements.
static VM valued(H& h, int r, int c, Ref& ref) {
  VM m(r, c);
  for (int i = 0; i < r; ++i)
    for (int j = 0; j < c; ++j) {
      S x = h.real("m" + std::to_string(i) + std::to_string(j));
      m[i, j].set_value(x);
      ref(i, j) = x;
    }
  return m;
}
static Ref sub(const Ref& b, const std::vector<int>& ri, const std::vector<int>& ci) {
  Ref o(ri.size(), ci.size());
  for (size_t i = 0; i < ri.size(); ++i)
    for (size_t j = 0; j < ci.size(); ++j) o(i, j) = b(ri[i], ci[j]);
  return o;
}
static std::vector<int> iota(int off, int n) {
  std::vector<int> v;
  for (int i = 0; i < n; ++i) v.push_back(off + i);
  return v;
}
static std::vector<int> via(const std::vector<int>& base, const std::vector<int>& ix) {
  std::vector<int> v;
  for (int i : ix) v.push_back(base[i]);
  return v;
}
HARNESS_SHARDED(m02_slices_read, 4, "4x3 and 3x5 matrices, every slice pair from start/stop in {none, inside, negative, past the end} and step in {1,-1,2,-2,3}; mutable and const; all element values") {
  int s = h.choose("shard", 4);
  int r = s & 1 ? 3 : 4, c = s & 1 ? 5 : 3;
  Ref ref(r, c);
  VM m = valued(h, r, c, ref);
  Sl a = pick(h, "r", r, s < 2), b = pick(h, "c", c, s >= 2);
  const VM& cm = m;
  same(h, "slice", m[a.s, b.s], sub(ref, a.ix, b.ix));
  same(h, "const slice", cm[a.s, b.s], sub(ref, a.ix, b.ix));
  VM copy = m[a.s, b.s];
  same(h, "copy of slice", copy, sub(ref, a.ix, b.ix));
  Ref t = sub(ref, a.ix, b.ix), tt(t.c, t.r);
  for (int i = 0; i < t.r; ++i)
    for (int j = 0; j < t.c; ++j) tt(j, i) = t(i, j);
  same(h, "transpose of slice", m[a.s, b.s].T(), tt);
  auto blk = m[a.s, b.s];
  h.eq("size", blk.size(), (long)t.d.size());
  EM val = blk.value();
  for (int i = 0; i < t.r; ++i)
    for (int j = 0; j < t.c; ++j) {
      h.check_eq("value()", val(i, j), t(i, j));
      h.check_eq("linear index", blk[i * t.c + j].value(), t(i, j));
      h.check_eq("value(r,c)", blk.value(i, j), t(i, j));
      h.check_eq("value(i)", blk.value(i * t.c + j), t(i, j));
    }
}
static void nested(H& h, bool deep) {
  int s = h.choose("shard", 5);
  int r = 5, c = 4;
  Ref ref(r, c);
  VM m = valued(h, r, c, ref);
  // shard fixes the outer row step
  static const int steps[] = {1, -1, 2, -2, 3};
  int st = steps[s];
  int off = h.choose("outer start", 2);
  Slice os = off ? Slice{st > 0 ? 1 : -2, _, st} : Slice{_, _, st};
  std::vector<int> ox = py(r, !off, st > 0 ? 1 : -2, true, 0, st);
  static const int csteps[] = {1, -1, 2};
  int cs = csteps[h.choose("outer col step", 3)];
  std::vector<int> oc = py(c, true, 0, true, 0, cs);
  VB outer = m[os, Slice{_, _, cs}];
  same(h, "outer slice", outer, sub(ref, ox, oc));
  Sl a = pick(h, "r", (int)ox.size(), deep), b = pick(h, "c", (int)oc.size(), false);
  VB inner = outer[a.s, b.s];
  std::vector<int> ix = via(ox, a.ix), jx = via(oc, b.ix);
  same(h, "slice of slice", inner, sub(ref, ix, jx));
  // block / row / col / segment of the slice
  if (!ix.empty() && !jx.empty()) {
    same(h, "row of slice", inner.row((int)ix.size() - 1), sub(ref, {ix.back()}, jx));
    same(h, "col of slice", inner.col((int)jx.size() - 1), sub(ref, ix, {jx.back()}));
    same(h, "block of slice", inner.block((int)ix.size() - 1, 0, 1, (int)jx.size()), sub(ref, {ix.back()}, jx));
    if (jx.size() == 1) same(h, "segment of slice", inner.segment((int)ix.size() - 1, 1), sub(ref, {ix.back()}, jx));
  }
  // the same selections through const views and views of a const matrix
  const VB ko = outer;
  const VM& cm = m;
  const CVB co = cm[os, Slice{_, _, cs}];
  auto konst = [&](const char* w, const auto& v) {
    auto in = v[a.s, b.s];
    std::string p = w;
    same(h, p + " slice of slice", in, sub(ref, ix, jx));
    if (ix.empty() || jx.empty()) return;
    const auto& ci = in;
    same(h, p + " row", ci.row((int)ix.size() - 1), sub(ref, {ix.back()}, jx));
    same(h, p + " col", ci.col((int)jx.size() - 1), sub(ref, ix, {jx.back()}));
    same(h, p + " block", ci.block((int)ix.size() - 1, 0, 1, (int)jx.size()), sub(ref, {ix.back()}, jx));
    same(h, p + " copy", VM{ci}, sub(ref, ix, jx));
    if (jx.size() == 1) same(h, p + " segment", ci.segment((int)ix.size() - 1, 1), sub(ref, {ix.back()}, jx));
  };
  konst("const view", ko);
  konst("view of const", co);
}
HARNESS_SHARDED(m02_nested_slices, 5, "slice of a slice of a 5x4 matrix, outer row step in {1,-1,2,-2,3} and column step in {1,-1,2}, inner slices as above; rows, columns, blocks and segments of the result") { nested(h, false); }
HARNESS_X(m02_nested_slices_deep, 5, true, "as m02_nested_slices with the full inner row slice menu") { nested(h, true); }
HARNESS_SHARDED(m02_blocks, 4, "every block/segment/row/col of matrices up to 3x3 (mutable and const), and every block of a block") {
  int s = h.choose("shard", 4);
  int r = s == 0 ? 3 : s == 1 ? 2 : s == 2 ? 3 : 1, c = s == 0 ? 3 : s == 1 ? 3 : s == 2 ? 1 : 3;
  Ref ref(r, c);
  VM m = valued(h, r, c, ref);
  const VM& cm = m;
  int i = h.choose("i", r), j = h.choose("j", c);
  int br = h.choose("br", r - i + 1), bc = h.choose("bc", c - j + 1);
  same(h, "block", m.block(i, j, br, bc), sub(ref, iota(i, br), iota(j, bc)));
  same(h, "const block", cm.block(i, j, br, bc), sub(ref, iota(i, br), iota(j, bc)));
  same(h, "row", m.row(i), sub(ref, {i}, iota(0, c)));
  same(h, "const row", cm.row(i), sub(ref, {i}, iota(0, c)));
  same(h, "col", m.col(j), sub(ref, iota(0, r), {j}));
  same(h, "const col", cm.col(j), sub(ref, iota(0, r), {j}));
  h.check_eq("element", m[i, j].value(), ref(i, j));
  h.check_eq("const element", V(cm[i, j]).value(), ref(i, j));
  h.check_eq("linear", m[i * c + j].value(), ref(i, j));
  h.check_eq("const linear", V(cm[i * c + j]).value(), ref(i, j));
  h.check_eq("value(i)", m.value(i * c + j), ref(i, j));
  h.check_eq("value(r,c)", m.value(i, j), ref(i, j));
  if (c == 1) {
    same(h, "segment", m.segment(i, br), sub(ref, iota(i, br), {0}));
    same(h, "const segment", cm.segment(i, br), sub(ref, iota(i, br), {0}));
  }
  if (br && bc) {
    VB b = m.block(i, j, br, bc);
    int i2 = h.choose("i2", br), j2 = h.choose("j2", bc);
    same(h, "block of block", b.block(i2, j2, br - i2, bc - j2), sub(ref, iota(i + i2, br - i2), iota(j + j2, bc - j2)));
    same(h, "row of block", b.row(i2), sub(ref, {i + i2}, iota(j, bc)));
    same(h, "col of block", b.col(j2), sub(ref, iota(i, br), {j + j2}));
    h.check_eq("element of block", b[i2, j2].value(), ref(i + i2, j + j2));
    h.check_eq("linear element of block", b[i2 * bc + j2].value(), ref(i + i2, j + j2));
    if (bc == 1) same(h, "segment of block", b.segment(i2, br - i2), sub(ref, iota(i + i2, br - i2), {j}));
    const VB kb = m.block(i, j, br, bc);
    same(h, "slice of a const view", kb[Slice{i2, _}, Slice{j2, _}], sub(ref, iota(i + i2, br - i2), iota(j + j2, bc - j2)));
    same(h, "block of a const view", kb.block(i2, j2, br - i2, bc - j2), sub(ref, iota(i + i2, br - i2), iota(j + j2, bc - j2)));
    same(h, "row of a const view", kb.row(i2), sub(ref, {i + i2}, iota(j, bc)));
    same(h, "col of a const view", kb.col(j2), sub(ref, iota(i, br), {j + j2}));
    if (bc == 1) same(h, "segment of a const view", kb.segment(i2, br - i2), sub(ref, iota(i + i2, br - i2), {j}));
    const CVB cb = cm.block(i, j, br, bc);
    if (bc == 1) same(h, "segment of const block", cb.segment(i2, br - i2), sub(ref, iota(i + i2, br - i2), {j}));
    same(h, "row of const block", cb.row(i2), sub(ref, {i + i2}, iota(j, bc)));
    same(h, "col of const block", cb.col(j2), sub(ref, iota(i, br), {j + j2}));
    same(h, "block of const block", cb.block(i2, j2, br - i2, bc - j2), sub(ref, iota(i + i2, br - i2), iota(j + j2, bc - j2)));
    same(h, "slice of const block", cb[Slice{_, _, -1}, Slice{j2, _}], [&] {
      std::vector<int> rx;
      for (int q = br - 1; q >= 0; --q) rx.push_back(i + q);
      return sub(ref, rx, iota(j + j2, bc - j2));
    }());
  }
}
// Writes through views reach exactly the selected elements.
HARNESS_SHARDED(m02_writes, 6, "assignment and set_value through slices of a 4x3 matrix from matrices, blocks, constant matrices and scalars; all values; elements outside the view are untouched") {
  int s = h.choose("shard", 6);
  int r = 4, c = 3;
  Ref ref(r, c);
  VM m = valued(h, r, c, ref);
  Sl a = pick(h, "r", r, false), b = pick(h, "c", c, false);
  int br = a.ix.size(), bc = b.ix.size();
  In in;
  Ref src(br, bc);
  std::vector<V> before;
  for (int i = 0; i < r; ++i)
    for (int j = 0; j < c; ++j) before.push_back(m[i, j]);
  VB dst = m[a.s, b.s];
  auto mat = [&] { return fresh(h, in, "s", br, bc, &src); };
  auto eig = [&] {
    EM e(br, bc);
    for (int i = 0; i < br; ++i)
      for (int j = 0; j < bc; ++j) e(i, j) = src(i, j) = h.real("e" + std::to_string(i) + std::to_string(j));
    return e;
  };
  bool rebinds = true;
  if (s == 0) {
    const VM q = mat();
    dst = q;
  } else if (s == 1) {
    dst = mat();
  } else if (s == 2) {
    VM q = mat();
    VB qb{q};
    dst = qb;
  } else if (s == 3) {
    VM q = mat();
    dst = q.block(0, 0, br, bc);
  } else if (s == 4) {
    dst = eig();
  } else {
    dst.set_value(eig());
    rebinds = false;
  }
  in.flush();
  for (int i = 0; i < br; ++i)
    for (int j = 0; j < bc; ++j) ref(a.ix[i], b.ix[j]) = src(i, j);
  same(h, "after write", m, ref);
  h.eq("rows unchanged", dst.rows(), br);
  if (!rebinds)
    for (int i = 0; i < r * c; ++i) h.check_eq("set_value writes into the existing variables", before[i].value(), ref.d[i]);
}
// Writes through views of views.
static void nested_writes(H& h, bool deep) {
  int s = h.choose("shard", 4);
  int r = 5, c = 4;
  Ref ref(r, c);
  VM m = valued(h, r, c, ref);
  static const int steps[] = {2, -1, -2, 1}, csteps[] = {-1, 2, 1};
  int st = steps[s], off = h.choose("outer start", 2), cs = csteps[h.choose("outer col step", deep ? 3 : 2)];
  Slice os = off ? Slice{st > 0 ? 1 : -2, _, st} : Slice{_, _, st};
  std::vector<int> ox = py(r, !off, st > 0 ? 1 : -2, true, 0, st), oc = py(c, true, 0, true, 0, cs);
  VB outer = m[os, Slice{_, _, cs}];
  int R = ox.size(), C = oc.size(), kind = h.choose("target", 6);
  std::vector<int> ix, jx;
  auto target = [&]() -> VB {
    if (kind == 0) {  // stepped slice of the slice
      int is = h.choose("inner row step", 2) ? -1 : 2, js = h.choose("inner col step", 2) ? -1 : 2;
      ix = via(ox, py(R, true, 0, true, 0, is)), jx = via(oc, py(C, true, 0, true, 0, js));
      return outer[Slice{_, _, is}, Slice{_, _, js}];
    }
    int i = h.choose("i", R), j = h.choose("j", C);
    if (kind == 1) {
      ix = via(ox, iota(i, R - i)), jx = via(oc, iota(j, C - j));
      return outer.block(i, j, R - i, C - j);
    }
    if (kind == 2) {
      ix = {ox[i]}, jx = oc;
      return outer.row(i);
    }
    if (kind == 3) {
      ix = ox, jx = {oc[j]};
      return outer.col(j);
    }
    if (kind == 4) {  // segment of a column
      ix = via(ox, iota(i, R - i)), jx = {oc[j]};
      return outer.col(j).segment(i, R - i);
    }
    ix = {ox[i]}, jx = {oc[j]};
    return outer.block(i, j, 1, 1);
  };
  VB dst = target();
  int br = ix.size(), bc = jx.size();
  In in;
  Ref src(br, bc);
  std::vector<V> before;
  for (int i = 0; i < r * c; ++i) before.push_back(m[i]);
  int how = h.choose("how", 8);
  bool rebinds = true;
  EM e(br, bc);
  if (how < 3) {
    const VM q = fresh(h, in, "s", br, bc, &src);
    VM w = q;
    if (how == 0) dst = q;
    else if (how == 1) dst = w.block(0, 0, br, bc);
    else dst = std::move(w);
  } else {
    for (int i = 0; i < br; ++i)
      for (int j = 0; j < bc; ++j) e(i, j) = src(i, j) = h.real("e" + std::to_string(i) + std::to_string(j));
    if (how == 3) dst = e;
    else if (how == 4) {
      dst.set_value(e);
      rebinds = false;
    } else if (how == 5) {
      int q = 0;
      for (auto& v : dst) v = src.d[q++];
    } else if (how == 6) {
      for (int q = 0; q < br * bc; ++q) dst[q] = src.d[q];
    } else if (br == 1 && bc == 1) {
      if (h.choose("set", 2)) dst.set_value(src.d[0]), rebinds = false;
      else dst = src.d[0];
    } else {
      for (int i = 0; i < br; ++i)
        for (int j = 0; j < bc; ++j) dst[i, j].set_value(src(i, j));
      rebinds = false;
    }
  }
  in.flush();
  Ref want = ref;
  for (int i = 0; i < br; ++i)
    for (int j = 0; j < bc; ++j) want(ix[i], jx[j]) = src(i, j);
  same(h, "after nested write", m, want);
  for (int i = 0; i < r * c; ++i) h.check_eq("earlier handles", before[i].value(), rebinds ? ref.d[i] : want.d[i]);
}
HARNESS_SHARDED(m02_nested_writes, 4, "assignment (matrix, moved matrix, block, constant matrix, element, iterator, scalar) and set_value through a slice, block, row, column, column segment or 1x1 block of a stepped slice of a 5x4 matrix; all values; other elements and, for assignments, previously taken handles keep theirs") { nested_writes(h, false); }
HARNESS_X(m02_nested_writes_deep, 4, true, "as m02_nested_writes with three outer column steps") { nested_writes(h, true); }
HARNESS(m02_construct, "all constructors: nested lists, vectors, spans, Eigen dense and diagonal, variables, blocks, static factories; shapes <= 3x4; all values") {
  int r = 1 + h.choose("r", 3), c = 1 + h.choose("c", 4), k = h.choose("ctor", 14);
  Ref ref(r, c);
  In in;
  VM src = fresh(h, in, "x", r, c, &ref);
  auto num = [&] {
    std::vector<std::vector<S>> v;
    for (int i = 0; i < r; ++i) {
      v.emplace_back();
      for (int j = 0; j < c; ++j) v.back().push_back(ref(i, j));
    }
    return v;
  };
  std::vector<V> flat;
  for (int i = 0; i < r * c; ++i) flat.push_back(src[i]);
  if (k == 0) {
    if (r != 2 || c != 2) return;
    VM m{{src[0, 0], src[0, 1]}, {src[1, 0], src[1, 1]}};
    in.flush();
    same(h, "initializer list", m, ref);
  } else if (k == 1) {
    VM m{num()};
    same(h, "vector of numbers", m, ref);
  } else if (k == 2) {
    std::vector<std::vector<V>> v;
    for (int i = 0; i < r; ++i) {
      v.emplace_back();
      for (int j = 0; j < c; ++j) v.back().push_back(src[i, j]);
    }
    VM m{v};
    in.flush();
    same(h, "vector of variables", m, ref);
  } else if (k == 3) {
    VM m{std::span<const V>{flat}, r, c};
    in.flush();
    same(h, "span", m, ref);
  } else if (k == 4) {
    VM m{std::span<const V>{flat}};
    in.flush();
    Ref col(r * c, 1);
    col.d = ref.d;
    same(h, "span column", m, col);
  } else if (k == 5) {
    EM e(r, c);
    for (int i = 0; i < r; ++i)
      for (int j = 0; j < c; ++j) e(i, j) = ref(i, j);
    VM m{e};
    same(h, "eigen dense", m, ref);
    VM t{e.transpose()};
    Ref rt(c, r);
    for (int i = 0; i < r; ++i)
      for (int j = 0; j < c; ++j) rt(j, i) = ref(i, j);
    same(h, "eigen expression", t, rt);
    VM a(r, c);
    V first = a[0, 0];
    a = e;
    same(h, "eigen assignment", a, ref);
  } else if (k == 6) {
    Eigen::Vector<S, Eigen::Dynamic> d(r);
    for (int i = 0; i < r; ++i) d(i) = ref(i, 0);
    VM m{d.asDiagonal()};
    Ref rd(r, r);
    for (int i = 0; i < r; ++i) rd(i, i) = ref(i, 0);
    same(h, "eigen diagonal", m, rd);
  } else if (k == 7) {
    VM m{src[0, 0]}, m2{V(src[0, 0])};
    in.flush();
    Ref one(1, 1);
    one(0, 0) = ref(0, 0);
    same(h, "variable", m, one);
    same(h, "variable rvalue", m2, one);
  } else if (k == 8) {
    VB b{src};
    VM m{b};
    const VM& cs = src;
    VM m2{cs.block(0, 0, r, c)};
    in.flush();
    same(h, "block", m, ref);
    same(h, "const block", m2, ref);
  } else if (k == 9) {
    Ref z(r, c), o(r, c), q(r, c);
    S cst = h.real("cst");
    for (auto& x : o.d) x = S(1);
    for (auto& x : q.d) x = cst;
    same(h, "zero", VM::zero(r, c), z);
    same(h, "one", VM::one(r, c), o);
    same(h, "constant", VM::constant(r, c, cst), q);
  } else if (k == 10) {
    src.set_value([&] {
      EM e(r, c);
      for (int i = 0; i < r; ++i)
        for (int j = 0; j < c; ++j) e(i, j) = ref(i, j);
      return e;
    }());
    same(h, "set_value", src, ref);
    for (int i = 0; i < r * c; ++i) h.check_eq("set_value reaches copies of the variables", flat[i].value(), ref.d[i]);
    EM v = src.value();
    for (int i = 0; i < r; ++i)
      for (int j = 0; j < c; ++j) h.check_eq("value()", v(i, j), ref(i, j));
  } else if (k == 11) {
    // copies alias the same variables; matrices of decision variables are distinct
    VM m = src;
    in.flush();
    same(h, "copy", m, ref);
    VM f(r, c);
    for (int i = 0; i < r * c; ++i) f[i].set_value(ref.d[i]);
    same(h, "fresh variables are independent", f, ref);
    h.eq("size", src.size(), r * c);
    VM col(r * c);
    h.eq("column rows", col.rows(), r * c);
    h.eq("column cols", col.cols(), 1);
  } else if (k == 12) {
    // iterators visit row-major
    in.flush();
    int q = 0;
    for (auto& v : src) h.check_eq("iterator", v.value(), ref.d[q++]);
    h.eq("iterator count", q, r * c);
    q = 0;
    VB b = src[Slice{_, _, -1}, Slice{_, _, -1}];
    for (auto& v : b) h.check_eq("reversed block iterator", v.value(), ref.d[r * c - 1 - q++]);
    h.eq("block iterator count", q, r * c);
    const VM& cs = src;
    q = 0;
    for (const auto& v : cs) h.check_eq("const iterator", V(v).value(), ref.d[q++]);
    h.eq("const iterator count", q, r * c);
    q = 0;
    for (auto it = src.cbegin(); it != src.cend(); ++it) h.check_eq("cbegin", V(*it).value(), ref.d[q++]);
    q = r * c;
    for (auto it = src.rbegin(); it != src.rend(); ++it) h.check_eq("rbegin", (*it).value(), ref.d[--q]);
    h.eq("reverse count", q, 0);
    auto it = src.begin();
    it++;
    ++it;
    --it;
    it--;
    h.check_eq("iterator arithmetic", (*it).value(), ref.d[0]);
  } else {
    VM e = VM::identity(r);
    Ref id(r, r);
    for (int i = 0; i < r; ++i) id(i, i) = S(1);
    same(h, "identity", e, id);
    auto te = src.to_eigen();
    in.flush();
    h.eq("to_eigen rows", te.rows(), r);
    h.eq("to_eigen cols", te.cols(), c);
    for (int i = 0; i < r; ++i)
      for (int j = 0; j < c; ++j) h.check_eq("to_eigen", te(i, j).value(), ref(i, j));
  }
}
// ---------------------------------------------- M04 linear solve, M05 assembly
static void solve_case(H& h, int n, int p, int pattern) {
  Ref a(n, n), b(n, p);
  VM A(n, n), B(n, p);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      // pattern selects which entries stay symbolic; the rest are fixed so that
      // 4x4 polynomial identities stay tractable
      bool sym = n <= 2 || (n == 3 && pattern == 0) || ((i + pattern) % n == j) || (pattern == i && n >= 3);
      S x = sym ? h.real("a" + std::to_string(i) + std::to_string(j)) : S(((i * 7 + j * 5 + 3 * i * j) % 11) - 4);
      A[i, j].set_value(x);
      a(i, j) = x;
    }
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < p; ++j) {
      S x = h.real("b" + std::to_string(i) + std::to_string(j));
      B[i, j].set_value(x);
      b(i, j) = x;
    }
  // determinant by cofactor expansion
  std::function<S(std::vector<int>, int)> det = [&](std::vector<int> cols, int row) -> S {
    if (cols.size() == 1) return a(row, cols[0]);
    S d(0);
    for (size_t k = 0; k < cols.size(); ++k) {
      auto rest = cols;
      rest.erase(rest.begin() + k);
      S t = a(row, cols[k]) * det(rest, row + 1);
      d = k % 2 ? d - t : d + t;
    }
    return d;
  };
  S dt = det(iota(0, n), 0);
  h.assume_ne(dt, S(0));
  VM X = slp::solve(A, B);
  h.eq("solution rows", X.rows(), n);
  h.eq("solution cols", X.cols(), p);
  if (X.rows() != n || X.cols() != p) return;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < p; ++j) {
      S s(0);
      for (int k = 0; k < n; ++k) s = s + a(i, k) * X[k, j].value();
      h.check_eq("A*X = B", s, b(i, j));
    }
}
HARNESS(m04_solve_small, "n <= 2, right-hand sides with 1 or 2 columns, all nonsingular real matrices") {
  solve_case(h, 1 + h.choose("n", 2), 1 + h.choose("p", 2), 0);
}
HARNESS(m04_solve_3, "all nonsingular 3x3 real matrices") { solve_case(h, 3, 1, 0); }
HARNESS_SHARDED(m04_solve_4, 4, "4x4 matrices with one full row and one wrapped diagonal symbolic at a time (four patterns covering every entry), others fixed") {
  solve_case(h, 4, 1, h.choose("shard", 4));
}
HARNESS(m05_block_assembly, "nested block lists with 1-3 blocks of different shapes per row (both overloads), all values") {
  int w1 = 1 + h.choose("w1", 2), w2 = h.choose("w2", 3), h1 = 1 + h.choose("h1", 2), h2 = h.choose("h2", 3), ov = h.choose("overload", 2);
  In in;
  Ref a(h1, w1), b(h1, w2), c(h2, w1 + w2);
  VM A = fresh(h, in, "a", h1, w1, &a), B = fresh(h, in, "b", h1, w2, &b), C = fresh(h, in, "c", h2, w1 + w2, &c);
  Ref e(h1 + h2, w1 + w2);
  for (int i = 0; i < h1; ++i)
    for (int j = 0; j < w1 + w2; ++j) e(i, j) = j < w1 ? a(i, j) : b(i, j - w1);
  for (int i = 0; i < h2; ++i)
    for (int j = 0; j < w1 + w2; ++j) e(h1 + i, j) = c(i, j);
  VM m = ov ? slp::block<S>(std::vector<std::vector<VM>>{{A, B}, {C}}) : slp::block<S>({{A, B}, {C}});
  in.flush();
  same(h, "block assembly", m, e);
}
// Any grid: up to three block rows, each cut into up to three blocks (zero-width
// and zero-height blocks included), as matrices or copies of views; the result
// shares the given elements.
static void layouts(H& h, int W) {
  int ov = h.choose("overload", 2), rows = 1 + h.choose("block rows", 3), share = h.choose("share", 2);
  In in;
  std::vector<std::vector<VM>> g;
  std::vector<std::vector<S>> want;
  std::vector<std::vector<V>> el;
  for (int br = 0; br < rows; ++br) {
    int hgt = br == 0 ? 1 + h.choose("h", 2) : 1 + (br == 2);
    int c1 = h.choose("cut1", W + 1), c2 = br == 1 ? W : c1 + h.choose("cut2", W - c1 + 1);
    std::vector<int> w{c1, c2 - c1, W - c2};
    g.emplace_back();
    size_t top = want.size();
    want.resize(top + hgt);
    el.resize(top + hgt);
    for (size_t k = 0; k < 3; ++k) {
      Ref v(hgt, w[k]);
      VM m = fresh(h, in, "b" + std::to_string(br) + std::to_string(k), hgt, w[k], &v);
      for (int i = 0; i < hgt; ++i)
        for (int j = 0; j < w[k]; ++j) {
          want[top + i].push_back(v(i, j));
          el[top + i].push_back(m[i, j]);
        }
      g.back().push_back(m);
    }
  }
  VM m = ov ? slp::block<S>(g)
            : rows == 1 ? slp::block<S>({{g[0][0], g[0][1], g[0][2]}})
            : rows == 2 ? slp::block<S>({{g[0][0], g[0][1], g[0][2]}, {g[1][0], g[1][1], g[1][2]}})
                        : slp::block<S>({{g[0][0], g[0][1], g[0][2]}, {g[1][0], g[1][1], g[1][2]}, {g[2][0], g[2][1], g[2][2]}});
  in.flush();
  Ref e((int)want.size(), W);
  for (int i = 0; i < e.r; ++i)
    for (int j = 0; j < W; ++j) e(i, j) = want[i][j];
  same(h, "layout", m, e);
  if (share && m.rows() == e.r && m.cols() == W) {
    for (int i = 0; i < e.r; ++i)
      for (int j = 0; j < W; ++j) {
        e(i, j) = h.real("n" + std::to_string(i) + "_" + std::to_string(j));
        el[i][j].set_value(e(i, j));
      }
    same(h, "shares the given elements", m, e);
  }
}
HARNESS(m05_layouts, "up to three block rows, each 2 wide and cut into three blocks in every way (empty blocks included), both overloads; all values; later changes of the given elements show in the result") { layouts(h, 2); }
HARNESS_X(m05_layouts_wide, 1, true, "as m05_layouts, 3 wide") { layouts(h, 3); }
HARNESS(m05_cwise, "cwise_transform and cwise_reduce on matrices and blocks, shapes <= 3x4, non-commutative functions") {
  int r = 1 + h.choose("r", 3), c = 1 + h.choose("c", 4), k = h.choose("kind", 4);
  In in;
  Ref b(r, c);
  VM B = fresh(h, in, "b", r, c, &b);
  operand(h, in, "a", k, r, c, [&](auto& a, Ref& ra) {
    if constexpr (slp::SleipnirType<decltype(a)>) {
      VM t = a.cwise_transform([](const V& x) { return x * x - x; });
      VM am{a};
      VM q = slp::cwise_reduce<S>(am, B, [](const V& x, const V& y) { return x - 2 * y; });
      in.flush();
      Ref e(r, c), f(r, c);
      for (size_t i = 0; i < e.d.size(); ++i) e.d[i] = ra.d[i] * ra.d[i] - ra.d[i], f.d[i] = ra.d[i] - S(2) * b.d[i];
      same(h, "cwise_transform", t, e);
      same(h, "cwise_reduce", q, f);
    }
  });
}
