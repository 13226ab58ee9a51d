// Regularised LDLT: inertia, exactness of the solve, amount of regularisation.
#include "harness.hpp"

#include <sleipnir/optimization/solver/util/inertia.hpp>
#include <sleipnir/optimization/solver/util/regularized_ldlt.hpp>

using symx::H;
using symx::S;
using DV = Eigen::Vector<S, Eigen::Dynamic>;
using DM = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
using SM = Eigen::SparseMatrix<S>;

static S det2(const DM& A, int i, int j) { return A(i, i) * A(j, j) - A(i, j) * A(i, j); }
static S det(const DM& A) {
  if (A.rows() == 1) return A(0, 0);
  if (A.rows() == 2) return det2(A, 0, 1);
  return A(0, 0) * det2(A, 1, 2) - A(0, 1) * (A(0, 1) * A(2, 2) - A(1, 2) * A(0, 2)) + A(0, 2) * (A(0, 1) * A(1, 2) - A(1, 1) * A(0, 2));
}
// Inertia (n positive, m negative) decided from the characteristic polynomial.
static void check_inertia(H& h, const DM& A, int n, int m) {
  int k = n + m;
  S d = det(A), tr(0);
  for (int i = 0; i < k; ++i) tr = tr + A(i, i);
  if (k == 1) {
    h.check("inertia", n ? d > S(0) : d < S(0));
    return;
  }
  if (k == 2) {
    if (m == 1) h.check("inertia (1,1)", d < S(0));
    else h.check("inertia definite", d > S(0) && (n == 2 ? tr > S(0) : tr < S(0)));
    return;
  }
  S m2 = det2(A, 0, 1) + det2(A, 0, 2) + det2(A, 1, 2);
  if (m == 0) h.check("inertia (3,0)", d > S(0) && m2 > S(0) && tr > S(0));
  if (m == 1) h.check("inertia (2,1)", d < S(0) && !(tr < S(0) && m2 > S(0)));
}
static SM lower_or_full(const DM& A, bool full) {
  SM m(A.rows(), A.cols());
  for (int j = 0; j < A.cols(); ++j)
    for (int i = full ? 0 : j; i < A.rows(); ++i) m.insert(i, j) = A(i, j);
  m.makeCompressed();
  return m;
}
static DM sym_matrix(H& h, int k, const std::string& tag) {
  DM A(k, k);
  for (int i = 0; i < k; ++i)
    for (int j = 0; j <= i; ++j) A(i, j) = A(j, i) = h.real(tag + std::to_string(i) + std::to_string(j));
  return A;
}
static DM zero_block(H& h, int n, int m, const std::string& tag) {
  DM A = sym_matrix(h, n + m, tag);
  for (int i = n; i < n + m; ++i)
    for (int j = n; j < n + m; ++j) A(i, j) = S(0);
  return A;
}
static void one_solve(H& h, slp::RegularizedLDLT<S>& s, const DM& A, int n, int m, bool full, const std::string& tag) {
  int k = n + m;
  s.compute(lower_or_full(A, full));
  if (s.info() != Eigen::Success) return;
  S de = s.hessian_regularization(), ga = s.constraint_jacobian_regularization();
  h.check("regularisation is non-negative", de >= S(0) && ga >= S(0));
  DM R = A;
  for (int i = 0; i < n; ++i) R(i, i) = R(i, i) + de;
  for (int i = n; i < k; ++i) R(i, i) = R(i, i) - ga;
  check_inertia(h, R, n, m);
  DV b(k);
  for (int i = 0; i < k; ++i) b(i) = h.real(tag + "b" + std::to_string(i));
  DV x = s.solve(b);
  h.eq("solution size", x.size(), k);
  for (int i = 0; i < k; ++i) {
    S r(0);
    for (int j = 0; j < k; ++j) r = r + R(i, j) * x(j);
    h.check_eq("solution of the regularised system", r, b(i));
  }
  h.reach("solved");
}
// How far regularisation may go in a run: beyond it the path is dropped (the
// loop only multiplies by 10, which adds nothing new).
static void keep_moderate(H& h, const DM& A, S bound) {
  for (int i = 0; i < A.rows(); ++i)
    for (int j = 0; j <= i; ++j) {
      h.assume_le(A(i, j), bound);
      h.assume_le(-bound, A(i, j));
    }
}
// Entries are kept small relative to the first regularisation (1e-4), so the
// loop needs few rounds; it only multiplies by 10 from there.
HARNESS_SHARDED(s07_one, 2, "dense and sparse solver, one variable; all entries in [-20, 20], all right-hand sides") {
  bool sp = h.choose("shard", 2);
  slp::RegularizedLDLT<S> s{sp, 1, 0};
  DM A = sym_matrix(h, 1, "a");
  keep_moderate(h, A, S(20));
  one_solve(h, s, A, 1, 0, true, "");
}
static void two(H& h, bool sp, int m, int corner, bool fix_off) {
  int n = 2 - m;
  slp::RegularizedLDLT<S> s{sp, n, m};
  DM A = sym_matrix(h, 2, "a");
  if (corner >= 0) {
    static const double d[] = {-8e-4, 0, 5e-4};
    A(1, 1) = S(d[corner]);
  }
  if (fix_off) A(1, 0) = A(0, 1) = S(h.flip("uncoupled") ? 0.0 : 4e-4);
  keep_moderate(h, A, S(1e-3));
  one_solve(h, s, A, n, m, h.flip("full storage") || !sp, "");
}
// Which entry stays fixed is a matter of cost only: with both free the
// thorough harnesses take minutes.
HARNESS_SHARDED(s07_two, 12, "dense and sparse solver, (variables, constraints) in {(2,0), (1,1)}; symmetric matrices with entries in [-0.001, 0.001]: corner of -0.0008, 0 or 0.0005, off-diagonal 0 or 0.0004 (free with a zero corner and two variables), first entry free; all right-hand sides") {
  int sh = h.choose("shard", 12);
  two(h, sh % 2, sh / 2 % 2, sh / 4, !(sh / 4 == 1 && sh / 2 % 2 == 0));
}
HARNESS_THOROUGH(s07_two_coupled, 12, "as s07_two with the off-diagonal free in every case") {
  int sh = h.choose("shard", 12);
  two(h, sh % 2, sh / 2 % 2, sh / 4, false);
}
HARNESS_THOROUGH(s07_two_full, 4, "as s07_two with all three entries free") {
  int sh = h.choose("shard", 4);
  two(h, sh % 2, sh / 2, -1, false);
}
HARNESS_SHARDED(s07_repeated, 4, "dense and sparse solver, two successive systems of one variable with or without a constraint, minimum constraint regularisation zero or default; entries in [-0.004, 0.004] (second constraint gradient fixed)") {
  int sh = h.choose("shard", 4);
  bool sp = sh % 2;
  int n = 1, m = sh / 2;
  slp::RegularizedLDLT<S> s = h.flip("no minimum") ? slp::RegularizedLDLT<S>{sp, n, m, S(0)} : slp::RegularizedLDLT<S>{sp, n, m};
  DM A = zero_block(h, n, m, "a"), B = zero_block(h, n, m, "c");
  if (m) {
    A(0, 0) = S(h.flip("first concave") ? -5e-4 : 0);
    B(1, 0) = B(0, 1) = S(1e-3);
  }
  keep_moderate(h, A, S(4e-3));
  keep_moderate(h, B, S(4e-3));
  one_solve(h, s, A, n, m, true, "");
  one_solve(h, s, B, n, m, true, "2");
}
HARNESS_SHARDED(s07_kkt_three, 2, "sparse and dense solver, 2 variables and 1 constraint with the structure of a KKT matrix, diagonal Hessian (one entry free in [-0.004, 0.004]) and constraint gradient (1, free)") {
  bool sp = !h.choose("shard", 2);
  slp::RegularizedLDLT<S> s{sp, 2, 1, S(0)};
  DM A = zero_block(h, 2, 1, "a");
  A(1, 0) = A(0, 1) = S(0);
  A(2, 0) = A(0, 2) = S(1);
  A(0, 0) = S(h.flip("concave") ? -5e-4 : 1e-3);
  h.assume(A(1, 1) >= S(-4e-3) && A(1, 1) <= S(4e-3));
  if (!sp) A(2, 1) = A(1, 2) = S(0.5);
  else h.assume(A(2, 1) >= S(-2) && A(2, 1) <= S(2));
  one_solve(h, s, A, 2, 1, true, "");
}
HARNESS_SHARDED(s07_no_regularisation, 4, "matrices that already qualify: diagonally dominant with the right signs, (variables, constraints) in {(2,0), (1,1)}; all such matrices") {
  int sh = h.choose("shard", 4);
  bool sp = sh % 2;
  int n = sh / 2 ? 1 : 2, m = 2 - n;
  slp::RegularizedLDLT<S> s{sp, n, m};
  DM A = sym_matrix(h, 2, "a");
  h.assume_lt(S(1), A(0, 0));
  h.assume_lt(S(1), m ? -A(1, 1) : A(1, 1));
  h.assume_lt(A(1, 0), S(0.5));
  h.assume_lt(S(-0.5), A(1, 0));
  if (h.flip("after a difficult system")) {
    DM B(2, 2);
    B(0, 0) = S(-1);
    B(1, 1) = S(-1);
    B(1, 0) = B(0, 1) = S(0);
    s.compute(lower_or_full(B, true));
    h.check("difficult system regularised", s.info() == Eigen::Success && s.hessian_regularization() > S(1));
  }
  s.compute(lower_or_full(A, true));
  h.check("success", s.info() == Eigen::Success);
  h.check_eq("Hessian not regularised", s.hessian_regularization(), S(0));
  h.check_eq("constraints not regularised", s.constraint_jacobian_regularization(), S(0));
}
HARNESS_SHARDED(s07_failure_is_reported, 2, "systems no regularisation can fix within limits: a Hessian entry below -1e21") {
  bool sp = h.choose("shard", 2);
  slp::RegularizedLDLT<S> s{sp, 1, 0};
  DM A(1, 1);
  A(0, 0) = h.real("a");
  h.assume_lt(A(0, 0), S(-1e22));
  s.compute(lower_or_full(A, true));
  h.check("failure reported", s.info() != Eigen::Success);
}
HARNESS(s07_inertia_count, "vectors and matrix diagonals of length 3; all reals") {
  DV d(3);
  for (int i = 0; i < 3; ++i) d(i) = h.real("d" + std::to_string(i));
  int p = 0, n = 0;
  for (int i = 0; i < 3; ++i) {
    if (d(i) > S(1e-15)) ++p;
    if (d(i) < S(-1e-15)) ++n;
    h.assume(d(i) == S(0) || d(i) > S(1e-15) || d(i) < S(-1e-15));
  }
  slp::Inertia a{d};
  h.eq("positive", a.positive, p);
  h.eq("negative", a.negative, n);
  h.eq("zero", a.zero, 3 - p - n);
  const DM m = d.asDiagonal();
  slp::Inertia b{m.diagonal()};
  h.check("same from a matrix diagonal", a == b);
  h.check("comparison", (a == slp::Inertia{p, n, 3 - p - n}) && !(a == slp::Inertia{p + 1, n, 3 - p - n}));
}
