// Solver building blocks: filter, error measure, scaling, multiplier estimates,
// sparse assembly, feasibility tests, fraction-to-the-boundary rule.
#include "harness.hpp"

#include <optional>

#include <sleipnir/optimization/solver/util/all_finite.hpp>
#include <sleipnir/optimization/solver/util/append_as_triplets.hpp>
#include <sleipnir/optimization/solver/util/filter.hpp>
#include <sleipnir/optimization/solver/util/fraction_to_the_boundary_rule.hpp>
#include <sleipnir/optimization/solver/util/is_locally_infeasible.hpp>
#include <sleipnir/optimization/solver/util/kkt_error.hpp>
#include <sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp>
#include <sleipnir/optimization/solver/util/problem_scaling.hpp>
#include <sleipnir/optimization/solver/util/sparse_inf_norms.hpp>

using symx::H;
using symx::S;
using DV = Eigen::Vector<S, Eigen::Dynamic>;
using DM = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
using SM = Eigen::SparseMatrix<S>;
using SV = Eigen::SparseVector<S>;
using Entry = slp::FilterEntry<S>;

static S inf() { return std::numeric_limits<S>::infinity(); }
static S nan_() { return std::numeric_limits<S>::quiet_NaN(); }
static S mx(S a, S b) { return a < b ? b : a; }
static S ab(S a) { return a < S(0) ? -a : a; }
static DV vec(H& h, const std::string& n, int k) {
  DV v(k);
  for (int i = 0; i < k; ++i) v(i) = h.real(n + std::to_string(i));
  return v;
}
static DM mat(H& h, const std::string& n, int r, int c) {
  DM m(r, c);
  for (int i = 0; i < r; ++i)
    for (int j = 0; j < c; ++j) m(i, j) = h.real(n + std::to_string(i) + std::to_string(j));
  return m;
}
static SM sparse(const DM& m) {
  SM s(m.rows(), m.cols());
  for (int j = 0; j < m.cols(); ++j)
    for (int i = 0; i < m.rows(); ++i) s.insert(i, j) = m(i, j);
  s.makeCompressed();
  return s;
}
static SV sparse_v(const DV& v) {
  SV s(v.size());
  for (int i = 0; i < v.size(); ++i) s.insert(i) = v(i);
  return s;
}

// ---------------------------------------------------------------- S04 filter
struct FilterRef {
  S tmin, tmax;
  std::vector<std::pair<S, S>> e;
  bool last = false;
  explicit FilterRef(S t0) {
    S m = std::max(S(1), t0);
    tmin = S(1e-4) * m;
    tmax = S(1e4) * m;
  }
  bool step(S f, S t, S F, S T, S D, S a) {
    using std::isfinite;
    using std::pow;
    if (!isfinite(F) || !isfinite(T) || T > tmax) return false;
    bool sw = D < S(0) && a * pow(-D, S(2.3)) > pow(t, S(1.1));
    bool armijo = F <= f + S(1e-8) * a * D;
    S phi = pow(a, S(1.5));
    if (t <= tmin && sw) {
      if (!armijo) return last = false;
    } else {
      if (!(F <= f - phi * S(1e-8) * t || T <= (S(1) - phi * S(1e-5)) * t)) return last = false;
    }
    for (auto& [ef, et] : e)
      if (ef <= F && et <= T) {
        last = true;
        return false;
      }
    if (!sw || !armijo) e.emplace_back(f - phi * S(1e-8) * t, (S(1) - phi * S(1e-5)) * t);
    return true;
  }
};
static S special(H& h, const std::string& n, int kind) {
  switch (kind) {
    case 1: return inf();
    case 2: return -inf();
    case 3: return nan_();
    default: return h.real(n);
  }
}
static void filter_case(H& h, int steps, int kinds, bool slope) {
  S t0 = h.real("theta0");
  h.assume_le(S(0), t0);
  slp::Filter<S> filter{t0};
  FilterRef ref{t0};
  h.check_eq("threshold", filter.min_constraint_violation, ref.tmin);
  h.check_eq("maximum", filter.max_constraint_violation, ref.tmax);
  for (int k = 0; k < steps; ++k) {
    std::string q = std::to_string(k);
    S f = h.real("f" + q), t = h.real("t" + q), a = h.real("a" + q), D = h.real("D" + q);
    h.assume_le(S(0), t);
    h.assume_le(t, ref.tmax);
    h.assume_lt(S(0), a);
    h.assume_le(a, S(1));
    if (!slope || k) h.assume_le(S(0), D);
    int fk = k + 1 == steps ? h.choose("F kind", kinds) : 0;
    int tk = k + 1 == steps ? h.choose("T kind", kinds) : 0;
    S F = special(h, "F" + q, fk), T = special(h, "T" + q, tk);
    if (!tk) h.assume_le(S(0), T);
    if (tk == 2) return;
    if (k && h.choose("reset" + q, 2)) {
      filter.reset();
      ref.e.clear();
      ref.last = false;
      h.check("reset clears the flag", !filter.last_rejection_due_to_filter());
    }
    bool got = filter.try_add(Entry{f, t}, Entry{F, T}, D, a);
    bool want = ref.step(f, t, F, T, D, a);
    h.check("accepted exactly when acceptable", got == want, got ? "accepted" : "rejected");
    // (the flag is not touched by non-finite rejections and acceptances)
    h.check("rejection reason", filter.last_rejection_due_to_filter() == ref.last);
    if (fk || tk) h.check("non-finite trial rejected", !got);
  }
}
HARNESS(s04_filter_one, "one query on an empty filter; all real costs, violations, slopes and step sizes, and every non-finite cost or violation") { filter_case(h, 1, 4, true); }
HARNESS_SHARDED(s04_filter_two, 1, "two queries with optional reset; all reals, slopes arbitrary for the first and non-negative for the second") { filter_case(h, 2, 1, true); }
// Longer histories: two (or three) accepted steps followed by a query, with
// constant step sizes and slopes so that only the remembered points vary.
static void filter_history(H& h, int adds, int shard) {
  slp::Filter<S> filter{S(1)};
  const S tmax(1e4), a(shard % 2 ? 0.25 : 1), D(1), phi(shard % 2 ? 0.125 : 1);
  std::vector<std::pair<S, S>> seen;
  // <= 0 exactly when some remembered point is no worse in both respects
  auto blocked = [&](S F, S T) {
    S r = std::max(seen[0].first - F, seen[0].second - T);
    for (auto& [f, t] : seen) r = std::min(r, std::max(f - F, t - T));
    return r;
  };
  for (int k = 0; k <= adds; ++k) {
    std::string q = std::to_string(k);
    S f = h.real("f" + q), t = h.real("t" + q), F = h.real("F" + q), T = h.real("T" + q);
    h.assume_le(S(0), t);
    h.assume_le(S(0), T);
    h.assume_le(t, tmax);
    S ef = f - phi * S(1e-8) * t, et = (S(1) - phi * S(1e-5)) * t;
    if (k < adds) {
      // accepted for its violation, and for its own history
      h.assume_le(T, S(0.5) * t);
      h.assume_le(f + S(1), F);
      if (k) h.assume_lt(S(0), blocked(F, T));
      h.check("acceptable step accepted", filter.try_add(Entry{f, t}, Entry{F, T}, D, a));
      seen.emplace_back(ef, et);
    } else {
      // improves on the current point in one respect only
      h.assume_le(shard / 2 ? t : f + S(1), shard / 2 ? T : F);
      h.assume_le(shard / 2 ? F + S(1) : T, shard / 2 ? f - t : S(0.5) * t);
      h.assume_le(T, tmax);
      bool got = filter.try_add(Entry{f, t}, Entry{F, T}, D, a);
      bool block = blocked(F, T) <= S(0);
      h.check("accepted exactly when no remembered point dominates it", got == !block, got ? "accepted" : "rejected");
      if (!got) h.check("rejection due to the history", filter.last_rejection_due_to_filter());
      h.reach(got ? "accepted" : "rejected");
    }
  }
}
HARNESS_SHARDED(s04_filter_history, 4, "two accepted steps (step size 1 or 0.25, non-negative slope, violation at least halved at a higher cost) followed by a query that trades cost for violation either way; all real costs and violations") {
  filter_history(h, 2, h.choose("shard", 4));
}
HARNESS_THOROUGH(s04_filter_long_history, 4, "as s04_filter_history with three accepted steps") {
  filter_history(h, 3, h.choose("shard", 4));
}
HARNESS(s04_entries, "entries built from cost, slacks, constraints and barrier parameter (2 constraints of each kind); domination; all reals") {
  using std::log;
  int which = h.choose("constructor", 4);
  S f = h.real("f");
  DV ce = vec(h, "ce", 2), ci = vec(h, "ci", 2), s = vec(h, "s", 2);
  S mu = h.real("mu");
  S l1 = ab(ce(0)) + ab(ce(1));
  if (which == 0) {
    Entry e{f};
    h.check_eq("cost", e.cost, f);
    h.check_eq("violation", e.constraint_violation, S(0));
    Entry z{};
    h.check_eq("cost", z.cost, S(0));
    h.check_eq("violation", z.constraint_violation, S(0));
  } else if (which == 1) {
    Entry e{f, ce};
    h.check_eq("cost", e.cost, f);
    h.check_eq("violation", e.constraint_violation, l1);
  } else if (which == 2) {
    h.assume_lt(S(0), s(0));
    h.assume_lt(S(0), s(1));
    Entry e{f, s, ce, ci, mu};
    h.check_eq("barrier cost", e.cost, f - mu * (log(s(0)) + log(s(1))));
    h.check_eq("violation", e.constraint_violation, l1 + ab(ci(0) - s(0)) + ab(ci(1) - s(1)));
  } else {
    Entry a{ce(0), ce(1)}, b{ci(0), ci(1)};
    h.check("domination", a.dominated_by(b) == (ci(0) <= ce(0) && ci(1) <= ce(1)));
  }
}

// ------------------------------------------------------------- S05 KKT error
// Everything in terms of rows: stationarity r, complementarity, feasibility.
static S norm(const std::vector<S>& v, bool one) {
  S r(0);
  for (auto& e : v) r = one ? r + ab(e) : std::max(r, ab(e));
  return r;
}
struct Kkt {
  int n, ne, ni;
  DV g, ce, ci, s, y, z;
  DM Ae, Ai;
  S mu;
};
static Kkt kkt_inputs(H& h, int n, int ne, int ni) {
  Kkt k{n, ne, ni, vec(h, "g", n), vec(h, "ce", ne), vec(h, "ci", ni), vec(h, "s", ni), vec(h, "y", ne), vec(h, "z", ni), mat(h, "E", ne, n), mat(h, "I", ni, n), h.real("mu")};
  return k;
}
static S kkt_ref(const Kkt& k, int kind, bool one) {
  std::vector<S> st, fe, co, fi;
  for (int j = 0; j < k.n; ++j) {
    S v = k.g(j);
    if (kind >= 1)
      for (int i = 0; i < k.ne; ++i) v = v - k.Ae(i, j) * k.y(i);
    if (kind == 2)
      for (int i = 0; i < k.ni; ++i) v = v - k.Ai(i, j) * k.z(i);
    st.push_back(v);
  }
  if (kind >= 1)
    for (int i = 0; i < k.ne; ++i) fe.push_back(k.ce(i));
  if (kind == 2)
    for (int i = 0; i < k.ni; ++i) {
      co.push_back(k.s(i) * k.z(i) - k.mu);
      fi.push_back(k.ci(i) - k.s(i));
    }
  if (one) return norm(st, true) + norm(co, true) + norm(fe, true) + norm(fi, true);
  S sy(0), sz(0);
  for (int i = 0; i < k.ne; ++i) sy = sy + ab(k.y(i));
  for (int i = 0; i < k.ni; ++i) sz = sz + ab(k.z(i));
  S sd(1), sc(1);
  if (kind == 1 && k.ne) sd = std::max(S(100), sy / S(k.ne)) / S(100);
  if (kind == 2 && k.ne + k.ni) sd = std::max(S(100), (sy + sz) / S(k.ne + k.ni)) / S(100);
  if (kind == 2 && k.ni) sc = std::max(S(100), sz / S(k.ni)) / S(100);
  return std::max({norm(st, false) / sd, norm(co, false) / sc, norm(fe, false), norm(fi, false)});
}
using slp::KKTErrorType;
template <KKTErrorType T>
static S lib_kkt(const Kkt& k, int kind) {
  if (kind == 0) return slp::kkt_error<S, T>(k.g);
  if (kind == 1) return slp::kkt_error<S, T>(k.g, sparse(k.Ae), k.ce, k.y);
  return slp::kkt_error<S, T>(k.g, sparse(k.Ae), k.ce, sparse(k.Ai), k.ci, k.s, k.y, k.z, k.mu);
}
template <KKTErrorType T>
static S lib_unscaled(const slp::ProblemScaling<S>& q, const Kkt& k, int kind) {
  if (kind == 0) return slp::unscaled_kkt_error<S, T>(q, k.g);
  if (kind == 1) return slp::unscaled_kkt_error<S, T>(q, k.g, sparse(k.Ae), k.ce, k.y);
  return slp::unscaled_kkt_error<S, T>(q, k.g, sparse(k.Ae), k.ce, sparse(k.Ai), k.ci, k.s, k.y, k.z, k.mu);
}
HARNESS_SHARDED(s05_kkt_error, 8, "both norms, Newton/SQP/interior-point forms, shapes up to 2 variables, 1 equality and 1 inequality (including none); all real inputs") {
  int sh = h.choose("shard", 8);
  static const int sz[8][4] = {{0, 2, 0, 0}, {1, 2, 1, 0}, {1, 1, 2, 0}, {1, 1, 0, 0}, {2, 1, 1, 1}, {2, 1, 0, 1}, {2, 1, 0, 2}, {2, 2, 0, 1}};
  int kind = sz[sh][0];
  bool one = h.flip("one norm");
  Kkt k = kkt_inputs(h, sz[sh][1], sz[sh][2], sz[sh][3]);
  S got = one ? lib_kkt<KKTErrorType::ONE_NORM>(k, kind) : lib_kkt<KKTErrorType::INF_NORM_SCALED>(k, kind);
  h.check_eq("error measure", got, kkt_ref(k, kind, one));
}
// Scaled quantities produced from the user's; unscaling must give the user's error.
HARNESS_SHARDED(s05_unscaled, 4, "both norms; user-unit quantities scaled by arbitrary positive factors, up to 1 variable, 1 equality, 2 inequalities; all reals") {
  int sh = h.choose("shard", 4);
  static const int sz[4][4] = {{0, 2, 0, 0}, {1, 1, 1, 0}, {2, 1, 1, 1}, {2, 1, 0, 1}};
  int kind = sz[sh][0], n = sz[sh][1], ne = sz[sh][2], ni = sz[sh][3];
  bool one = h.flip("one norm");
  Kkt k = kkt_inputs(h, n, ne, ni);
  S df = h.real("df");
  h.assume_lt(S(0), df);
  DV de = vec(h, "de", ne), di = vec(h, "di", ni);
  for (int i = 0; i < ne; ++i) h.assume_lt(S(0), de(i));
  for (int i = 0; i < ni; ++i) h.assume_lt(S(0), di(i));
  // L = f - y'ce - z'ci scales by df as a whole; slacks scale with their rows
  Kkt q = k;
  for (int j = 0; j < n; ++j) q.g(j) = df * k.g(j);
  for (int i = 0; i < ne; ++i) {
    q.ce(i) = de(i) * k.ce(i);
    q.y(i) = df * k.y(i) / de(i);
    for (int j = 0; j < n; ++j) q.Ae(i, j) = de(i) * k.Ae(i, j);
  }
  for (int i = 0; i < ni; ++i) {
    q.ci(i) = di(i) * k.ci(i);
    q.s(i) = di(i) * k.s(i);
    q.z(i) = df * k.z(i) / di(i);
    for (int j = 0; j < n; ++j) q.Ai(i, j) = di(i) * k.Ai(i, j);
  }
  q.mu = df * k.mu;
  slp::ProblemScaling<S> sc{df, de, di};
  S got = one ? lib_unscaled<KKTErrorType::ONE_NORM>(sc, q, kind) : lib_unscaled<KKTErrorType::INF_NORM_SCALED>(sc, q, kind);
  h.check_eq("error in the user's units", got, kkt_ref(k, kind, one));
}
HARNESS(s05_zero_iff_optimal, "the scaled error with zero barrier parameter is zero exactly at points meeting all conditions; 1 variable, 1 constraint of each kind; all reals") {
  Kkt k = kkt_inputs(h, 1, 1, 1);
  k.mu = S(0);
  S e = lib_kkt<KKTErrorType::INF_NORM_SCALED>(k, 2);
  S st = k.g(0) - k.Ae(0, 0) * k.y(0) - k.Ai(0, 0) * k.z(0);
  if (e == S(0)) {
    h.check_eq("stationarity", st, S(0));
    h.check_eq("equality feasibility", k.ce(0), S(0));
    h.check_eq("inequality feasibility", k.ci(0), k.s(0));
    h.check_eq("complementarity", k.s(0) * k.z(0), S(0));
  } else {
    h.check("error is positive", e > S(0));
  }
}

// --------------------------------------------------------------- S06 scaling
static void scale_row(H& h, const std::string& l, S d, const std::vector<S>& row) {
  S m(0);
  for (auto& e : row) m = mx(m, ab(e));
  h.check(l + " positive", d > S(0));
  h.check_le(l + " at most one", d, S(1));
  if (m <= S(100)) h.check_eq(l + ": small gradients are not scaled", d, S(1));
  else h.check_eq(l + ": large gradients are brought to the threshold", d * m, S(100));
}
HARNESS_SHARDED(s06_factors, 3, "cost gradient of 2 entries, up to 2 rows of each constraint kind with 2 entries each; stored zeros and empty rows; all reals") {
  int form = h.choose("shard", 3);
  int empty = h.choose("empty row", 2);
  DV g = vec(h, "g", 2);
  if (h.flip("zero gradient")) g.setZero();
  DM E = mat(h, "E", form == 1 ? 2 : 1, form == 2 ? 1 : 2), I = mat(h, "I", 2, 1);
  SM Es = sparse(E), Is = sparse(I);
  if (empty) {
    Es = SM(E.rows() + 1, E.cols());
    for (int i = 0; i < E.rows(); ++i)
      for (int j = 0; j < E.cols(); ++j) Es.insert(i, j) = E(i, j);
  }
  slp::ProblemScaling<S> q;
  h.check("no scaling by default", q.is_identity());
  if (form == 0) q = slp::ProblemScaling<S>{g};
  else if (form == 1) q = slp::ProblemScaling<S>{g, Es};
  else q = slp::ProblemScaling<S>{g, Es, Is};
  scale_row(h, "cost scale", q.f, {g(0), g(1)});
  h.eq("equality scales", q.c_e.size(), form >= 1 ? Es.rows() : 0);
  h.eq("inequality scales", q.c_i.size(), form == 2 ? 2 : 0);
  if (form >= 1)
    for (int i = 0; i < Es.rows(); ++i) {
      std::vector<S> r;
      if (i < E.rows())
        for (int j = 0; j < E.cols(); ++j) r.push_back(E(i, j));
      scale_row(h, "equality scale", q.c_e(i), r);
    }
  if (form == 2)
    for (int i = 0; i < 2; ++i) scale_row(h, "inequality scale", q.c_i(i), {I(i, 0)});
  if (form == 0) h.check("identity exactly when nothing is scaled", q.is_identity() == (q.f == S(1)));
  else h.check("constraint scales are never dropped", !q.is_identity() || q.c_e.size() + q.c_i.size() == 0);
}

// ---------------------------------------------- S10 multiplier estimates
HARNESS_SHARDED(s10_equality, 3, "1 equality in 1 or 2 variables, 2 equalities in 2 variables (full-rank Jacobians); all reals") {
  int sh = h.choose("shard", 3);
  int ne = sh == 2 ? 2 : 1, n = sh == 0 ? 1 : 2;
  DV g = vec(h, "g", n);
  DM A = mat(h, "A", ne, n);
  // full rank, with the Gram matrix safely non-singular
  if (ne == 1) h.assume_ne(n == 1 ? A(0, 0) : A(0, 0) * A(0, 0) + A(0, 1) * A(0, 1), S(0));
  else {
    h.assume_ne(A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0), S(0));
    // elimination order is the factorisation's choice: keep both pivots nonzero
    h.assume_ne(A(0, 0), S(0));
    h.assume_ne(A(1, 1), S(0));
  }
  DV y = slp::lagrange_multiplier_estimate<S>(sparse_v(g), sparse(A));
  h.eq("multipliers", y.size(), ne);
  // normal equations of min |g - A'y|^2
  for (int i = 0; i < ne; ++i) {
    S r(0);
    for (int j = 0; j < n; ++j) {
      S res = g(j);
      for (int k = 0; k < ne; ++k) res = res - A(k, j) * y(k);
      r = r + A(i, j) * res;
    }
    h.check_eq("residual is orthogonal to the constraint gradients", r, S(0));
  }
}
HARNESS_SHARDED(s10_mixed, 6, "(equalities, inequalities) in {(0,1), (1,1), (0,2)} with one variable, all reals; (1,2), (2,1) and (0,3) with two variables and constraint gradients of given numbers (also slacks for (0,3)); slacks and barrier parameter positive") {
  int sh = h.choose("shard", 6);
  int ne = sh == 4 ? 2 : sh == 1 || sh == 3, ni = sh == 5 ? 3 : sh == 2 || sh == 3 ? 2 : 1, n = sh >= 3 ? 2 : 1;
  DV g = vec(h, "g", n), s = vec(h, "s", ni);
  DM E = mat(h, "E", ne, n), I = mat(h, "I", ni, n);
  if (n == 2) {
    for (int j = 0; j < n; ++j) {
      for (int i = 0; i < ne; ++i) E(i, j) = S(i == j ? 1.5 : -0.5);
      for (int i = 0; i < ni; ++i) I(i, j) = S(i == j ? -1 : 0.5 + i);
    }
  }
  for (int i = 0; i < ni && sh == 5; ++i) s(i) = S(std::ldexp(0.5, i));
  S mu = h.real("mu");
  h.assume_lt(S(0), mu);
  for (int i = 0; i < ni; ++i) h.assume_lt(S(0), s(i));
  if (ne) h.assume_ne(E(0, 0), S(0));
  auto r = slp::lagrange_multiplier_estimate<S>(sparse_v(g), sparse(E), sparse(I), s, mu);
  h.eq("equality multipliers", r.y.size(), ne);
  h.eq("inequality multipliers", r.z.size(), ni);
  // least squares: minimise |g - E'y - I'z|^2 + |S z - mu|^2 by Cramer's rule
  int m = ne + ni;
  DM A(m, n + ni);
  A.setZero();
  DV b(n + ni);
  for (int j = 0; j < n; ++j) {
    b(j) = g(j);
    for (int i = 0; i < ne; ++i) A(i, j) = E(i, j);
    for (int i = 0; i < ni; ++i) A(ne + i, j) = I(i, j);
  }
  for (int i = 0; i < ni; ++i) {
    A(ne + i, n + i) = -s(i);
    b(n + i) = -mu;
  }
  DM N(m, m);
  DV c(m);
  for (int i = 0; i < m; ++i) {
    c(i) = S(0);
    for (int k = 0; k < n + ni; ++k) c(i) = c(i) + A(i, k) * b(k);
    for (int j = 0; j < m; ++j) {
      N(i, j) = S(0);
      for (int k = 0; k < n + ni; ++k) N(i, j) = N(i, j) + A(i, k) * A(j, k);
    }
  }
  DV ref(m);
  if (m == 1) {
    ref(0) = c(0) / N(0, 0);
  } else if (m == 2) {
    S det = N(0, 0) * N(1, 1) - N(0, 1) * N(1, 0);
    ref(0) = (c(0) * N(1, 1) - c(1) * N(0, 1)) / det;
    ref(1) = (N(0, 0) * c(1) - N(1, 0) * c(0)) / det;
  } else if (m == 3) {
    auto det3 = [](const DM& M) {
      return M(0, 0) * (M(1, 1) * M(2, 2) - M(1, 2) * M(2, 1)) - M(0, 1) * (M(1, 0) * M(2, 2) - M(1, 2) * M(2, 0)) +
             M(0, 2) * (M(1, 0) * M(2, 1) - M(1, 1) * M(2, 0));
    };
    S det = det3(N);
    for (int i = 0; i < 3; ++i) {
      DM M = N;
      M.col(i) = c;
      ref(i) = det3(M) / det;
    }
  }
  for (int i = 0; i < ne; ++i) h.check_eq("equality multiplier estimate", r.y(i), ref(i));
  for (int i = 0; i < ni; ++i) {
    S lo = mu / s(i) / S(1e10), hi = S(1e10) * mu / s(i);
    h.check_eq("inequality multiplier estimate, kept near mu/s", r.z(i), std::min(std::max(ref(ne + i), lo), hi));
    h.check("inequality multipliers stay positive", r.z(i) > S(0));
  }
}

// ------------------------------------------------------- S11 small utilities
static SM pattern(H& h, const std::string& n, int r, int c, DM& full) {
  full = DM(r, c);
  SM m(r, c);
  for (int j = 0; j < c; ++j)
    for (int i = 0; i < r; ++i) {
      full(i, j) = S(0);
      if (h.flip(n + "has" + std::to_string(i) + std::to_string(j))) {
        full(i, j) = h.real(n + std::to_string(i) + std::to_string(j));
        m.insert(i, j) = full(i, j);
      }
    }
  m.makeCompressed();
  return m;
}
HARNESS_SHARDED(s11_triplets, 3, "1-3 stacked sparse matrices with 2 columns and 1-2 rows, every sparsity pattern, all offsets up to 2, followed by a diagonal; all real entries") {
  int count = 1 + h.choose("shard", 3);
  DM f[3];
  SM m[3];
  for (int k = 0; k < count; ++k) m[k] = pattern(h, "m" + std::to_string(k) + "_", k == 1 ? 1 : count == 3 ? 1 : 2, 2, f[k]);
  int ro = h.choose("row offset", count == 1 ? 3 : 2), co = h.choose("col offset", count == 1 ? 3 : 2);
  gch::small_vector<Eigen::Triplet<S>> t;
  if (count == 1) slp::append_as_triplets<S>(t, ro, co, {m[0]});
  else if (count == 2) slp::append_as_triplets<S>(t, ro, co, {m[0], m[1]});
  else slp::append_as_triplets<S>(t, ro, co, {m[0], m[1], m[2]});
  int rows = 0;
  for (int k = 0; k < count; ++k) rows += f[k].rows();
  DV d = vec(h, "d", 2);
  slp::append_diagonal_as_triplets<S>(t, ro + rows, co + 2, d);
  DM want(ro + rows + 2, co + 4), got(ro + rows + 2, co + 4);
  want.setZero();
  got.setZero();
  int r = ro;
  for (int k = 0; k < count; ++k) {
    for (int i = 0; i < f[k].rows(); ++i)
      for (int j = 0; j < 2; ++j) want(r + i, co + j) = f[k](i, j);
    r += f[k].rows();
  }
  for (int i = 0; i < 2; ++i) want(r + i, co + 2 + i) = d(i);
  int lastc = -1, lastr = -1;
  for (auto& e : t) {
    bool ok = e.row() >= 0 && e.col() >= 0 && e.row() < got.rows() && e.col() < got.cols();
    h.check("entry in range", ok);
    if (!ok) continue;
    got(e.row(), e.col()) += e.value();
    h.check("entries are sorted by column, then row", e.col() > lastc || (e.col() == lastc && e.row() > lastr));
    lastc = e.col();
    lastr = e.row();
  }
  for (int i = 0; i < want.rows(); ++i)
    for (int j = 0; j < want.cols(); ++j) h.check_eq("entry at its offset", got(i, j), want(i, j));
}
HARNESS(s11_all_finite, "2x2 matrices and 3-vectors of every pattern with each stored entry finite, infinite or NaN") {
  bool v = h.flip("vector");
  bool fin = true;
  auto pick = [&](const std::string& n) {
    int k = h.choose(n + "kind", 4);
    if (k) fin = false;
    return special(h, n, k);
  };
  if (v) {
    SV s(3);
    for (int i = 0; i < 3; ++i)
      if (h.flip("has" + std::to_string(i))) s.insert(i) = pick("v" + std::to_string(i));
    h.check("finiteness", slp::all_finite(s) == fin);
  } else {
    SM m(2, 2);
    for (int j = 0; j < 2; ++j)
      for (int i = 0; i < 2; ++i)
        if (h.flip("has" + std::to_string(i) + std::to_string(j))) m.insert(i, j) = pick("m" + std::to_string(i) + std::to_string(j));
    m.makeCompressed();
    h.check("finiteness", slp::all_finite(m) == fin);
  }
}
HARNESS(s11_row_norms, "2x2 matrices of every pattern; all real entries") {
  DM f;
  SM m = pattern(h, "m", 2, 2, f);
  DV n = slp::sparse_inf_norms(m);
  h.eq("rows", n.size(), 2);
  for (int i = 0; i < 2; ++i) h.check_eq("row norm", n(i), mx(ab(f(i, 0)), ab(f(i, 1))));
}
HARNESS(s11_equality_infeasible, "no rows, 1 or 2 equality constraints in 1-2 variables; all real Jacobians and values") {
  int ne = h.choose("rows", 3), n = ne == 2 ? 1 : 1 + h.choose("cols", 2);
  DM A = mat(h, "A", ne, n);
  DV c = vec(h, "c", ne);
  S p2(0), c2(0);
  for (int j = 0; j < n; ++j) {
    S v(0);
    for (int i = 0; i < ne; ++i) v = v + A(i, j) * c(i);
    p2 = p2 + v * v;
  }
  for (int i = 0; i < ne; ++i) c2 = c2 + c(i) * c(i);
  // keep away from the thresholds themselves (rounding of the constants)
  bool got = slp::is_equality_locally_infeasible<S>(sparse(A), c);
  if (ne > 0 && p2 < S(0.9e-12) && c2 > S(1.1e-4)) h.check("infeasible stationary point detected", got);
  if (ne == 0 || p2 > S(1.1e-12) || c2 < S(0.9e-4)) h.check("no false detection", !got);
}
HARNESS(s11_inequality_infeasible, "no rows, 1 or 2 inequality constraints in 1-2 variables; all real Jacobians and values") {
  int ni = h.choose("rows", 3), n = ni == 2 ? 1 : 1 + h.choose("cols", 2);
  DM A = mat(h, "A", ni, n);
  DV c = vec(h, "c", ni);
  S p2(0), c2(0);
  DV v = c;
  for (int i = 0; i < ni; ++i)
    if (v(i) > S(0)) v(i) = S(0);
  for (int j = 0; j < n; ++j) {
    S w(0);
    for (int i = 0; i < ni; ++i) w = w + A(i, j) * v(i);
    p2 = p2 + w * w;
  }
  for (int i = 0; i < ni; ++i) c2 = c2 + v(i) * v(i);
  bool got = slp::is_inequality_locally_infeasible<S>(sparse(A), c);
  if (ni > 0 && p2 < S(0.9e-12) && c2 > S(1.1e-12)) h.check("infeasible stationary point detected", got);
  if (ni == 0 || p2 > S(1.1e-12) || c2 < S(0.9e-12)) h.check("no false detection", !got);
}

// ------------------------------------- S03 fraction-to-the-boundary rule
HARNESS_SHARDED(s03_boundary_rule, 3, "vectors of length 1-3, all positive x, all steps p, all tau in (0,1)") {
  int n = 1 + h.choose("shard", 3);
  DV x = vec(h, "x", n), p = vec(h, "p", n);
  S tau = h.real("tau");
  h.assume_lt(S(0), tau);
  h.assume_lt(tau, S(1));
  for (int i = 0; i < n; ++i) h.assume_lt(S(0), x(i));
  S a = slp::fraction_to_the_boundary_rule<S>(x, p, tau);
  h.check("step is positive", a > S(0));
  h.check_le("step at most one", a, S(1));
  bool tight = false;
  for (int i = 0; i < n; ++i) {
    h.check_le("stays inside the boundary fraction", (S(1) - tau) * x(i), x(i) + a * p(i));
    if (a * p(i) == -tau * x(i)) tight = true;
  }
  h.check("longest such step", tight || a == S(1));
}
