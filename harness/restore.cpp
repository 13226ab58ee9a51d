// S09: the problem feasibility restoration hands to the interior-point method,
// and what it does with the answer. interior_point() itself is replaced by a
// recorder that may answer anything.
#include "solver_model.hpp"

#include <sleipnir/optimization/solver/util/feasibility_restoration.hpp>

using Info = slp::IterationInfo<S>;
using CB = std::function<bool(const Info&)>;
using CBs = std::span<CB>;
using IPC = slp::InteriorPointMatrixCallbacks<S>;
using SQC = slp::SQPMatrixCallbacks<S>;
using St = slp::ExitStatus;

struct Inner {
  std::function<St(const IPC&, CBs, const slp::Options&, bool, DV&, DV&, DV&, DV&, S&, int&)> run;
};
static Inner inner;
namespace slp {
template <>
ExitStatus interior_point<S>(const IPC& c, CBs cbs, const Options& o, bool fr, DV& x, DV& s, DV& y, DV& z, S& mu, int& it) {
  return inner.run(c, cbs, o, fr, x, s, y, z, mu, it);
}
}  // namespace slp

static DV reals(H& h, const std::string& nm, int n, bool pos = false) {
  DV r(n);
  for (int i = 0; i < n; ++i) {
    r(i) = h.real(nm + std::to_string(i));
    if (pos) h.assume_lt(S(0), r(i));
  }
  return r;
}
static S sabs(const S& a) { return std::max(a, -a); }

static void s09(H& h, bool ip, int n, int me, int mi, bool start_zero, bool all_answers) {
  Model m{h, n, me, mi, 100};
  m.fixed_jacobians = false;
  m.fixed_from = 2;  // at the point found, so that the multiplier estimate is well-posed
  auto hc = [&](const DV& x, const DV& y, const DV& z) {
    // Linear in the multipliers, as a constraint Hessian is.
    int k = m.idx(x);
    DM M = DM::Zero(n, n);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j <= i; ++j) {
        for (int q = 0; q < me; ++q) M(i, j) = M(i, j) - S(Model::table(q, k, i, j)) * y(q);
        for (int q = 0; q < mi; ++q) M(i, j) = M(i, j) - S(Model::table(q + 3, k, i, j)) * z(q);
      }
    return M;
  };
  DV x = reals(h, "x", n), s = reals(h, "s", mi, true), y = reals(h, "y", me), z = reals(h, "z", mi, true);
  if (start_zero) x(0) = S(0);
  for (int i = start_zero; i < n; ++i) h.assume_ne(x(i), S(0));
  S mu = h.real("mu");
  h.assume_lt(S(0), mu);
  const DV xr = x, sr = s, yr = y;
  slp::Options opt;
  opt.tolerance = 1e-2;
  opt.max_iterations = 37;
  opt.feasible_ipm = n == 1;
  int iterations = 4;
  std::vector<int> called;
  std::vector<CB> cbs;
  cbs.push_back([&](const Info&) { called.push_back(0); return false; });
  cbs.push_back([&](const Info&) { called.push_back(1); return true; });
  DV se(me), si(mi);
  for (int i = 0; i < me; ++i) se(i) = S(0.25 * (i + 1));
  for (int i = 0; i < mi; ++i) si(i) = S(0.125 * (i + 1));
  St answers[] = {St::SUCCESS, St::CALLBACK_REQUESTED_STOP, St::LOCALLY_INFEASIBLE, St::MAX_ITERATIONS_EXCEEDED,
                  St::FACTORIZATION_FAILED, St::DIVERGING_ITERATES, St::FEASIBILITY_RESTORATION_FAILED, St::TIMEOUT};
  St answer = all_answers ? answers[h.choose("inner status", 8)] : St::CALLBACK_REQUESTED_STOP;
  int ran = 0;
  DV nx, ns;
  const int N = n + 2 * me + 2 * mi, I = mi + 2 * me + 2 * mi;
  inner.run = [&](const IPC& c, CBs passed, const slp::Options& o, bool fr, DV& fx, DV& fs, DV& fy, DV& fz, S& fmu, int& it) {
    ++ran;
    h.check("the inner solve knows it is a restoration", fr);
    h.eq("iteration counter handed on", it, 4);
    h.eq("iteration limit handed on", o.max_iterations, 37);
    h.check("options handed on", o.tolerance == 1e-2 && o.feasible_ipm == opt.feasible_ipm);
    h.eq("variables", c.num_decision_variables, N);
    h.eq("equalities", c.num_equality_constraints, me);
    h.eq("inequalities", c.num_inequality_constraints, I);
    h.eq("start size", fx.size(), N);
    h.eq("slack size", fs.size(), I);
    h.eq("equality multiplier size", fy.size(), me);
    h.eq("inequality multiplier size", fz.size(), I);
    h.eq("callbacks handed on", passed.size(), 2);
    SV g0(fx.size());
    SM M0(fx.size(), fx.size()), E0(me, fx.size()), I0(I, fx.size());
    Info info{it, fx, fs, fy, fz, g0, M0, E0, I0};
    if (passed.size() == 2) {
      h.check("callbacks work", !passed[0](info) && passed[1](info));
      h.check("callbacks keep their order", called == std::vector<int>{0, 1});
    }
    // Barrier parameter: the largest of the parent's and the violations.
    const DV ce = m.ce(xr), ci = m.ci(xr);
    S want = ip ? mu : S(opt.tolerance / 10.0);
    for (int i = 0; i < me; ++i) want = std::max(want, sabs(ce(i)));
    for (int i = 0; i < mi; ++i) want = std::max(want, sabs(ci(i) - sr(i)));
    h.check_eq("barrier parameter", fmu, want);
    // Start: the stalled point, split violations, everything consistent.
    for (int i = 0; i < n; ++i) h.check_eq("starts from the stalled point", fx(i), xr(i));
    for (int i = n; i < N; ++i) h.check_lt("relaxation variables start positive", S(0), fx(i));
    for (int i = 0; i < me; ++i) h.check_eq("equality relaxation start", fx(n + i) - fx(n + me + i), ce(i));
    for (int i = 0; i < mi; ++i) h.check_eq("inequality relaxation start", fx(n + 2 * me + i) - fx(n + 2 * me + mi + i), ci(i) - sr(i));
    {
      DV e0 = c.c_e(fx), i0 = c.c_i(fx);
      for (int i = 0; i < me; ++i) h.check_eq("equalities hold at the start", e0(i), S(0));
      for (int i = 0; i < I; ++i) h.check_lt("inequalities hold strictly at the start", S(0), i0(i));
      for (int i = 0; i < mi; ++i) h.check_eq("the inequality values start at their slacks", i0(i), fs(i));
      // Equation (33) of the cited paper: relaxations minimise the barrier.
      for (int i = 0; i < me + mi; ++i) {
        S p = i < me ? fx(n + i) : fx(n + 2 * me + i - me), q = i < me ? fx(n + me + i) : fx(n + 2 * me + mi + i - me);
        S v = i < me ? ce(i) : ci(i - me) - sr(i - me);
        h.check_eq("relaxation minimises its barrier problem", S(2000) * p * q, fmu * (p + q), 1e-4);
        h.check_eq("relaxation splits the violation", p - q, v);
      }
    }
    for (int i = 0; i < mi; ++i) h.check_eq("slacks start from the stalled slacks", fs(i), sr(i));
    for (int i = mi; i < I; ++i) h.check_eq("new slacks start at one", fs(i), S(1));
    for (int i = 0; i < me; ++i) h.check_eq("equality multipliers start at zero", fy(i), S(0));
    for (int i = 0; i < mi; ++i) h.check_eq("inequality multipliers start complementary", fz(i) * sr(i), fmu);
    for (int i = mi; i < I; ++i) h.check_eq("relaxation multipliers start complementary", fz(i) * fx(n + i - mi), fmu);
    // Scaling.
    h.check_eq("cost is not scaled", c.scaling.f, S(1));
    h.eq("equality scaling size", c.scaling.c_e.size(), me);
    h.eq("inequality scaling size", c.scaling.c_i.size(), I);
    for (int i = 0; i < me; ++i) h.check_eq("equality scaling is inherited", c.scaling.c_e(i), se(i));
    for (int i = 0; i < I; ++i) h.check_eq("inequality scaling", c.scaling.c_i(i), i < mi ? si(i) : S(1));
    // The problem, at any point and multipliers.
    DV q = reals(h, "q", N), qy = reals(h, "qy", me), qz = reals(h, "qz", I);
    DV qx = q.segment(0, n);
    if (n > 1)
      for (int i = 0; i < n; ++i) h.assume_ne(q(i), xr(i));  // stored gradient entries
    DV ce1 = m.ce(qx), ci1 = m.ci(qx);
    S zeta2 = want;
    S f(0), quad(0);
    DV d(n);
    for (int i = n; i < N; ++i) f = f + S(1000) * q(i);
    for (int i = 0; i < n; ++i) {
      S x2 = xr(i) * xr(i);
      d(i) = start_zero && i == 0 ? S(1) : S(1) / std::max(S(1), x2);
      quad = quad + d(i) * (q(i) - xr(i)) * (q(i) - xr(i));
    }
    S zeta = sqrt(zeta2);
    h.check_eq("cost", c.f(q), f + zeta / S(2) * quad);
    DV g(c.g(q));
    h.eq("gradient size", g.size(), N);
    for (int i = 0; i < N; ++i) h.check_eq("gradient", g(i), i < n ? zeta * d(i) * (q(i) - xr(i)) : S(1000));
    DM Hs(c.H(q, qy, qz));
    DM Hc = hc(qx, qy, qz.segment(0, mi));
    h.eq("Hessian size", Hs.rows(), N);
    h.eq("Hessian size", Hs.cols(), N);
    for (int i = 0; i < N; ++i)
      for (int j = 0; j <= i; ++j) {
        S w = i < n ? Hc(i, j) : S(0);
        if (i == j && i < n) w = w + zeta * d(i);
        h.check_eq("Hessian of the Lagrangian", Hs(i, j), w);
      }
    DV e = c.c_e(q);
    h.eq("equality count", e.size(), me);
    for (int i = 0; i < me; ++i) h.check_eq("relaxed equality", e(i), ce1(i) - q(n + i) + q(n + me + i));
    DM Ae(c.A_e(q)), A1 = m.Ae(qx);
    h.eq("equality Jacobian rows", Ae.rows(), me);
    h.eq("equality Jacobian columns", Ae.cols(), N);
    for (int i = 0; i < me; ++i)
      for (int j = 0; j < N; ++j)
        h.check_eq("equality Jacobian", Ae(i, j), j < n ? A1(i, j) : S(j == n + i ? -1 : j == n + me + i ? 1 : 0));
    DV v = c.c_i(q);
    h.eq("inequality count", v.size(), I);
    DM Ai(c.A_i(q)), B1 = m.Ai(qx);
    h.eq("inequality Jacobian rows", Ai.rows(), I);
    h.eq("inequality Jacobian columns", Ai.cols(), N);
    for (int i = 0; i < I; ++i) {
      int b = n + 2 * me;
      if (i < mi)
        h.check_eq("relaxed inequality", v(i), ci1(i) - q(b + i) + q(b + mi + i));
      else
        h.check_eq("relaxations stay non-negative", v(i), q(n + i - mi));
      for (int j = 0; j < N; ++j) {
        S w = i < mi ? (j < n ? B1(i, j) : S(j == b + i ? -1 : j == b + mi + i ? 1 : 0)) : S(j == n + i - mi ? 1 : 0);
        h.check_eq("inequality Jacobian", Ai(i, j), w);
      }
    }
    // Any answer.
    nx = reals(h, "nx", n);
    ns = reals(h, "ns", mi, true);
    fx.segment(0, n) = nx;
    fs.segment(0, mi) = ns;
    for (int i = n; i < N; ++i) fx(i) = h.real("nr" + std::to_string(i));
    for (int i = mi; i < I; ++i) fs(i) = S(2);
    fy.setConstant(S(7));
    fz.setConstant(S(9));
    fmu = fmu / S(2);
    it += 3;
    return answer;
  };
  St st;
  if (ip) {
    IPC c{n, me, mi,
          [&](const DV& v) { return m.f(v); },
          [&](const DV& v) { return Model::spv(m.g(v)); },
          [&](const DV& v, const DV& yy, const DV& zz) { return m.Hs(v, yy, zz); },
          [&](const DV& v, const DV& yy, const DV& zz) { return Model::sp(hc(v, yy, zz), true); },
          [&](const DV& v) { return m.ce(v); },
          [&](const DV& v) { return Model::sp(m.Ae(v)); },
          [&](const DV& v) { return m.ci(v); },
          [&](const DV& v) { return Model::sp(m.Ai(v)); },
          {S(0.5), se, si}};
    st = slp::feasibility_restoration<S>(c, CBs{cbs}, opt, x, s, y, z, mu, iterations);
  } else {
    SQC c{n, me,
          [&](const DV& v) { return m.f(v); },
          [&](const DV& v) { return Model::spv(m.g(v)); },
          [&](const DV& v, const DV& yy) { return m.Hs(v, yy, DV(0)); },
          [&](const DV& v, const DV& yy) { return Model::sp(hc(v, yy, DV(0)), true); },
          [&](const DV& v) { return m.ce(v); },
          [&](const DV& v) { return Model::sp(m.Ae(v)); },
          {S(0.5), se, DV(0)}};
    st = slp::feasibility_restoration<S>(c, CBs{cbs}, opt, x, y, iterations);
  }
  h.eq("the inner solve runs once", ran, 1);
  h.eq("iterations are counted", iterations, 7);
  for (int i = 0; i < n; ++i) h.check_eq("the point found is handed back", x(i), nx(i));
  for (int i = 0; i < mi; ++i) h.check_eq("the slacks found are handed back", s(i), ns(i));
  St want = answer == St::CALLBACK_REQUESTED_STOP ? St::SUCCESS
            : answer == St::SUCCESS               ? St::LOCALLY_INFEASIBLE
                                                  : St::FEASIBILITY_RESTORATION_FAILED;
  h.check("status", st == want);
  if (st == St::SUCCESS) {
    h.eq("equality multipliers", y.size(), me);
    h.eq("inequality multipliers", z.size(), mi);
    if (ip) {
      auto est = slp::lagrange_multiplier_estimate<S>(Model::spv(m.g(nx)), Model::sp(m.Ae(nx)), Model::sp(m.Ai(nx)), ns, mu);
      for (int i = 0; i < me; ++i) h.check_eq("equality multiplier estimate", y(i), est.y(i));
      for (int i = 0; i < mi; ++i) {
        h.check_eq("inequality multiplier estimate", z(i), est.z(i));
        h.check_lt("inequality multipliers are positive", S(0), z(i));
        h.check_lt("slacks are positive", S(0), s(i));
      }
    } else {
      DV est = slp::lagrange_multiplier_estimate<S>(Model::spv(m.g(nx)), Model::sp(m.Ae(nx)));
      for (int i = 0; i < me; ++i) h.check_eq("equality multiplier estimate", y(i), est(i));
    }
  }
  h.reach("status " + std::to_string(static_cast<int>(st)));
}
HARNESS_SHARDED(s09_sqp, 4, "restoration from SQP, (variables, equalities) in {(1,1), (2,1), (2,2)}; any stalled point with non-zero coordinates (in (2,1) also with a zero one), values, derivatives and multipliers; any point found; every status of the inner solve in (1,1)") {
  int sh = h.choose("shard", 4);
  s09(h, false, 1 + (sh > 0), 1 + (sh == 2), 0, sh == 3, sh == 0);
}
HARNESS_SHARDED(s09_ip, 4, "restoration from the interior-point method, (variables, equalities, inequalities) in {(1,0,1), (1,1,1), (2,1,2), (2,2,1)}; as s09_sqp, any positive slacks, multipliers and barrier parameter; every status of the inner solve in one variable") {
  int sh = h.choose("shard", 4);
  static const int c[][3] = {{1, 0, 1}, {1, 1, 1}, {2, 1, 2}, {2, 2, 1}};
  s09(h, true, c[sh][0], c[sh][1], c[sh][2], false, sh < 2);
}
