// S01-S03, S08: the three solvers' own loops, run unmodified over an oracle
// problem (solver_model.hpp).
#include "solver_model.hpp"

#include <sleipnir/optimization/solver/util/filter.hpp>
#include <sleipnir/optimization/solver/util/is_locally_infeasible.hpp>
#include <sleipnir/optimization/solver/util/feasibility_restoration.hpp>

using Info = slp::IterationInfo<S>;
using CB = std::function<bool(const Info&)>;
using CBs = std::span<CB>;
using IPC = slp::InteriorPointMatrixCallbacks<S>;
using SQC = slp::SQPMatrixCallbacks<S>;
using St = slp::ExitStatus;

// Feasibility restoration, specified by what it must provide (S09): it shows
// iterates of a larger problem to the callbacks and resumes from the one at
// which a callback asked to stop, with positive slacks and multipliers.
struct Restoration {
  H* h = nullptr;
  int calls = 0, iters = 1;
  bool user_stop = false;
  St result = St::SUCCESS;
  DV x, s, y, z;
  bool active = false;  // its callbacks are running, showing fx and fs
  DV fx, fs;
};
inline Restoration rest;

// The line-search filter, specified by what it must never do (S04): accept a
// trial with a non-finite barrier cost or violation. Everything else is open.
struct FilterSpec {
  H* h = nullptr;
  int asked = 0;
  int max_free = 1 << 30;  // rejects everything from this question on
  int reject_first = 0;    // rejects this many, accepts the next if it may
  // told every question: current and trial cost, violation, slacks and barrier
  // parameter, slope, step size; and every reset
  struct Entry {
    S f, violation;
    DV s;
    S mu;
  };
  std::function<void(const Entry&, const Entry&, const S&, const S&)> told;
  std::function<void()> told_reset;
};
inline FilterSpec fspec;
static DV reals(H& h, const std::string& nm, int n, bool pos = false) {
  DV r(n);
  for (int i = 0; i < n; ++i) {
    r(i) = h.real(nm + std::to_string(i));
    if (pos) h.assume_lt(S(0), r(i));
  }
  return r;
}
static St restore(CBs cbs, DV& x, DV& s, DV& y, DV& z, int& iterations) {
  H& h = *rest.h;
  int c = rest.calls++;
  std::string t = "restored" + std::to_string(c) + "_";
  int n = x.size(), mi = s.size(), me = y.size();
  for (int it = 0; it < rest.iters; ++it) {
    std::string u = t + std::to_string(it) + "_";
    DV fx(n + 2 * me + 2 * mi), fs(mi + 2 * me + 2 * mi);
    fx.setConstant(S(1));
    fs.setConstant(S(1));
    fx.segment(0, n) = reals(h, u + "x", n);
    fs.segment(0, mi) = reals(h, u + "s", mi, true);
    DV fy = DV::Zero(me), fz = DV::Ones(fs.size());
    SV g(fx.size());
    SM M(fx.size(), fx.size()), Ae(me, fx.size()), Ai(fs.size(), fx.size());
    bool stop = false;
    int free = std::exchange(fspec.max_free, 1 << 30);  // the filter may accept here
    rest.active = true;
    rest.fx = fx.segment(0, n);
    rest.fs = fs.segment(0, mi);
    for (auto& cb : cbs)
      if (cb({iterations, fx, fs, fy, fz, g, M, Ae, Ai})) {
        stop = true;
        break;
      }
    rest.active = false;
    fspec.max_free = free;
    x = fx.segment(0, n);
    s = fs.segment(0, mi);
    if (stop) {
      y = reals(h, u + "y", me);
      z = reals(h, u + "z", mi, true);
      rest.x = x, rest.s = s, rest.y = y, rest.z = z;
      return rest.result = St::SUCCESS;
    }
    ++iterations;
  }
  rest.x = x, rest.s = s, rest.y = y, rest.z = z;
  return rest.result = pick(h, t + "infeasible", 2) ? St::LOCALLY_INFEASIBLE : St::FEASIBILITY_RESTORATION_FAILED;
}
// Local infeasibility tests (S10 covers what they compute): any answer.
struct InfeasSpec {
  H* h = nullptr;
  bool may = false, said = false;
  int asked = 0;
  bool eq = false, ineq = false;
  bool answer(bool& which) {
    ++asked;
    if (!may) return false;
    bool r = pick(*h, "locally infeasible " + std::to_string(asked), 2);
    said = said || r;
    which = which || r;
    return r;
  }
};
inline InfeasSpec ispec;
namespace slp {
template <>
struct FilterEntry<S> {
  S cost = S(0), constraint_violation = S(0);
  DV logs;  // slacks in the barrier term: the cost is finite only if positive
  S mu = S(0);
  FilterEntry() = default;
  explicit FilterEntry(S c, S v = S(0)) : cost{c}, constraint_violation{v} {}
  FilterEntry(S f, const DV& ce) : FilterEntry{f, ce.template lpNorm<1>()} {}
  FilterEntry(S f, DV& s, const DV& ce, const DV& ci, S mu_)
      : FilterEntry{f, ce.template lpNorm<1>() + (ci - s).template lpNorm<1>()} {
    logs = s;
    mu = mu_;
  }
};
template <>
class Filter<S> {
 public:
  S min_constraint_violation = S(0), max_constraint_violation = S(1e9);
  explicit Filter(S = S(0)) {}
  void reset() {
    if (fspec.told_reset) fspec.told_reset();
  }
  bool try_add(const FilterEntry<S>& c, const FilterEntry<S>& t, S slope, S alpha) {
    if (fspec.told)
      fspec.told({c.cost, c.constraint_violation, c.logs, c.mu}, {t.cost, t.constraint_violation, t.logs, t.mu}, slope, alpha);
    if (fspec.asked >= fspec.max_free) return false;
    if (fspec.reject_first) {
      int q = fspec.asked++;
      if (q < fspec.reject_first) return false;
      if (q > fspec.reject_first) fspec.h->assume(false);
    } else if (!pick(*fspec.h, "filter accepts " + std::to_string(fspec.asked++), 2)) {
      return false;
    }
    if (!isfinite(t.cost) || !isfinite(t.constraint_violation)) return false;
    for (int i = 0; i < t.logs.size(); ++i)
      if (!(S(0) < t.logs(i))) return false;
    return true;
  }
  bool last_rejection_due_to_filter() const { return false; }
};
template <>
inline bool is_equality_locally_infeasible<S>(const SM&, const DV&) { return ispec.answer(ispec.eq); }
template <>
inline bool is_inequality_locally_infeasible<S>(const SM&, const DV&) { return ispec.answer(ispec.ineq); }
}  // namespace slp
namespace slp {
template <>
inline ExitStatus feasibility_restoration<S>(const SQC&, CBs cbs, const Options&, DV& x, DV& y, int& iterations) {
  DV s(0), z(0);
  return restore(cbs, x, s, y, z, iterations);
}
template <>
inline ExitStatus feasibility_restoration<S>(const IPC&, CBs cbs, const Options&, DV& x, DV& s, DV& y, DV& z, S,
                                             int& iterations) {
  return restore(cbs, x, s, y, z, iterations);
}
}  // namespace slp
#include <sleipnir/optimization/solver/interior_point.hpp>
#include <sleipnir/optimization/solver/newton.hpp>
#include <sleipnir/optimization/solver/sqp.hpp>

// The clock the solvers read.
static std::chrono::nanoseconds fake_now{1000000000};
namespace std::chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(fake_now); }
}  // namespace _V2
}  // namespace std::chrono

enum Kind { NEWTON, SQP, IP };
struct Snap {
  int iteration;
  DV x, s, y, z;
  S mu;
  int k;       // index of x among the visited points
  int hcall;   // last Hessian evaluation
};
struct Run {
  H& h;
  Kind kind;
  Model m;
  slp::Options opt;
  DV x, s, y, z;
  S mu = S(0);
  int iterations = 0;
  St status{};
  bool scaled = false;
  bool long_form = true;
  bool nested = false;  // already in feasibility restoration
  std::vector<CB> cbs;
  std::vector<Snap> snaps;
  std::function<bool(Run&, const Info&)> on_iter;
  S sf() const { return S(scaled ? 0.5 : 1.0); }
  S sce(int i) const { return S(scaled ? (i ? 0.5 : 0.25) : 1.0); }
  S sci(int i) const { return S(scaled ? (i ? 0.5 : 0.125) : 1.0); }
  Run(H& h_, Kind k, int n, int me, int mi, int mp) : h{h_}, kind{k}, m{h_, n, me, mi, mp} {
    lin = Lin{};
    lin.h = &h;
    fspec.h = &h;
    fspec.asked = 0;
    fspec.reject_first = 0;
    fspec.told = nullptr;
    fspec.told_reset = nullptr;
    lin.n = n;
    lin.m = me;
    ispec = InfeasSpec{&h};
    rest = Restoration{};
    rest.h = &h;
    fake_now = std::chrono::nanoseconds{1000000000};
    x = reals(h, "x", n);
    opt.max_iterations = 2;
    opt.tolerance = 1e-2;
    cbs.push_back([this](const Info& i) {
      if (i.x.size() != m.n) return on_restore ? on_restore(*this, i) : false;
      Snap sn{i.iteration, i.x, i.s, i.y, i.z, mu, m.find(i.x), static_cast<int>(m.hcalls.size()) - 1};
      snaps.push_back(sn);
      return on_iter ? on_iter(*this, i) : false;
    });
  }
  std::function<bool(Run&, const Info&)> on_restore;
  slp::ProblemScaling<S> scaling() {
    if (!scaled) return {};
    DV a(m.me), b(m.mi);
    for (int i = 0; i < m.me; ++i) a(i) = sce(i);
    for (int i = 0; i < m.mi; ++i) b(i) = sci(i);
    return {sf(), a, b};
  }
  void go() {
    CBs sp{cbs};
    DV none(0);
    if (kind == NEWTON) {
      slp::NewtonMatrixCallbacks<S> c{m.n, [&](const DV& v) { return m.f(v); }, [&](const DV& v) { return Model::spv(m.g(v)); },
                                      [&](const DV& v) { return m.Hs(v, none, none); }, scaling()};
      status = slp::newton<S>(c, sp, opt, x);
    } else if (kind == SQP) {
      SQC c{m.n,
            m.me,
            [&](const DV& v) { return m.f(v); },
            [&](const DV& v) { return Model::spv(m.g(v)); },
            [&](const DV& v, const DV& yy) { return m.Hs(v, yy, none); },
            [&](const DV& v, const DV&) { return SM(v.size(), v.size()); },
            [&](const DV& v) { return m.ce(v); },
            [&](const DV& v) { return Model::sp(m.Ae(v)); },
            scaling()};
      if (long_form) {
        if (y.size() != m.me) y = DV::Zero(m.me);
        status = slp::sqp<S>(c, sp, opt, x, y);
      } else {
        status = slp::sqp<S>(c, sp, opt, x);
      }
    } else {
      IPC c{m.n,
            m.me,
            m.mi,
            [&](const DV& v) { return m.f(v); },
            [&](const DV& v) { return Model::spv(m.g(v)); },
            [&](const DV& v, const DV& yy, const DV& zz) { return m.Hs(v, yy, zz); },
            [&](const DV& v, const DV&, const DV&) { return SM(v.size(), v.size()); },
            [&](const DV& v) { return m.ce(v); },
            [&](const DV& v) { return Model::sp(m.Ae(v)); },
            [&](const DV& v) { return m.ci(v); },
            [&](const DV& v) { return Model::sp(m.Ai(v)); },
            scaling()};
      if (long_form) {
        if (s.size() != m.mi) s = DV::Ones(m.mi);
        if (y.size() != m.me) y = DV::Zero(m.me);
        if (z.size() != m.mi) z = DV::Ones(m.mi);
        if (same_term(mu, S(0))) mu = S(0.1) * sf();
        status = slp::interior_point<S>(c, sp, opt, nested, x, s, y, z, mu, iterations);
      } else {
        status = slp::interior_point<S>(c, sp, opt, x);
      }
    }
  }
};

// Restricts interior-point steps to those that stay clear of the boundary, so
// that step lengths are one (keeps the arithmetic linear).
static void full_steps_only(Run& r, bool no_soc) {
  lin.after = [&r, no_soc](const DV& p) {
    if (lin.solves != 1) {
      r.h.assume(!no_soc);
      return;
    }
    for (int i = 0; i < r.m.mi; ++i) {
      S ps = r.m.ci(r.x)(i) - r.s(i);
      for (int j = 0; j < r.m.n; ++j) ps = ps + r.m.Ai(r.x)(i, j) * p(j);
      S pz = r.mu / r.s(i) - r.z(i) - r.z(i) / r.s(i) * ps;
      r.h.assume_le(S(-0.9) * r.s(i), ps);
      r.h.assume_le(S(-0.9) * r.z(i), pz);
    }
  };
}
static S sabs(const S& a) { return std::max(a, -a); }
// The termination criterion, in the problem's own units, at the returned point.
static void check_optimal(Run& r, double tol) {
  H& h = r.h;
  Model& m = r.m;
  int k = m.find(r.x);
  h.check("success is reported at a point whose functions were evaluated", k >= 0);
  if (k < 0) return;
  DV g = m.g(r.x), ce = m.ce(r.x), ci = m.ci(r.x);
  DM Ae = m.Ae(r.x), Ai = m.Ai(r.x);
  auto fin = [](const auto& M) {
    for (int i = 0; i < M.rows(); ++i)
      for (int j = 0; j < M.cols(); ++j)
        if (!isfinite(M(i, j))) return false;
    return true;
  };
  bool ok = fin(g) && fin(ce) && fin(ci) && fin(Ae) && fin(Ai) && isfinite(m.f(r.x));
  h.check("the cost, constraints and derivatives at a reported solution are finite", ok);
  if (!ok) return;
  int me = m.me, mi = m.mi;
  S df = r.sf();
  DV y(me), z(mi), s(mi);
  for (int i = 0; i < me; ++i) y(i) = r.y(i) * r.sce(i) / df;
  for (int i = 0; i < mi; ++i) z(i) = r.z(i) * r.sci(i) / df, s(i) = r.s(i) / r.sci(i);
  S ny(0), nz(0);
  for (int i = 0; i < me; ++i) ny = ny + sabs(y(i));
  for (int i = 0; i < mi; ++i) nz = nz + sabs(z(i));
  // The documented allowance for large multipliers (Options::tolerance and
  // equation (5) of the cited paper).
  S sd = me + mi ? std::max(S(100), (ny + nz) / S(double(me + mi))) / S(100) : S(1);
  S sc = mi ? std::max(S(100), nz / S(double(mi))) / S(100) : S(1);
  S T(tol);
  for (int j = 0; j < m.n; ++j) {
    S L = g(j) / df;
    for (int i = 0; i < me; ++i) L = L - Ae(i, j) / r.sce(i) * y(i);
    for (int i = 0; i < mi; ++i) L = L - Ai(i, j) / r.sci(i) * z(i);
    h.check_le("stationarity of the Lagrangian", sabs(L), T * sd);
  }
  for (int i = 0; i < me; ++i) h.check_le("equality constraint violation", sabs(ce(i) / r.sce(i)), T);
  for (int i = 0; i < mi; ++i) {
    h.check_le("slack consistency", sabs(ci(i) / r.sci(i) - s(i)), T);
    h.check_le("inequality constraint violation", -ci(i) / r.sci(i), T);
    h.check_lt("multiplier sign", S(0), r.z(i));
    h.check_le("complementarity", sabs(s(i) * z(i)), T * sc);
  }
}
static void s01(H& h, Kind kind, int n, int me, int mi, int pts, int iters, bool scaled, bool nonfinite, double tol = 1e-2, bool any_jac = false, bool any_state = false) {
  Run r{h, kind, n, me, mi, pts};
  r.opt.max_iterations = iters;
  r.opt.tolerance = tol;
  for (int i = 0; i < n; ++i) r.x(i) = S(0.5 - i);  // the oracle does not care
  r.scaled = scaled;
  if (any_state) {
    r.s = reals(h, "s", mi, true);
    r.z = reals(h, "z", mi, true);
    r.y = reals(h, "y", me);
    r.mu = r.sf() * S(0.1);
  }
  r.m.fixed_jacobians = !any_jac;
  if (nonfinite) {
    r.m.nonfinite = kind == NEWTON ? 1 << 3 : kind == SQP ? 1 << 3 | 1 << 4 : 1 << 3 | 1 << 4 | 1 << 5;
    r.m.nonfinite_from = 1;
  }
  r.on_iter = [](Run& r, const Info& i) { return i.iteration >= r.opt.max_iterations; };
  r.go();
  if (r.status == St::SUCCESS) {
    check_optimal(r, r.opt.tolerance);
    h.reach(r.snaps.empty() ? "success at the start" : "success after iterating");
  }
}
HARNESS_SHARDED(s01_newton, 4, "Newton's method, 1 or 2 variables, up to 3 iterations and 4 distinct points (1 variable) or 2 and 3 (2 variables), with and without cost scaling, gradients that may be non-finite after the start; all other problem answers, steps and start points; tolerance 0.01") {
  int sh = h.choose("shard", 4);
  s01(h, NEWTON, 1 + sh % 2, 0, 0, sh % 2 ? 3 : 4, sh % 2 ? 2 : 3, sh / 2, true);
}
HARNESS_SHARDED(s01_sqp, 4, "SQP, (variables, equalities) in {(1,1), (2,1)}, up to 2 iterations and 3 distinct points, with and without scaling, derivatives that may be non-finite after the start, constraint gradients from a table") {
  int sh = h.choose("shard", 4);
  s01(h, SQP, 1 + sh % 2, 1, 0, 3, 3, sh / 2, true);
}
HARNESS_SHARDED(s01_any_state, 4, "one iteration (2 distinct points) from any multipliers and positive slacks, so that, repeated, it covers any number of iterations; SQP with (variables, equalities) in {(1,1), (2,1)}, interior point with (1,0,1), with and without scaling; tolerance 1") {
  int sh = h.choose("shard", 4);
  static const struct { Kind k; int n, me, mi; bool scaled; } c[] = {{SQP, 1, 1, 0, true}, {SQP, 2, 1, 0, true}, {IP, 1, 0, 1, true}, {IP, 1, 0, 1, false}};
  s01(h, c[sh].k, c[sh].n, c[sh].me, c[sh].mi, 2, 2, c[sh].scaled, false, 1, false, true);
}
HARNESS_THOROUGH(s01_any_state_larger, 2, "as s01_any_state, interior point with (2,1,1) unscaled or scaled") {
  s01(h, IP, 2, 1, 1, 2, 2, h.choose("shard", 2), false, 1, false, true);
}
HARNESS_SHARDED(s01_ip, 6, "interior-point method, (variables, equalities, inequalities) in {(1,0,1), (2,1,1)}, one iteration and 2 distinct points, with and without scaling, derivatives that may be non-finite after the start (unscaled), constraint gradients from a table; tolerance 1 (and 0.01 in one variable)") {
  int sh = h.choose("shard", 6);
  static const struct { int n, me; bool scaled, nf; double tol; } c[] = {
      {1, 0, false, true, 1}, {1, 0, true, false, 1}, {1, 0, false, false, 1e-2},
      {2, 1, false, true, 1}, {2, 1, true, false, 1}, {1, 0, true, false, 1e-2}};
  s01(h, IP, c[sh].n, c[sh].me, 1, 2, 2, c[sh].scaled, c[sh].nf, c[sh].tol);
}
// Every trial is rejected: the step is taken anyway, or restoration runs.
static void stuck(Run& r) {
  fspec.max_free = 0;
  for (int i = 0; i < r.m.n; ++i) r.x(i) = S(0.5 - i);
  r.opt.max_iterations = 1;
}
HARNESS_SHARDED(s01_stuck, 4, "one iteration whose every trial point is rejected (the step is taken anyway, or feasibility restoration shows one iterate): Newton (1 variable), SQP (1,1), interior point (1,0,1) with steps clear of the boundary and without second-order corrections; scaled or not") {
  int sh = h.choose("shard", 4);
  Kind k = sh == 0 ? NEWTON : sh == 1 ? SQP : IP;
  Run r{h, k, 1, k == SQP, k == IP, 100};
  stuck(r);
  r.opt.max_iterations = 2;
  r.opt.tolerance = 1;
  r.scaled = sh != 2;
  r.on_iter = [](Run& r, const Info& i) { return i.iteration >= 1; };
  if (k == IP) full_steps_only(r, true);
  r.go();
  if (r.status == St::SUCCESS) {
    check_optimal(r, 1);
    h.reach(rest.calls ? "success after restoration" : r.snaps.empty() ? "success at the start" : "success after taking the step anyway");
  }
}
// ---- S02: exit statuses -------------------------------------------------
struct Events {
  bool stop = false;     // a callback asked to stop
  bool rstop = false;    // ... during restoration
  bool late = false;     // the clock passed the timeout
  int calls = 0;         // callback rounds
};
static S inf_norm(const DV& v) {
  S r(0);
  for (int i = 0; i < v.size(); ++i) r = std::max(r, sabs(v(i)));
  return r;
}
// One complication at a time.
enum Extra { X_NONE, X_CLOCK, X_CALLBACKS, X_LINEAR, X_INFEASIBLE, X_NONFINITE, X_DIVERGE, X_COUNT };
static void s02(H& h, Kind kind, int n, int me, int mi, int pts, int iters, int extra, int free_answers = 1 << 30) {

  Run r{h, kind, n, me, mi, pts};
  Events ev;
  // X_COUNT: the complications that need no further values, all at once
  auto has = [extra](int x) { return extra == x || (extra == X_COUNT && x < X_NONFINITE); };
  fspec.max_free = free_answers;
  if (kind == IP && free_answers < 100) full_steps_only(r, true);
  r.opt.max_iterations = iters;
  r.opt.tolerance = 1;
  r.opt.timeout = std::chrono::duration<double>(5.0);
  if (extra != X_DIVERGE)
    for (int i = 0; i < n; ++i) r.x(i) = S(0.5 - i);
  if (has(X_LINEAR)) lin.may_fail = true;
  if (has(X_INFEASIBLE)) ispec.may = true;
  if (has(X_NONFINITE)) r.m.nonfinite = kind == NEWTON ? 0x49 : kind == SQP ? 0x5b : me ? 0x7f : 0x6d;
  if (has(X_NONFINITE) && free_answers < 100) {
    r.m.nonfinite = 1;
    r.m.nonfinite_from = 1;
    r.m.all_after = true;
  }
  int second_calls = 0;
  r.on_iter = [&](Run& r, const Info& i) {
    ++ev.calls;
    if (!rest.calls) h.eq("iterations are numbered from zero without gaps", i.iteration, ev.calls - 1);
    h.check("no iteration from a non-finite start", r.m.vals[0].bad == 0);
    h.check("no iteration after the limit", i.iteration < r.opt.max_iterations);
    h.check("nothing runs after a stop was requested", !ev.stop);
    h.check("nothing runs after the time limit", !ev.late);
    h.check("nothing runs after a failed factorization", !lin.failed);
    h.check("nothing runs after infeasibility was found", !ispec.said);
    h.check("a diverged point is not iterated on", r.snaps.back().x.size() == n);
    h.check_le("iterates shown are within 1e10", inf_norm(i.x), S(1e10));
    if (mi) h.check_le("slacks shown are within 1e10", inf_norm(i.s), S(1e10));
    if (has(X_CLOCK) && h.flip("clock jumps " + std::to_string(ev.calls))) {
      fake_now += std::chrono::seconds(10);
      ev.late = true;
    }
    if (has(X_CALLBACKS)) ev.stop = h.flip("first callback stops " + std::to_string(ev.calls));
    return ev.stop;
  };
  r.on_restore = [&](Run&, const Info&) {
    h.check("nothing runs after a stop was requested", !ev.stop);
    ev.rstop = ev.stop = has(X_CALLBACKS) && h.flip("stop in restoration");
    return ev.stop;
  };
  r.cbs.push_back([&](const Info& i) {
    h.check("later callbacks are not called once one asked to stop", !ev.stop);
    if (i.x.size() != n) return false;
    ++second_calls;
    if (has(X_CALLBACKS) && h.flip("second callback stops " + std::to_string(ev.calls))) ev.stop = true;
    return ev.stop;
  });
  r.go();
  St st = r.status;
  auto only_if = [&](St want, bool cause, const char* what) {
    if (st == want) h.check(std::string(what) + " is reported only when it happened", cause);
  };
  bool start_bad = r.m.vals.empty() ? false : r.m.vals[0].bad != 0;
  only_if(St::CALLBACK_REQUESTED_STOP, ev.stop, "a stop by callback");
  if (ev.stop) h.check("a stop by callback is reported", st == St::CALLBACK_REQUESTED_STOP);
  only_if(St::TOO_FEW_DOFS, me > n, "too few degrees of freedom");
  if (me > n) h.check("too few degrees of freedom are reported", st == St::TOO_FEW_DOFS && ev.calls == 0);
  only_if(St::NONFINITE_INITIAL_GUESS, start_bad, "a non-finite start");
  if (start_bad && me <= n) h.check("a non-finite start is reported", st == St::NONFINITE_INITIAL_GUESS && ev.calls == 0);
  only_if(St::FACTORIZATION_FAILED, lin.failed, "a failed factorization");
  if (lin.failed) h.check("a failed factorization is reported", st == St::FACTORIZATION_FAILED);
  bool restored_infeasible = rest.calls && rest.result == St::LOCALLY_INFEASIBLE && !ev.stop;
  only_if(St::LOCALLY_INFEASIBLE, ispec.said || restored_infeasible, "local infeasibility");
  if (ispec.said || restored_infeasible) h.check("local infeasibility is reported", st == St::LOCALLY_INFEASIBLE);
  bool restored_failed = rest.calls && rest.result == St::FEASIBILITY_RESTORATION_FAILED && !ev.stop;
  only_if(St::FEASIBILITY_RESTORATION_FAILED, restored_failed, "failed restoration");
  if (restored_failed) h.check("failed restoration is reported", st == St::FEASIBILITY_RESTORATION_FAILED);
  only_if(St::TIMEOUT, ev.late, "a timeout");
  // (a cause found later in the same iteration may be reported instead)
  if (st == St::MAX_ITERATIONS_EXCEEDED) {
    if (!rest.calls) h.eq("the iteration limit is reported when that many iterations ran", ev.calls, iters);
    h.reach("iteration limit");
  }
  if (st == St::DIVERGING_ITERATES) {
    h.check_lt("divergence is reported only beyond 1e10", S(1e10), mi && r.s.size() ? std::max(inf_norm(r.x), inf_norm(r.s)) : inf_norm(r.x));
    h.reach("diverging");
  }
  h.check("no status outside the documented causes",
          st == St::SUCCESS || st == St::MAX_ITERATIONS_EXCEEDED || st == St::DIVERGING_ITERATES || st == St::CALLBACK_REQUESTED_STOP ||
              st == St::TOO_FEW_DOFS || st == St::NONFINITE_INITIAL_GUESS || st == St::FACTORIZATION_FAILED || st == St::LOCALLY_INFEASIBLE ||
              st == St::FEASIBILITY_RESTORATION_FAILED || st == St::TIMEOUT || (st == St::LINE_SEARCH_FAILED && kind == NEWTON));
  // What is returned is the last accepted iterate: the start, the one shown
  // last, or one at which everything was evaluated afterwards.
  if (!rest.calls) {
    int k = r.m.find(r.x);
    h.check("the returned point was evaluated", k >= 0);
    if (st == St::CALLBACK_REQUESTED_STOP || st == St::FACTORIZATION_FAILED || st == St::LINE_SEARCH_FAILED) {
      h.check("an iterate was shown", !r.snaps.empty());
      if (!r.snaps.empty()) h.check("the returned point is the last one shown", k == r.snaps.back().k);
    } else if (k >= 0 && !r.m.hcalls.empty()) {
      h.check("the returned point is the last accepted one", k == r.m.hcalls.back().k);
    }
  }
  h.reach("status " + std::to_string(static_cast<int>(st)));
}
HARNESS_SHARDED(s02_newton, 8, "Newton's method, 1 variable, up to 3 iterations and 4 distinct points; one complication at a time: clock jumps past the timeout, callbacks asking to stop, failing factorization, non-finite answers, diverging iterates, or none; also the first four at once") {
  int sh = h.choose("shard", 8);
  s02(h, NEWTON, 1, 0, 0, 4, 3, sh);
}
HARNESS_SHARDED(s02_sqp, 8, "SQP, 1 variable and 1 equality, up to 3 iterations and 4 distinct points; one complication at a time, as in s02_newton plus local infeasibility; also the first four at once") {
  int sh = h.choose("shard", 8);
  s02(h, SQP, 1, 1, 0, 4, 3, sh);
}
HARNESS_SHARDED(s02_ip, 8, "interior-point method, 1 variable and 1 inequality, up to 2 iterations and 2 distinct points; one complication at a time, as in s02_sqp; also the first four at once") {
  int sh = h.choose("shard", 8);
  s02(h, IP, 1, 0, 1, 2, 2, sh);
}
HARNESS_SHARDED(s02_ip_limit, 2, "as s02_ip, one iteration, no complication or the first four at once") {
  s02(h, IP, 1, 0, 1, 2, 1, h.choose("shard", 2) ? X_COUNT : X_NONE);
}
HARNESS(s02_too_few, "SQP and interior-point method with 2 equalities in 1 variable; also non-finite starts") {
  s02(h, h.flip("ip") ? IP : SQP, 1, 2, h.flip("inequality") ? 1 : 0, 2, 1, h.flip("nonfinite") ? X_NONFINITE : X_NONE);
}
HARNESS(s02_enough, "1 to 3 variables with as many equalities or fewer, any inequality count up to one, SQP and interior-point method: the solve starts") {
  Kind k = h.flip("ip") ? IP : SQP;
  int n = 1 + h.choose("variables", 3), me = h.choose("equalities", n + 1), mi = k == IP && h.flip("inequality");
  Run r{h, k, n, me, mi, 1};
  for (int i = 0; i < n; ++i) r.x(i) = S(0.5 - i);
  r.opt.tolerance = 1;
  r.on_iter = [](Run&, const Info&) { return true; };
  r.go();
  h.check("as many equalities as variables are not too many", r.status == St::SUCCESS || r.status == St::CALLBACK_REQUESTED_STOP);
  h.check("a start that is not optimal is iterated on", r.status == St::SUCCESS || r.snaps.size() == 1);
  h.reach("status " + std::to_string(static_cast<int>(r.status)));
}
// ---- P03: the solvers call every callback, in order -------------------------
HARNESS_SHARDED(p03_loop, 3, "each solver's loop with three callbacks, up to two iterations (1 variable; SQP with 1 equality, interior point with 1 inequality and full steps), every answer pattern, all problem values") {
  Kind k = static_cast<Kind>(h.choose("shard", 3));
  Run r{h, k, 1, k == SQP, k == IP, 2};
  r.opt.max_iterations = 2;
  r.opt.tolerance = 1;
  r.x(0) = S(0.5);
  r.cbs.clear();
  r.m.nonfinite = 0;
  if (k == IP) full_steps_only(r, true);
  std::vector<int> calls;
  bool stop = false;
  for (int c = 0; c < 3; ++c)
    r.cbs.push_back([&, c](const Info& i) {
      h.check("no callback runs after one asked to stop", !stop);
      h.eq("callbacks run in order, none left out", c, static_cast<int>(calls.size()) % 3);
      h.eq("all callbacks of an iteration see that iteration", i.iteration, static_cast<int>(calls.size()) / 3);
      h.check("the iterate shown was evaluated", r.m.find(DV(i.x)) >= 0);
      calls.push_back(c);
      return stop = h.flip("callback " + std::to_string(calls.size()) + " stops");
    });
  r.go();
  h.check("a request to stop ends the solve as such, and only that does", stop == (r.status == St::CALLBACK_REQUESTED_STOP));
  if (!stop) h.eq("every iteration ran every callback", static_cast<int>(calls.size()) % 3, 0);
  h.reach(stop ? "stopped" : "not stopped");
}
HARNESS_SHARDED(s02_stuck, 21, "one iteration whose trial points are all rejected (line search failure, step taken anyway, or restoration showing one iterate), then up to one more; Newton, SQP (1,1), interior point (1,0,1) with first steps clear of the boundary and without second-order corrections; one complication at a time (non-finite: the cost is, everywhere but at the start)") {
  int sh = h.choose("shard", 21);
  Kind k = sh % 3 == 0 ? NEWTON : sh % 3 == 1 ? SQP : IP;
  s02(h, k, 1, k == SQP, k == IP, k == NEWTON ? 80 : 60, 1, sh / 3, 0);
}
HARNESS_SHARDED(p03_restoring, 2, "SQP (1,1) and interior point (1,0,1) with steps clear of the boundary, no second-order corrections, every trial rejected, two callbacks: feasibility restoration showing up to two iterates, every answer pattern, all problem values") {
  Kind k = h.choose("shard", 2) ? IP : SQP;
  Run r{h, k, 1, k == SQP, k == IP, 60};
  stuck(r);
  r.opt.max_iterations = 5;
  r.opt.tolerance = k == IP ? 1 : 1e-3;
  r.m.known_start();
  lin.mode = Lin::EXACT;
  r.s = DV::Constant(r.m.mi, S(2.0));
  r.z = DV::Constant(r.m.mi, S(0.5));
  r.mu = S(0.1);
  rest.iters = 2;
  r.cbs.clear();
  lin.after = [&](const DV&) { h.assume(lin.solves == 1); };
  int next = 0, while_restoring = 0;
  bool stop = false;
  for (int c = 0; c < 2; ++c)
    r.cbs.push_back([&, c](const Info& i) {
      h.check("no callback runs after one asked to stop", !stop);
      h.eq("callbacks run in order, none left out", c, next);
      next = 1 - c;
      if (rest.active) {
        ++while_restoring;
        h.check_eq("callbacks see the iterate of the restoration", i.x(0), rest.fx(0));
        stop = h.flip("stop while restoring " + std::to_string(while_restoring));
        return stop;
      }
      if (!rest.calls) return false;
      h.check_eq("callbacks see the restored iterate", i.x(0), rest.x(0));
      h.check("callbacks ran during restoration", while_restoring > 0);
      h.reach("resumed");
      return c == 1 && (stop = true);
    });
  r.go();
  h.check("a request to stop ends the solve as such, and only that does", stop == (r.status == St::CALLBACK_REQUESTED_STOP));
  if (stop) h.reach("stopped");
  if (rest.calls) h.check("restoration's iterates are shown", while_restoring > 0);
}
// ---- S03: iterates stay interior ------------------------------------------
static void s03(H& h, int n, int me, int mi, int pts, int iters, double tol, bool feasible_ipm, bool full, bool scaled, double mu_start = 0, int soc = 0) {
  fspec.max_free = full ? 0 : 1 << 30;
  Run r{h, IP, n, me, mi, pts};
  r.opt.max_iterations = iters;
  r.opt.tolerance = tol;
  r.opt.feasible_ipm = feasible_ipm;
  r.scaled = scaled;
  for (int i = 0; i < n; ++i) r.x(i) = S(0.5 - i);
  if (full) full_steps_only(r, true);
  fspec.reject_first = soc;
  if (mu_start > 0) {  // any interior state
    r.s = reals(h, "s", mi, true);
    r.z = reals(h, "z", mi, true);
    r.y = reals(h, "y", me);
    r.mu = S(mu_start) * r.sf();
  }
  S floor = r.sf() * S(tol) / S(10);
  S mu0 = S(mu_start > 0 ? mu_start : 0.1) * r.sf();
  floor = std::min(floor, mu0);
  auto inspect = [&](const DV& s, const DV& z, const S& mu, const Snap* prev, bool restored) {
    for (int i = 0; i < mi; ++i) {
      h.check_lt("slack positive", S(0), s(i));
      h.check_lt("inequality multiplier positive", S(0), z(i));
    }
    h.check_le("barrier parameter at or above its floor", floor, mu);
    if (prev) {
      h.check_le("barrier parameter does not increase", mu, prev->mu);
      if (!restored) {
        S keep = S(1) - std::max(S(0.99), S(1) - prev->mu);
        for (int i = 0; i < mi; ++i) {
          if (!feasible_ipm) h.check_le("slack step respects the fraction to the boundary", keep * prev->s(i), s(i));
          // the multiplier is afterwards kept within a factor of mu / s
          S cap = S(1.0001e10) * prev->mu / s(i);
          h.check_le("multiplier step respects the fraction to the boundary", std::min(keep * prev->z(i), S(0.9998) * cap), z(i));
          h.check_le("multiplier within 1e10 mu / s", z(i), cap);
          h.check_le("multiplier at least mu / (1e10 s)", S(0.9999e-10) * prev->mu, z(i) * s(i), 1e-18);
        }
      }
    }
  };
  int rest_before = 0;
  r.on_iter = [&](Run& r, const Info& i) {
    h.eq("slack count", i.s.size(), mi);
    h.eq("multiplier count", i.z.size(), mi);
    const Snap* prev = r.snaps.size() > 1 ? &r.snaps[r.snaps.size() - 2] : nullptr;
    if (soc && prev) h.assume(lin.solves == 1 + soc);
    inspect(i.s, i.z, r.mu, prev, rest.calls > rest_before);
    rest_before = rest.calls;
    h.reach(prev ? "second iterate shown" : "first iterate shown");
    return static_cast<int>(r.snaps.size()) > iters;
  };
  r.go();
  if (r.status == St::SUCCESS || r.status == St::MAX_ITERATIONS_EXCEEDED)
    inspect(r.s, r.z, r.mu, r.snaps.empty() ? nullptr : &r.snaps.back(), rest.calls > rest_before);
}
HARNESS_SHARDED(s03_loop, 4, "interior-point method, (variables, equalities, inequalities) in {(1,0,1), (2,1,1)}, one iteration and 2 distinct points; all problem values and steps, constraint gradients from a table; tolerance 0.01 or 1; feasible option on or off in one variable") {
  int sh = h.choose("shard", 4);
  static const struct { int n, me; double tol; bool feas, scaled; } c[] = {{1, 0, 1, false, true}, {2, 1, 1, false, false}, {1, 0, 1e-2, true, false}, {1, 0, 1e-2, false, true}};
  s03(h, c[sh].n, c[sh].me, 1, 2, 1, c[sh].tol, c[sh].feas, false, c[sh].scaled);
}
HARNESS_SHARDED(s03_stuck, 2, "as s03_loop in one variable, every trial rejected: the step is taken anyway or restoration shows one iterate; first steps clear of the boundary, no second-order corrections") {
  int sh = h.choose("shard", 2);
  s03(h, 1, 0, 1, 60, 1, 1, sh, true, false);
}
HARNESS_SHARDED(s03_inductive, 4, "one iteration from any state with positive slacks and multipliers, barrier parameter 0.1 or 0.01 (so that, repeated, it covers any number of iterations), (variables, equalities, inequalities) in {(1,0,1), (2,1,1)}, 2 distinct points") {
  int sh = h.choose("shard", 4);
  s03(h, 1 + sh % 2, sh % 2, 1, 2, 1, sh / 2 ? 0.1 : 1, false, false, false, sh / 2 ? 0.01 : 0.1);
}
HARNESS_SHARDED(s03_corrected, 3, "as s03_inductive, (1,0,1), the full step rejected and a step after one second-order correction accepted (3 distinct points); barrier parameter 0.1 or 0.01, also with the feasible option") {
  int sh = h.choose("shard", 3);
  s03(h, 1, 0, 1, 3, 1, sh ? 1 : 0.1, sh == 2, false, false, sh ? 0.1 : 0.01, 1);
}
// From given numbers: two iterations, the first step full, so that the barrier
// parameter changes or not in between; or one whose multiplier step is cut
// short, taken although every trial was rejected.
static void s03_numbers(H& h, double tol, double s, double z, bool anyway, int me) {
  Run r{h, IP, 1, me, 1, anyway ? 60 : 3};
  r.opt.max_iterations = 5;
  r.opt.tolerance = tol;
  r.m.known_start();
  r.x(0) = S(0.5);
  r.s = DV::Constant(1, S(s));
  r.z = DV::Constant(1, S(z));
  r.y = DV::Constant(me, S(0.5));
  r.mu = S(0.1);
  lin.mode = Lin::EXACT;
  fspec.max_free = anyway ? 0 : 1 << 30;
  lin.after = [&](const DV&) { h.assume(lin.solves == static_cast<int>(r.snaps.size())); };
  r.on_iter = [&](Run& r, const Info& i) {
    h.check_lt("slack positive", S(0), i.s(0));
    h.check_lt("inequality multiplier positive", S(0), i.z(0));
    h.check_le("barrier parameter at or above its floor", S(0.999999 * std::min(0.1, tol / 10)), r.mu);
    if (r.snaps.size() == 1) return false;
    const Snap& o = r.snaps[r.snaps.size() - 2];
    h.assume(rest.calls == 0);
    h.check_le("barrier parameter does not increase", r.mu, o.mu);
    S keep = S(1) - std::max(S(0.99), S(1) - o.mu);
    h.check_le("slack step respects the fraction to the boundary", keep * o.s(0), i.s(0), 1e-9);
    h.check_le("multiplier step respects the fraction to the boundary", std::min(keep * o.z(0), S(0.9998e10) * o.mu / i.s(0)), i.z(0), 1e-9);
    h.check_le("multiplier at least mu / (1e10 s)", S(0.9999e-10) * o.mu, i.z(0) * i.s(0), 1e-18);
    if (r.snaps.size() == 2 && !anyway) {
      h.assume(r.m.pts.size() == 2);
      lin.mode = Lin::ANY;
      return false;
    }
    h.reach(anyway ? "taken anyway" : "third iterate");
    return true;
  };
  r.go();
}
HARNESS_SHARDED(s03_second, 3, "interior-point method, (1,0,1): the second iteration's step, any direction, after a full first step from given numbers, the barrier parameter updated (also to its floor) or not; all problem values after the start") {
  int sh = h.choose("shard", 3);
  s03_numbers(h, sh == 0 ? 1 : sh == 1 ? 0.3 : 0.05, 2, 0.5, false, 0);
}
HARNESS_SHARDED(s03_anyway, 2, "interior-point method, (1,0,1) and (1,1,1): a step cut short for the multipliers or not at all, taken although every trial was rejected, from given numbers") {
  bool cut = h.flip("cut");
  s03_numbers(h, 1, cut ? 1 : 2, cut ? 1 : 0.5, true, h.choose("shard", 2));
}
// ---- S08: each step solves the Newton system ------------------------------
// A step accepted after second-order corrections solves the Newton system whose
// constraint values were corrected by those at the rejected points.
static void s08_soc(H& h, Kind kind, int n, int me, int mi, int rounds, bool any_state) {
  Run r{h, kind, n, me, mi, 2 + rounds};
  r.opt.max_iterations = 5;
  r.opt.tolerance = 1;
  r.m.fixed_jacobians = kind == IP;
  lin.mode = Lin::SATISFY;
  for (int i = 0; i < n; ++i) r.x(i) = S(0.5 - i);
  r.y = reals(h, "y", me);
  if (mi && any_state) {
    r.s = DV::Constant(mi, S(0.5));
    r.z = DV::Constant(mi, S(2.0));
    r.mu = S(0.1);
  }
  fspec.reject_first = rounds;
  // what the corrections have accumulated
  DV ce(me), cs(mi), s0(mi), z0(mi), ps(mi);
  S mu0(0);
  lin.after = [&](const DV& p) {
    const DV x0 = r.m.pts[0];
    if (lin.solves == 1) {
      s0 = mi && r.s.size() ? r.s : DV::Ones(mi);
      z0 = mi && r.z.size() ? r.z : DV::Ones(mi);
      mu0 = r.mu;
      ce = r.m.ce(x0);
      for (int q = 0; q < mi; ++q) cs(q) = r.m.ci(x0)(q) - s0(q);
    } else {
      const DV xt = r.m.pts[lin.solves - 1];
      for (int q = 0; q < me; ++q) ce(q) = ce(q) + r.m.ce(xt)(q);
      for (int q = 0; q < mi; ++q) cs(q) = cs(q) + r.m.ci(xt)(q) - (s0(q) + ps(q));
    }
    for (int q = 0; q < mi; ++q) {
      S d = cs(q);
      for (int j = 0; j < n; ++j) d = d + r.m.Ai(x0)(q, j) * p(j);
      ps(q) = d;
      S pz = mu0 / s0(q) - z0(q) - z0(q) / s0(q) * d;
      h.assume_le(S(-0.9) * s0(q), d);
      h.assume_le(S(-0.9) * z0(q), pz);
    }
  };
  r.on_iter = [&](Run& r, const Info& i) {
    if (r.snaps.size() == 1) return false;
    h.assume(lin.solves == 1 + rounds && static_cast<int>(r.m.pts.size()) == 2 + rounds);
    const Snap& o = r.snaps[0];
    auto& hc = r.m.hcalls[o.hcall];
    DV g = r.m.g(o.x), dx(n), zt(mi);
    DM Ae = r.m.Ae(o.x), Ai = r.m.Ai(o.x);
    for (int a = 0; a < n; ++a) dx(a) = i.x(a) - o.x(a);
    for (int q = 0; q < mi; ++q) {
      S ds = i.s(q) - o.s(q), l = cs(q);
      for (int a = 0; a < n; ++a) l = l + Ai(q, a) * dx(a);
      h.check_eq("linearised corrected inequality with slack", ds, l);
      zt(q) = o.mu / o.s(q) - o.z(q) / o.s(q) * ds;
      h.check_eq("linearised complementarity after correction", i.z(q),
                 std::min(std::max(zt(q), S(1e-10) * o.mu / i.s(q)), S(1e10) * o.mu / i.s(q)));
    }
    for (int q = 0; q < me; ++q) {
      S l = ce(q);
      for (int a = 0; a < n; ++a) l = l + Ae(q, a) * dx(a);
      h.check_eq("linearised corrected equality", l, S(0));
    }
    for (int a = 0; a < n; ++a) {
      S l = g(a);
      for (int b = 0; b < n; ++b) l = l + (b <= a ? hc.H(a, b) : hc.H(b, a)) * dx(b);
      for (int q = 0; q < me; ++q) l = l - Ae(q, a) * i.y(q);
      for (int q = 0; q < mi; ++q) l = l - Ai(q, a) * zt(q);
      h.check_eq("linearised stationarity after correction", l, S(0));
    }
    h.reach("corrected step");
    return true;
  };
  r.go();
}
HARNESS_SHARDED(s08_sqp_corrected, 2, "SQP, 1 variable and 1 equality, any constraint gradient and multiplier: a step accepted after one or two second-order corrections") {
  s08_soc(h, SQP, 1, 1, 0, 1 + h.choose("shard", 2), true);
}
HARNESS_SHARDED(s08_ip_corrected, 4, "interior-point method, (1,0,1) and (1,1,1), slack and multiplier (1,1) or (1/2,2): a full step accepted after one second-order correction, all steps clear of the boundary") {
  int sh = h.choose("shard", 4);
  s08_soc(h, IP, 1, sh % 2, 1, 1, sh / 2);
}
static void s08(H& h, Kind kind, int n, int me, int mi, bool scaled, int any_state, bool any_jac, int shrink, bool full = true, bool anyway = false) {
  Run r{h, kind, n, me, mi, anyway ? 100 : 2 + shrink};
  fspec.max_free = anyway ? 0 : 1 << 30;
  r.opt.max_iterations = 5;
  // At tolerance 1 the barrier parameter is already at its floor.
  r.opt.tolerance = any_state >= 2 || !full || (mi && n > 1) ? 1 : 1e-3;
  r.scaled = scaled;
  r.m.fixed_jacobians = !any_jac;
  lin.mode = Lin::SATISFY;
  if (anyway && mi) {
    r.m.known_start();
    lin.mode = Lin::EXACT;
  }
  for (int i = 0; i < n; ++i) r.x(i) = S(0.5 - i);
  if (any_state) {
    // slacks and multipliers on either side of the central path
    r.s = DV::Constant(mi, S(any_state == 1 ? 0.5 : 2.0));
    r.z = DV::Constant(mi, S(any_state == 1 ? 2.0 : 0.03125));
    r.y = reals(h, "y", me);
    r.mu = r.sf() * S(0.1);
    if (any_state == 3) {
      r.s = reals(h, "s", mi, true);
      r.z = reals(h, "z", mi, true);
    }
  }
  if (!full) lin.mode = Lin::ANY;
  int solves_at = 0;
  S px(0), ps(0);
  if (mi && full) full_steps_only(r, true);
  if (!full)
    lin.after = [&](const DV& p) {
      h.assume(lin.solves == 1);
      px = p(0);
      ps = r.m.ci(r.x)(0) - r.s(0) + r.m.Ai(r.x)(0, 0) * px;
    };
  auto consistent = [&](const Info& i) {
    // What is shown belongs to the iterate shown.
    const Snap& sn = r.snaps.back();
    h.check("the iterate shown was evaluated", sn.k >= 0);
    h.check("the Hessian shown was evaluated last", sn.hcall >= 0);
    if (sn.k < 0 || sn.hcall < 0) return;
    auto& hc = r.m.hcalls[sn.hcall];
    h.eq("the Hessian belongs to the iterate", hc.k, sn.k);
    for (int j = 0; j < me; ++j) h.check_eq("the Hessian uses the current equality multipliers", hc.y(j), kind == NEWTON ? S(0) : i.y(j));
    for (int j = 0; j < mi; ++j) h.check_eq("the Hessian uses the current inequality multipliers", hc.z(j), i.z(j));
    DM Hs(i.H);
    DV gs(i.g);
    h.eq("gradient size", gs.size(), n);
    for (int a = 0; a < n; ++a) {
      h.check_eq("gradient shown", gs(a), r.m.g(i.x)(a));
      for (int b = 0; b <= a; ++b) h.check_eq("Hessian shown", Hs(a, b), hc.H(a, b));
    }
    if (me) {
      DM A(i.A_e);
      for (int a = 0; a < me; ++a)
        for (int b = 0; b < n; ++b) h.check_eq("equality Jacobian shown", A(a, b), r.m.Ae(i.x)(a, b));
    }
    if (mi) {
      DM A(i.A_i);
      for (int a = 0; a < mi; ++a)
        for (int b = 0; b < n; ++b) h.check_eq("inequality Jacobian shown", A(a, b), r.m.Ai(i.x)(a, b));
    }
  };
  r.on_iter = [&](Run& r, const Info& i) {
    consistent(i);
    if (r.snaps.size() == 1) {
      solves_at = lin.solves;
      return false;
    }
    h.assume(lin.solves - solves_at == 1);  // not a second-order correction
    const Snap& o = r.snaps[0];
    auto& hc = r.m.hcalls[o.hcall];
    DV g = r.m.g(o.x), ce = r.m.ce(o.x), ci = r.m.ci(o.x);
    DM Ae = r.m.Ae(o.x), Ai = r.m.Ai(o.x);
    if (!full) {
      // Any step length: primal variables and slacks move along one line.
      h.check_eq("slacks and variables take a common step", (i.x(0) - o.x(0)) * ps, (i.s(0) - o.s(0)) * px);
      h.reach("any step length");
      return true;
    }
    // The step length is a power of one half: each trial halves it.
    if (anyway) h.assume(rest.calls == 0);
    int halvings = anyway ? 0 : static_cast<int>(r.m.pts.size()) - 2;
    S k(std::ldexp(1.0, halvings));
    DV dx(n), s1(mi), y1(me), zt(mi);
    for (int a = 0; a < n; ++a) dx(a) = k * (i.x(a) - o.x(a));
    for (int q = 0; q < me; ++q) y1(q) = o.y(q) + (kind == SQP ? k : S(1)) * (i.y(q) - o.y(q));
    // The primal-dual Newton system, unreduced, at the iterate before.
    for (int q = 0; q < mi; ++q) {
      S ds = k * (i.s(q) - o.s(q)), lin = ci(q) - o.s(q);
      for (int a = 0; a < n; ++a) lin = lin + Ai(q, a) * dx(a);
      h.check_eq("linearised inequality with slack", ds, lin);
      zt(q) = o.mu / o.s(q) - o.z(q) / o.s(q) * ds;  // z + dz
      S lo = S(1e-10) * o.mu / i.s(q), hi = S(1e10) * o.mu / i.s(q);
      h.check_eq("linearised complementarity", i.z(q), std::min(std::max(zt(q), lo), hi));
    }
    for (int q = 0; q < me; ++q) {
      S l = ce(q);
      for (int a = 0; a < n; ++a) l = l + Ae(q, a) * dx(a);
      h.check_eq("linearised equality", l, S(0));
    }
    for (int a = 0; a < n; ++a) {
      S l = g(a);
      for (int b = 0; b < n; ++b) l = l + (b <= a ? hc.H(a, b) : hc.H(b, a)) * dx(b);
      for (int q = 0; q < me; ++q) l = l - Ae(q, a) * y1(q);
      for (int q = 0; q < mi; ++q) l = l - Ai(q, a) * zt(q);
      h.check_eq("linearised stationarity", l, S(0));
    }
    h.reach(anyway ? "step taken anyway" : halvings ? "shortened step" : "full step");
    return true;
  };
  r.go();
}
HARNESS_SHARDED(s08_newton, 2, "Newton's method, 1 or 2 variables: all values; full and once-halved steps") {
  s08(h, NEWTON, 1 + h.choose("shard", 2), 0, 0, false, false, false, h.flip("halved"));
}
HARNESS_SHARDED(s08_sqp, 4, "SQP, 1 or 2 variables and 1 equality, any multiplier, any constraint gradient, with or without scaling; full and once-halved steps") {
  int sh = h.choose("shard", 4);
  s08(h, SQP, 1 + sh / 2, 1, 0, sh % 2, true, true, h.flip("halved"));
}
HARNESS_SHARDED(s08_ip, 9, "interior-point method, (variables, equalities, inequalities) in {(1,0,1), (1,1,1), (2,1,1)}, slack and multiplier (1,1), (1/2,2) or (2,1/32), any equality multiplier, constraint gradients from a table; full steps") {
  int sh = h.choose("shard", 9), c = sh % 3;
  s08(h, IP, 1 + c / 2, c > 0, 1, false, sh / 3, false, 0);
}
HARNESS_SHARDED(s08_ip_halved, 2, "as s08_ip, once-halved steps, (1,0,1) and (1,1,1), initial slacks and multipliers") {
  s08(h, IP, 1, h.choose("shard", 2), 1, false, false, false, 1);
}
HARNESS_SHARDED(s08_anyway, 4, "steps taken although every trial point was rejected: Newton (1 variable), SQP (1,1), interior point (1,0,1) and (1,1,1) with full steps from given numbers, no second-order corrections") {
  int sh = h.choose("shard", 4);
  Kind k = sh == 0 ? NEWTON : sh == 1 ? SQP : IP;
  if (k != IP)
    lin.after = [&](const DV&) { h.assume(lin.solves == 1); };
  s08(h, k, 1, sh % 2, k == IP, false, k == IP ? 2 : 0, false, 0, true, true);
}
HARNESS_SHARDED(s08_ip_short, 1, "as s08_ip, (1,0,1), any step length") {
  h.choose("shard", 1);
  s08(h, IP, 1, 0, 1, false, false, false, 0, false);
}
HARNESS_SHARDED(s08_ip_any, 2, "as s08_ip, any positive slack and multiplier, (1,0,1) and (1,1,1)") {
  s08(h, IP, 1, h.choose("shard", 2), 1, false, 3, false, 0);
}
HARNESS_THOROUGH(s08_ip_any_larger, 1, "as s08_ip_any, (2,1,1)") {
  s08(h, IP, 2, 1, 1, false, 3, false, 0);
}
// The second iteration's step. The first starts from given numbers (so that the
// second starts from numbers too) and ends at a full or once-halved step.
static void s08_second(H& h, Kind kind, int n, int me, int mi, bool scaled) {
  Run r{h, kind, n, me, mi, 4};
  r.opt.max_iterations = 5;
  r.opt.tolerance = mi ? 1 : 1e-3;
  r.scaled = scaled;
  r.m.known_start();
  r.m.fixed_jacobians = kind == IP;
  lin.mode = Lin::EXACT;
  for (int i = 0; i < n; ++i) r.x(i) = S(0.5 - i);
  if (me) r.y = DV::Constant(me, S(0.5));
  size_t seen = 0;
  bool halved = h.flip("first step halved");
  fspec.reject_first = halved;
  lin.after = [&](const DV& p) {
    h.assume(lin.solves <= 2 && (lin.solves == 2) == (r.snaps.size() == 2));
    if (lin.solves < 2) return;
    const Snap& o = r.snaps[1];
    DV ci = r.m.ci(o.x);
    DM Ai = r.m.Ai(o.x);
    for (int q = 0; q < mi; ++q) {
      S ps = ci(q) - o.s(q);
      for (int j = 0; j < n; ++j) ps = ps + Ai(q, j) * p(j);
      S pz = o.mu / o.s(q) - o.z(q) - o.z(q) / o.s(q) * ps;
      h.assume_le(S(-0.9) * o.s(q), ps);
      h.assume_le(S(-0.9) * o.z(q), pz);
    }
  };
  r.on_iter = [&](Run& r, const Info& i) {
    if (r.snaps.size() == 1) return false;
    if (r.snaps.size() == 2) {
      h.assume(r.m.pts.size() == 2u + halved);
      seen = r.m.pts.size();
      fspec.reject_first = 0;
      fspec.asked = 0;
      lin.mode = Lin::SATISFY;
      return false;
    }
    h.assume(r.m.pts.size() == seen + 1);
    const Snap& o = r.snaps[1];
    auto& hc = r.m.hcalls[o.hcall];
    h.eq("the Hessian belongs to the iterate", hc.k, o.k);
    for (int j = 0; j < me; ++j) h.check_eq("the Hessian uses the current equality multipliers", hc.y(j), o.y(j));
    for (int j = 0; j < mi; ++j) h.check_eq("the Hessian uses the current inequality multipliers", hc.z(j), o.z(j));
    DV g = r.m.g(o.x), ce = r.m.ce(o.x), ci = r.m.ci(o.x), dx(n), zt(mi);
    DM Ae = r.m.Ae(o.x), Ai = r.m.Ai(o.x);
    for (int a = 0; a < n; ++a) dx(a) = i.x(a) - o.x(a);
    for (int q = 0; q < mi; ++q) {
      S ds = i.s(q) - o.s(q), l = ci(q) - o.s(q);
      for (int a = 0; a < n; ++a) l = l + Ai(q, a) * dx(a);
      h.check_eq("linearised inequality with slack, second step", ds, l);
      zt(q) = o.mu / o.s(q) - o.z(q) / o.s(q) * ds;
      h.check_eq("linearised complementarity, second step", i.z(q),
                 std::min(std::max(zt(q), S(1e-10) * o.mu / i.s(q)), S(1e10) * o.mu / i.s(q)));
    }
    for (int q = 0; q < me; ++q) {
      S l = ce(q);
      for (int a = 0; a < n; ++a) l = l + Ae(q, a) * dx(a);
      h.check_eq("linearised equality, second step", l, S(0));
    }
    for (int a = 0; a < n; ++a) {
      S l = g(a);
      for (int b = 0; b < n; ++b) l = l + (b <= a ? hc.H(a, b) : hc.H(b, a)) * dx(b);
      for (int q = 0; q < me; ++q) l = l - Ae(q, a) * i.y(q);
      for (int q = 0; q < mi; ++q) l = l - Ai(q, a) * zt(q);
      h.check_eq("linearised stationarity, second step", l, S(0));
    }
    h.reach("second step");
    return true;
  };
  r.go();
}
HARNESS_SHARDED(s08_second, 7, "the second iteration's full step, after a full or once-halved first step from given numbers: Newton (1 and 2 variables), SQP (1,1) scaled or not, interior point (1,0,1), (1,1,1), (2,1,1)") {
  switch (h.choose("shard", 7)) {
    case 0: return s08_second(h, NEWTON, 1, 0, 0, false);
    case 1: return s08_second(h, NEWTON, 2, 0, 0, false);
    case 2: return s08_second(h, SQP, 1, 1, 0, false);
    case 3: return s08_second(h, SQP, 1, 1, 0, true);
    case 4: return s08_second(h, IP, 1, 0, 1, false);
    case 5: return s08_second(h, IP, 1, 1, 1, false);
    case 6: return s08_second(h, IP, 2, 1, 1, false);
  }
}
HARNESS(s08_ip_two, "as s08_ip, (1,0,2)") {
  s08(h, IP, 1, 0, 2, false, 2, false, 0);
}
// ---- S04: what the line searches ask the filter -----------------------------
// Each question compares the current iterate with the trial point just
// evaluated, with the slope of the barrier cost along the step.
struct Enough {};
static void s04_loop(H& h, Kind kind, int n, int me, int mi, bool feasible) {
  Run r{h, kind, n, me, mi, 3};
  r.opt.max_iterations = 5;
  r.opt.tolerance = 1e-3;
  r.opt.feasible_ipm = feasible;
  r.m.fixed_jacobians = kind == IP;
  lin.mode = Lin::SATISFY;
  for (int i = 0; i < n; ++i) r.x(i) = S(0.5 - i);
  r.y = reals(h, "y", me);
  r.s = DV::Constant(mi, S(0.5));
  r.z = DV::Constant(mi, S(2.0));
  r.mu = S(0.1);
  const DV x0 = r.x, s0 = r.s;
  const S mu0 = r.mu;
  DV px(n), ps(mi);
  lin.after = [&](const DV& p) {
    h.assume(lin.solves == 1);
    for (int j = 0; j < n; ++j) px(j) = p(j);
    for (int q = 0; q < mi; ++q) {
      ps(q) = r.m.ci(x0)(q) - s0(q);
      for (int j = 0; j < n; ++j) ps(q) = ps(q) + r.m.Ai(x0)(q, j) * p(j);
      S pz = mu0 / s0(q) - r.z(q) - r.z(q) / s0(q) * ps(q);
      h.assume_le(S(-0.9) * s0(q), ps(q));
      h.assume_le(S(-0.9) * r.z(q), pz);
    }
  };
  bool was_feasible = feasible;
  int asked = 0;
  for (int q = 0; q < mi && was_feasible; ++q) was_feasible = S(0) < r.m.ci(x0)(q);
  fspec.told = [&](const FilterSpec::Entry& c, const FilterSpec::Entry& t, const S& slope, const S& alpha) {
    h.check_eq("the filter is asked about the current cost", c.f, r.m.f(x0));
    const DV xt = r.m.pts.back();
    h.check_eq("the filter is asked about the trial cost", t.f, r.m.f(xt));
    S vc(0), vt(0), d(0);
    for (int q = 0; q < me; ++q) vc = vc + sabs(r.m.ce(x0)(q)), vt = vt + sabs(r.m.ce(xt)(q));
    for (int q = 0; q < mi; ++q) vc = vc + sabs(r.m.ci(x0)(q) - s0(q)), vt = vt + sabs(r.m.ci(xt)(q) - t.s(q));
    h.check_eq("the filter is asked about the current violation", c.violation, vc);
    h.check_eq("the filter is asked about the trial violation", t.violation, vt);
    for (int j = 0; j < n; ++j) {
      d = d + r.m.g(x0)(j) * px(j);
      h.check_eq("the trial point is the stated step away", xt(j), x0(j) + alpha * px(j));
    }
    for (int q = 0; q < mi; ++q) {
      d = d - mu0 * ps(q) / s0(q);
      h.check_eq("the filter sees the current slacks", c.s(q), s0(q));
      if (was_feasible) h.check_eq("feasible points keep their constraint values as slacks", t.s(q), r.m.ci(xt)(q));
      else h.check_eq("the filter sees the trial slacks", t.s(q), s0(q) + alpha * ps(q));
    }
    h.check_eq("the slope is that of the barrier cost along the step", slope, d);
    if (mi) {
      h.check_eq("the current cost uses the barrier parameter", c.mu, mu0);
      h.check_eq("the trial cost uses the barrier parameter", t.mu, mu0);
    }
    h.reach("asked");
    if (++asked == 2) throw Enough{};
  };
  fspec.reject_first = 1;
  r.on_iter = [&](Run& r, const Info&) { return r.snaps.size() > 1; };
  try {
    r.go();
  } catch (Enough&) {
  }
}
HARNESS_SHARDED(s04_loop, 8, "the first two questions of the first iteration's line search, the full step rejected, then the once-halved one: Newton (1 and 2 variables), SQP (1,1), interior point (1,0,1), (1,1,1) and (1,0,2), slack 1/2 and multiplier 2, (1,0,1) and (1,0,2) also with the feasible option; all problem values") {
  switch (h.choose("shard", 6)) {
    case 0: return s04_loop(h, NEWTON, 1, 0, 0, false);
    case 1: return s04_loop(h, NEWTON, 2, 0, 0, false);
    case 2: return s04_loop(h, SQP, 1, 1, 0, false);
    case 3: return s04_loop(h, IP, 1, 0, 1, false);
    case 4: return s04_loop(h, IP, 1, 1, 1, false);
    case 5: return s04_loop(h, IP, 1, 0, 1, true);
    case 6: return s04_loop(h, IP, 1, 0, 2, false);
    case 7: return s04_loop(h, IP, 1, 0, 2, true);
  }
}
// What every question must compare: the iterate (x0, s0) with the trial point
// (xt, st) under the barrier parameter in force.
static void check_question(Run& r, const DV& x0, const DV& s0, const S& mu, const DV& xt, const DV& st, const FilterSpec::Entry& c,
                           const FilterSpec::Entry& t) {
  H& h = r.h;
  h.check_eq("the filter is asked about the current cost", c.f, r.m.f(x0));
  h.check_eq("the filter is asked about the trial cost", t.f, r.m.f(xt));
  S vc(0), vt(0);
  for (int q = 0; q < r.m.me; ++q) vc = vc + sabs(r.m.ce(x0)(q)), vt = vt + sabs(r.m.ce(xt)(q));
  for (int q = 0; q < r.m.mi; ++q) {
    vc = vc + sabs(r.m.ci(x0)(q) - s0(q)), vt = vt + sabs(r.m.ci(xt)(q) - st(q));
    h.check_eq("the filter sees the current slacks", c.s(q), s0(q));
    h.check_eq("the filter sees the trial slacks", t.s(q), st(q));
  }
  h.check_eq("the filter is asked about the current violation", c.violation, vc);
  h.check_eq("the filter is asked about the trial violation", t.violation, vt);
  if (r.m.mi) {
    h.check_eq("the current cost uses the barrier parameter", c.mu, mu);
    h.check_eq("the trial cost uses the barrier parameter", t.mu, mu);
  }
}
HARNESS_SHARDED(s04_restoring, 2, "SQP (1,1) and interior point (1,0,1) with steps clear of the boundary, no second-order corrections, every trial rejected: the question asked of the filter when restoration shows an iterate; all problem values") {
  Kind k = h.choose("shard", 2) ? IP : SQP;
  Run r{h, k, 1, k == SQP, k == IP, 60};
  stuck(r);
  r.opt.tolerance = 1e-3;
  r.m.fixed_jacobians = k == IP;
  r.s = DV::Constant(r.m.mi, S(0.5));
  r.z = DV::Constant(r.m.mi, S(2.0));
  r.y = reals(h, "y", r.m.me);
  r.mu = S(0.1);
  const DV x0 = r.x, s0 = r.s;
  if (k == IP) full_steps_only(r, true);
  else lin.after = [&](const DV&) { h.assume(lin.solves == 1); };
  fspec.told = [&](const FilterSpec::Entry& c, const FilterSpec::Entry& t, const S& slope, const S&) {
    if (!rest.active) return;
    check_question(r, x0, s0, S(0.1), rest.fx, rest.fs, c, t);
    S d = r.m.g(x0)(0) * (rest.fx(0) - x0(0));
    if (k == IP) d = d - S(0.1) * (rest.fs(0) - s0(0)) / s0(0);
    h.check_eq("the slope is that of the barrier cost towards the point restored", slope, d);
    h.reach("asked during restoration");
    throw Enough{};
  };
  r.on_iter = [](Run& r, const Info&) { return r.snaps.size() > 1; };
  try {
    r.go();
  } catch (Enough&) {
  }
}
HARNESS_SHARDED(s04_corrected, 4, "SQP (1,1) and interior point (1,0,1), (1,1,1), also (1,0,1) with the feasible option, slack 1/2 and multiplier 2, all steps clear of the boundary: the question asked after a second-order correction; all problem values") {
  int sh = h.choose("shard", 4);
  Kind k = sh ? IP : SQP;
  Run r{h, k, 1, sh == 0 || sh == 2, k == IP, 3};
  int me = r.m.me, mi = r.m.mi;
  r.opt.max_iterations = 5;
  r.opt.tolerance = 1e-3;
  r.opt.feasible_ipm = sh == 3;
  r.m.fixed_jacobians = k == IP;
  lin.mode = Lin::SATISFY;
  r.x(0) = S(0.5);
  r.y = reals(h, "y", me);
  r.s = DV::Constant(mi, S(0.5));
  r.z = DV::Constant(mi, S(2.0));
  r.mu = S(0.1);
  const DV x0 = r.x, s0 = r.s;
  fspec.reject_first = 1;
  S p0(0), ps0(0), cs(0), ps(0), px(0);
  lin.after = [&](const DV& p) {
    if (lin.solves == 1) {
      p0 = p(0);
      if (mi) cs = r.m.ci(x0)(0) - s0(0);
    } else if (mi) {
      const DV xt = r.m.pts.back();
      S st = s0(0) + ps;
      if (sh == 3 && S(0) < r.m.ci(x0)(0)) st = r.m.ci(xt)(0);
      cs = cs + r.m.ci(xt)(0) - st;
    }
    px = p(0);
    if (mi) {
      ps = cs + r.m.Ai(x0)(0, 0) * p(0);
      if (lin.solves == 1) ps0 = ps;
      S pz = r.mu / s0(0) - r.z(0) - r.z(0) / s0(0) * ps;
      h.assume_le(S(-0.9) * s0(0), ps);
      h.assume_le(S(-0.9) * r.z(0), pz);
    }
  };
  fspec.told = [&](const FilterSpec::Entry& c, const FilterSpec::Entry& t, const S& slope, const S&) {
    if (lin.solves != 2) {
      h.assume(fspec.asked == 0);
      return;
    }
    DV st(mi);
    if (mi) st(0) = s0(0) + ps;
    const DV xt = r.m.pts.back();
    h.check_eq("the corrected trial point is the corrected step away", xt(0), x0(0) + px);
    check_question(r, x0, s0, S(0.1), xt, st, c, t);
    S d = r.m.g(x0)(0) * p0;
    if (mi) d = d - S(0.1) * ps0 / s0(0);
    h.check_eq("the slope is that of the barrier cost along the uncorrected step", slope, d);
    h.reach("asked after a correction");
    throw Enough{};
  };
  r.on_iter = [](Run& r, const Info&) { return r.snaps.size() > 1; };
  try {
    r.go();
  } catch (Enough&) {
  }
}
HARNESS_SHARDED(s04_finite, 6, "Newton (1 variable), SQP (1,1), interior point (1,0,1) with steps clear of the boundary, no second-order corrections; the cost or a constraint is non-finite at the full step, or everywhere but at the start, and the filter rejects every finite trial: no iterate shown or returned has a non-finite cost or constraint") {
  int sh = h.choose("shard", 6);
  Kind k = static_cast<Kind>(sh % 3);
  Run r{h, k, 1, k == SQP, k == IP, 100};
  stuck(r);
  r.opt.tolerance = k == IP ? 1 : 1e-3;
  r.m.known_start();
  lin.mode = Lin::EXACT;
  r.s = DV::Constant(r.m.mi, S(2.0));
  r.z = DV::Constant(r.m.mi, S(0.5));
  r.mu = S(0.1);
  r.m.nonfinite = 1 << (k == NEWTON || h.flip("cost") ? 0 : k == SQP ? 1 : 2);
  r.m.nonfinite_from = 1;
  r.m.all_after = true;
  if (sh < 3) r.m.nonfinite_to = 1;
  lin.after = [&](const DV&) { h.assume(lin.solves == static_cast<int>(r.snaps.size())); };
  auto finite = [&](const DV& x) {
    if (rest.calls) return;  // restoration's stand-in went anywhere
    int q = r.m.find(x);
    h.check("the cost and constraints are finite at every point accepted", q < 0 || !r.m.vals[q].bad);
  };
  r.on_iter = [&](Run& r, const Info& i) {
    finite(i.x);
    h.reach("iterate shown");
    return r.snaps.size() > 1;
  };
  r.go();
  finite(r.x);
  h.reach("returned");
}
// The second iteration's first question, after each way to take a step.
enum How { FULL, HALVED, CORRECTED, ANYWAY, RESTORED };
static void s04_second(H& h, Kind k, int n, int me, int mi, int how) {
  Run r{h, k, n, me, mi, 100};
  r.opt.max_iterations = 5;
  r.opt.tolerance = mi ? 1 : 1e-3;  // (the barrier parameter is then at its floor)
  r.m.known_start();
  r.m.fixed_jacobians = k == IP;
  lin.mode = Lin::EXACT;
  for (int i = 0; i < n; ++i) r.x(i) = S(0.5 - i);
  if (me) r.y = DV::Constant(me, S(0.5));
  fspec.reject_first = how == HALVED || how == CORRECTED;
  if (how >= ANYWAY) fspec.max_free = 0;
  else fspec.max_free = 1 << 30;
  DV p2(n), ps(mi);
  lin.after = [&](const DV& p) {
    int first = 1 + (how == CORRECTED);
    if (r.snaps.size() < 2) {
      h.assume(lin.solves <= first);
      return;
    }
    h.assume(lin.solves == first + 1);
    const Snap& o = r.snaps[1];
    for (int j = 0; j < n; ++j) p2(j) = p(j);
    for (int q = 0; q < mi; ++q) {
      ps(q) = r.m.ci(o.x)(q) - o.s(q);
      for (int j = 0; j < n; ++j) ps(q) = ps(q) + r.m.Ai(o.x)(q, j) * p(j);
      S pz = o.mu / o.s(q) - o.z(q) - o.z(q) / o.s(q) * ps(q);
      h.assume_le(S(-0.9) * o.s(q), ps(q));
      h.assume_le(S(-0.9) * o.z(q), pz);
    }
  };
  fspec.told = [&](const FilterSpec::Entry& c, const FilterSpec::Entry& t, const S& slope, const S& alpha) {
    if (r.snaps.size() < 2 || rest.active) return;
    const Snap& o = r.snaps[1];
    const DV xt = r.m.pts.back();
    DV st(mi);
    S d(0);
    for (int q = 0; q < mi; ++q) st(q) = o.s(q) + alpha * ps(q), d = d - o.mu * ps(q) / o.s(q);
    for (int j = 0; j < n; ++j) {
      h.check_eq("the trial point is the stated step away", xt(j), o.x(j) + alpha * p2(j));
      d = d + r.m.g(o.x)(j) * p2(j);
    }
    check_question(r, o.x, o.s, o.mu, xt, st, c, t);
    h.check_eq("the slope is that of the barrier cost along the step", slope, d);
    h.reach("asked in the second iteration, step kind " + std::to_string(k) + std::to_string(how));
    throw Enough{};
  };
  r.on_iter = [&](Run& r, const Info&) {
    if (r.snaps.size() == 1) return false;
    if (r.snaps.size() > 2) return true;
    h.assume(how == RESTORED ? rest.calls == 1 : rest.calls == 0);
    h.assume(how == CORRECTED ? lin.solves == 2 : lin.solves == 1);
    if (how == FULL) h.assume(r.m.pts.size() == 2);
    if (how == HALVED || how == CORRECTED) h.assume(r.m.pts.size() == 3);
    fspec.max_free = 1 << 30;
    fspec.reject_first = 0;
    lin.mode = Lin::ANY;
    return false;
  };
  try {
    r.go();
  } catch (Enough&) {
  }
}
HARNESS_SHARDED(s04_second, 14, "the second iteration's first question, after a full, once-halved or corrected step, one taken although every trial was rejected, or restoration, from given numbers: Newton (1 variable), SQP (1,1), interior point (1,0,1); all problem values after the start") {
  static const struct { Kind k; int how; } c[] = {{NEWTON, FULL}, {NEWTON, HALVED}, {NEWTON, ANYWAY},
                                                  {SQP, FULL}, {SQP, HALVED}, {SQP, CORRECTED}, {SQP, ANYWAY}, {SQP, RESTORED},
                                                  {IP, FULL}, {IP, HALVED}, {IP, CORRECTED}, {IP, ANYWAY}, {IP, RESTORED}, {IP, FULL}};
  int sh = h.choose("shard", 14);
  auto [k, how] = c[sh];
  s04_second(h, k, 1, k == SQP || sh == 13, k == IP, how);
}
HARNESS_SHARDED(s04_barrier_changes, 2, "interior point (1,0,1), two iterations from a start of given numbers, barrier parameter updated (also to its floor) or not between them: all problem values after the start") {
  Run r{h, IP, 1, 0, 1, 3};
  r.opt.max_iterations = 5;
  r.opt.tolerance = h.choose("shard", 2) ? 0.3 : 1e-3;
  r.m.known_start();
  lin.mode = Lin::EXACT;
  r.x(0) = S(0.5);
  S of(0);
  bool any = false;
  fspec.told = [&](const FilterSpec::Entry& c, const FilterSpec::Entry& t, const S&, const S&) {
    h.check_eq("costs compared use one barrier parameter", c.mu, t.mu);
    if (any) h.check_eq("the filter's history has the barrier parameter in force", of, t.mu);
    any = true;
    of = t.mu;
    h.reach(r.snaps.size() == 2 ? "second iteration" : "first iteration");
    if (r.snaps.size() == 2) throw Enough{};
  };
  fspec.told_reset = [&] {
    any = false;
    h.reach("reset");
  };
  lin.after = [&](const DV& p) {
    h.assume(lin.solves == static_cast<int>(r.snaps.size()));
    if (lin.solves < 2) return;
    const Snap& o = r.snaps[1];
    S ps = r.m.ci(o.x)(0) - o.s(0) + r.m.Ai(o.x)(0, 0) * p(0), pz = o.mu / o.s(0) - o.z(0) - o.z(0) / o.s(0) * ps;
    h.assume_le(S(-0.9) * o.s(0), ps);
    h.assume_le(S(-0.9) * o.z(0), pz);
  };
  r.on_iter = [&](Run& r, const Info&) {
    if (r.snaps.size() == 2) lin.mode = Lin::SATISFY;
    return r.snaps.size() == 3;
  };
  try {
    r.go();
  } catch (Enough&) {
  }
}
// ---- S09: what restoration does to the solve -------------------------------
HARNESS_SHARDED(s09_resume, 5, "one iteration whose trials are all rejected, restoration showing one iterate, up to one more iteration; SQP (1,1) and interior point (1,0,1) with first steps clear of the boundary; with the second callback possibly stopping restoration; interior point already restoring") {
  int sh = h.choose("shard", 5);
  bool nested = sh == 4, stop = sh % 2;
  Kind k = sh < 2 ? SQP : IP;
  Run r{h, k, 1, k == SQP, k == IP, 60};
  stuck(r);
  r.opt.max_iterations = 2;
  r.opt.tolerance = 1;
  r.nested = nested;
  bool user_stop = false;
  int rounds_after = 0;
  S before(0), after(0);
  auto violation = [&](const DV& x, const DV& s) {
    return k == SQP ? sabs(r.m.ce(x)(0)) : sabs(r.m.ci(x)(0) - s(0));
  };
  r.on_iter = [&](Run& r, const Info& i) {
    if (!rest.calls) {
      before = violation(i.x, i.s);
      return false;
    }
    ++rounds_after;
    h.check_eq("the solve resumes from the point found", i.x(0), rest.x(0));
    if (k == IP) {
      h.check_eq("the solve resumes with the slacks found", i.s(0), rest.s(0));
      h.check_eq("the solve resumes with the estimated inequality multipliers", i.z(0), rest.z(0));
      h.check_lt("slacks are positive", S(0), i.s(0));
      h.check_lt("inequality multipliers are positive", S(0), i.z(0));
    } else {
      h.check_eq("the solve resumes with the estimated equality multipliers", i.y(0), rest.y(0));
    }
    h.reach("resumed");
    return true;
  };
  r.cbs.push_back([&](const Info& i) {
    if (static_cast<int>(i.x.size()) == r.m.n) return false;
    return user_stop = stop && h.flip("user stops restoration");
  });
  if (k == IP) full_steps_only(r, true);
  r.go();
  if (nested) {
    h.eq("no restoration within restoration", rest.calls, 0);
    if (r.status == St::FEASIBILITY_RESTORATION_FAILED) h.reach("nested restoration refused");
    return;
  }
  if (!rest.calls) return;
  h.reach(rest.result == St::SUCCESS ? "restoration stopped" : "restoration ran out");
  if (user_stop) {
    h.check("a stop requested during restoration ends the solve", r.status == St::CALLBACK_REQUESTED_STOP && rounds_after == 0);
    h.reach("stopped by the user");
  } else if (rest.result == St::SUCCESS) {
    after = violation(rest.x, rest.s);
    h.check_lt("restoration ends only once it reduced the violation", after, before);
    h.check("the solve goes on", rounds_after == 1 || r.status == St::SUCCESS || r.status == St::DIVERGING_ITERATES || r.status == St::LOCALLY_INFEASIBLE || r.status == St::MAX_ITERATIONS_EXCEEDED);
  } else {
    h.check("a failed restoration ends the solve", rounds_after == 0 && r.status == rest.result);
  }
}
