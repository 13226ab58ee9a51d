// Problem front end: formulation, scaling and sign conventions of everything
// handed to the solvers, dispatch, write-back, callbacks, bound detection.
#include "solver_spy.hpp"

using slp::ExitStatus;
using PB = slp::Problem<S>;
using slp::ExpressionType;

static Jet jc(S c) { return Jet(c); }
static Jet add(const Jet& a, const Jet& b) { return bin_ref(ADD, a, b); }
static Jet sub(const Jet& a, const Jet& b) { return bin_ref(SUB, a, b); }
static Jet mul(const Jet& a, const Jet& b) { return bin_ref(MUL, a, b); }
static Jet neg(const Jet& a) { return un_ref(NEG, a); }

// A formula both as a library expression and as a function producing the jet at
// a given point.
struct Fm {
  V v;
  std::function<Jet(const std::vector<Jet>&)> j;
  ExpressionType type;
};
static Fm formula(int k, V x, V y, V z) {
  switch (k) {
    case 0: return {S(2) * x - y + S(3), [](auto& a) { return add(sub(mul(jc(S(2)), a[0]), a[1]), jc(S(3))); }, ExpressionType::LINEAR};
    case 1: return {x * y + z * z - S(1), [](auto& a) { return sub(add(mul(a[0], a[1]), mul(a[2], a[2])), jc(S(1))); }, ExpressionType::QUADRATIC};
    case 2: return {x * y * z + slp::sin(y), [](auto& a) { return add(mul(mul(a[0], a[1]), a[2]), un_ref(SIN, a[1])); }, ExpressionType::NONLINEAR};
    case 3: return {S(400) * y * y * y + x, [](auto& a) { return add(mul(mul(mul(jc(S(400)), a[1]), a[1]), a[1]), a[0]); }, ExpressionType::NONLINEAR};
    case 4: return {V{S(5)}, [](auto&) { return jc(S(5)); }, ExpressionType::CONSTANT};
    default: return {S(300) * z + x, [](auto& a) { return add(mul(jc(S(300)), a[2]), a[0]); }, ExpressionType::LINEAR};
  }
}
struct Built {
  PB p;
  std::vector<V> vars;  // in creation order
  std::vector<S> x0;
};
static void build(H& h, Built& b, int layout) {
  if (layout == 0) {
    for (int i = 0; i < 3; ++i) b.vars.push_back(b.p.decision_variable());
  } else if (layout == 1) {
    VM m = b.p.decision_variable(3, 1);
    for (int i = 0; i < 3; ++i) b.vars.push_back(m[i]);
  } else {
    VM m = b.p.symmetric_decision_variable(2);
    b.vars = {m[0, 0], m[1, 0], m[1, 1]};
    m[0, 1].set_value(S(7));
    h.check_eq("symmetric matrix shares its off-diagonal variable", V(m[1, 0]).value(), S(7));
  }
  for (int i = 0; i < 3; ++i) {
    b.x0.push_back(S(i == 1 ? -2 : i + 1));
    b.vars[i].set_value(b.x0[i]);
  }
}
static std::vector<Jet> at(const std::vector<S>& x) {
  std::vector<Jet> r;
  for (int i = 0; i < 3; ++i) r.push_back(Jet::var(x[i], i));
  return r;
}
static void lower(H& h, const std::string& t, SM m, const std::array<std::array<S, NV>, NV>& ref) {
  h.eq(t + " rows", m.rows(), 3);
  h.eq(t + " cols", m.cols(), 3);
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) h.check_eq(t, m.coeff(i, j), j <= i ? ref[i][j] : S(0));
}
static std::array<std::array<S, NV>, NV> zero3() { return Jet(S(0)).h; }

// shared verification of one set of solver callbacks
template <typename M>
static void verify(H& h, const M& m, const Jet& f, const std::vector<Jet>& ce, const std::vector<Jet>& ci, const DV& x) {
  constexpr bool has_e = requires { m.c_e; };
  constexpr bool has_i = requires { m.c_i; };
  S sf = m.scaling.f;
  // Every callback is asked after another point was evaluated.
  DV elsewhere(3);
  for (int i = 0; i < 3; ++i) elsewhere(i) = S(0.5 + 2 * i);
  auto away = [&] { m.f(elsewhere); };
  h.check("cost scale is positive", sf > S(0));
  away();
  h.eq("decision variables", m.num_decision_variables, 3);
  h.check_eq("cost", m.f(x), sf * f.v);
  away();
  SV g = m.g(x);
  h.eq("gradient rows", g.size(), 3);
  for (int i = 0; i < 3; ++i) h.check_eq("gradient", g.coeff(i), sf * f.g[i]);
  if constexpr (!has_e) {
    auto r = f.h;
    for (auto& q : r)
      for (auto& e : q) e = sf * e;
    away();
    lower(h, "Hessian", m.H(x), r);
  } else {
    // ... and the constraint part of the Hessian for other multipliers.
    DV y(ce.size()), z(ci.size()), y2(ce.size()), z2(ci.size());
    for (size_t i = 0; i < ce.size(); ++i) y2(i) = h.real("other y" + std::to_string(i));
    for (size_t i = 0; i < ci.size(); ++i) z2(i) = h.real("other z" + std::to_string(i));
    for (size_t i = 0; i < ce.size(); ++i) y(i) = h.real("y" + std::to_string(i));
    for (size_t i = 0; i < ci.size(); ++i) z(i) = h.real("z" + std::to_string(i));
    h.eq("equality constraints", m.num_equality_constraints, (long)ce.size());
    auto hc = zero3(), hc2 = zero3();
    auto full = f.h;
    away();
    DV c = m.c_e(x);
    away();
    SM A = m.A_e(x);
    h.eq("c_e rows", c.size(), (long)ce.size());
    h.eq("A_e rows", A.rows(), (long)ce.size());
    h.eq("A_e cols", A.cols(), 3);
    for (size_t k = 0; k < ce.size(); ++k) {
      S s = m.scaling.c_e[k];
      h.check("equality scale is positive", s > S(0));
      h.check_eq("equality constraint", c(k), s * ce[k].v);
      for (int i = 0; i < 3; ++i) h.check_eq("equality Jacobian", A.coeff(k, i), s * ce[k].g[i]);
      for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) hc[i][j] = hc[i][j] - s * y(k) * ce[k].h[i][j], hc2[i][j] = hc2[i][j] - s * y2(k) * ce[k].h[i][j];
    }
    if constexpr (has_i) {
      h.eq("inequality constraints", m.num_inequality_constraints, (long)ci.size());
      away();
      DV c2 = m.c_i(x);
      away();
      SM A2 = m.A_i(x);
      h.eq("c_i rows", c2.size(), (long)ci.size());
      h.eq("A_i rows", A2.rows(), (long)ci.size());
      h.eq("A_i cols", A2.cols(), 3);
      for (size_t k = 0; k < ci.size(); ++k) {
        S s = m.scaling.c_i[k];
        h.check("inequality scale is positive", s > S(0));
        h.check_eq("inequality constraint", c2(k), s * ci[k].v);
        for (int i = 0; i < 3; ++i) h.check_eq("inequality Jacobian", A2.coeff(k, i), s * ci[k].g[i]);
        for (int i = 0; i < 3; ++i)
          for (int j = 0; j < 3; ++j) hc[i][j] = hc[i][j] - s * z(k) * ci[k].h[i][j], hc2[i][j] = hc2[i][j] - s * z2(k) * ci[k].h[i][j];
      }
    }
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) full[i][j] = sf * full[i][j] + hc[i][j];
    if constexpr (has_i) {
      away();
      lower(h, "Hessian of the Lagrangian", m.H(x, y, z), full);
      away();
      lower(h, "constraint part of the Hessian", m.H_c(x, y2, z2), hc2);
    } else {
      away();
      lower(h, "Hessian of the Lagrangian", m.H(x, y), full);
      away();
      lower(h, "constraint part of the Hessian", m.H_c(x, y2), hc2);
    }
  }
}
static DV sym_x(H& h, const std::string& n) {
  DV x(3);
  for (int i = 0; i < 3; ++i) x(i) = h.real(n + std::to_string(i));
  return x;
}
static std::vector<S> vec(const DV& x) { return {x(0), x(1), x(2)}; }

static void formulation(H& h) {
  int shard = h.choose("shard", 6);
  int obj = h.choose("objective", 3);  // none, minimize, maximize
  int fk = obj ? h.choose("cost formula", 6) : 0;
  int nE = h.choose("equalities", 3), nI = h.choose("inequalities", 3);
  int layout = shard % 3, form = shard / 3;
  if (!obj && !nE && !nI) return;
  if (nE + nI > 2 && (fk == 0 || fk == 3)) return;
  Built b;
  build(h, b, layout);
  std::vector<Fm> E_, I_;
  Fm F = formula(fk, b.vars[0], b.vars[1], b.vars[2]);
  if (obj == 1) {
    if (form) b.p.minimize(V(F.v));
    else b.p.minimize(F.v);
  }
  if (obj == 2) {
    if (form) b.p.maximize(V(F.v));
    else b.p.maximize(F.v);
  }
  for (int k = 0; k < nE; ++k) E_.push_back(formula(k ? 3 : 1, b.vars[0], b.vars[1], b.vars[2]));
  for (int k = 0; k < nI; ++k) I_.push_back(formula(k ? 5 : 2, b.vars[1], b.vars[2], b.vars[0]));
  for (auto& e : E_) {
    if (form) {
      slp::EqualityConstraints<S> c = e.v == S(0);
      b.p.subject_to(c);
    } else {
      b.p.subject_to(e.v == S(0));
    }
  }
  for (size_t k = 0; k < I_.size(); ++k) {
    if (k == 0) b.p.subject_to(I_[k].v >= S(0));
    else {
      slp::InequalityConstraints<S> c = I_[k].v <= S(0);
      b.p.subject_to(c);
    }
  }
  spy.reset();
  int st = h.choose("solver status", 2);
  ExitStatus ret = st ? ExitStatus::MAX_ITERATIONS_EXCEEDED : ExitStatus::SUCCESS;
  DV out = sym_x(h, "out");
  auto body = [&](const auto& m, CBs, const slp::Options&, DV& x) {
    h.eq("initial guess size", x.size(), 3);
    for (int i = 0; i < 3; ++i) h.check_eq("initial guess", x(i), b.x0[i]);
    DV xs = sym_x(h, "x");
    auto J = at(vec(xs));
    Jet f = obj == 0 ? Jet(S(0)) : obj == 1 ? F.j(J) : neg(F.j(J));
    std::vector<Jet> ce, ci;
    std::vector<Jet> rot{J[1], J[2], J[0]};
    for (auto& e : E_) ce.push_back(e.j(J));
    for (size_t k = 0; k < I_.size(); ++k) ci.push_back(k ? neg(I_[k].j(rot)) : I_[k].j(rot));
    verify(h, m, f, ce, ci, xs);
    // and again at a second point: nothing may be cached from the first
    if (st) {
      DV x2 = sym_x(h, "w");
      auto J2 = at(vec(x2));
      Jet f2 = obj == 0 ? Jet(S(0)) : obj == 1 ? F.j(J2) : neg(F.j(J2));
      std::vector<Jet> ce2, ci2, rot2{J2[1], J2[2], J2[0]};
      for (auto& e : E_) ce2.push_back(e.j(J2));
      for (size_t k = 0; k < I_.size(); ++k) ci2.push_back(k ? neg(I_[k].j(rot2)) : I_[k].j(rot2));
      verify(h, m, f2, ce2, ci2, x2);
    }
    x = out;
    return ret;
  };
  spy.newton = body;
  spy.sqp = body;
  spy.ip = body;
  ExitStatus s = b.p.solve();
  bool constant = (obj == 0 || F.type == ExpressionType::CONSTANT) && !nE && !nI;
  h.eq("solver invocations", spy.calls, constant ? 0 : 1);
  if (constant) {
    h.check("empty or constant problem succeeds", s == ExitStatus::SUCCESS);
    for (int i = 0; i < 3; ++i) h.check_eq("variables untouched", b.vars[i].value(), b.x0[i]);
    return;
  }
  h.eq("solver kind", spy.kind, nI ? 3 : nE ? 2 : 1);
  h.check("exit status is the solver's", s == ret);
  for (int i = 0; i < 3; ++i) h.check_eq("solution written back", b.vars[i].value(), out(i));
}
HARNESS_SHARDED(p01_formulation, 6, "3 decision variables in three layouts; no/min/max objective from 6 formulas (constant to nonlinear), 0-2 equality and 0-2 inequality constraints of mixed degree; all evaluation points, multipliers and solver results; two successive evaluation points") { formulation(h); }

// ------------------------------------------------------------- P02 dispatch
HARNESS_SHARDED(p02_dispatch_and_types, 6, "objective absent or one of 6 formulas, up to two equality and two inequality constraints each from 6 formulas (constant, linear, quadratic, nonlinear)") {
  Built b;
  build(h, b, 0);
  int fk = h.choose("cost formula", 7);
  int e1 = h.choose("shard", 6), e2 = h.choose("eq2", 4), i1 = h.choose("in1", 4), i2 = h.choose("in2", 3);
  static const int menu[] = {-1, 4, 0, 2};  // none, constant, linear, nonlinear
  static const int emenu[] = {-1, 4, 0, 1, 2, 3};
  auto T = [](int k) { return formula(k, V{}, V{}, V{}).type; };
  ExpressionType tf = ExpressionType::NONE, te = tf, ti = tf;
  if (fk < 6) {
    b.p.minimize(formula(fk, b.vars[0], b.vars[1], b.vars[2]).v);
    tf = T(fk);
  }
  int nE = 0, nI = 0;
  for (int k : {emenu[e1], menu[e2]})
    if (k >= 0) {
      b.p.subject_to(formula(k, b.vars[0], b.vars[1], b.vars[2]).v == S(0));
      te = std::max(te, T(k));
      ++nE;
    }
  for (int k : {menu[i1], menu[i2]})
    if (k >= 0) {
      b.p.subject_to(formula(k, b.vars[0], b.vars[1], b.vars[2]).v >= S(0));
      ti = std::max(ti, T(k));
      ++nI;
    }
  h.check("cost type", b.p.cost_function_type() == tf);
  h.check("equality type", b.p.equality_constraint_type() == te);
  h.check("inequality type", b.p.inequality_constraint_type() == ti);
  spy.reset();
  ExitStatus s = b.p.solve();
  bool trivial = tf <= ExpressionType::CONSTANT && te <= ExpressionType::CONSTANT && ti <= ExpressionType::CONSTANT;
  h.eq("solver invocations", spy.calls, trivial ? 0 : 1);
  if (!trivial) h.eq("solver kind", spy.kind, nI ? 3 : nE ? 2 : 1);
  h.check("success", s == ExitStatus::SUCCESS);
  for (int i = 0; i < 3; ++i) h.check_eq("variables keep their values", b.vars[i].value(), b.x0[i]);
}
// The class of a whole list is the highest of its members, wherever it stands.
HARNESS_SHARDED(p02_long_lists, 4, "no, constant or linear objective; up to five equality and five inequality constraints, one of each list of a chosen class at any position among constants, added one by one or as one matrix constraint, solved twice") {
  Built b;
  build(h, b, 0);
  static const int kind[] = {4, 0, 1, 2};  // constant, linear, quadratic, nonlinear
  auto F = [&](int k) { return formula(k, b.vars[0], b.vars[1], b.vars[2]); };
  int fk = h.choose("objective", 3);
  ExpressionType tf = ExpressionType::NONE;
  if (fk) {
    Fm f = F(fk == 1 ? 4 : 0);
    tf = f.type;
    b.p.minimize(f.v);
  }
  int ne = h.choose("equalities", 6), ni = h.choose("inequalities", 3) * 2 + 1, ek = kind[h.choose("shard", 4)], ik = kind[h.choose("class", 4)];
  if (ni == 1) ni = 0;
  int ep = ne ? h.choose("position e", ne) : 0, ip = ni ? h.choose("position i", ni) : 0, matrix = h.choose("matrix", 2);
  auto list = [&](int n, int k, int pos, bool eq) {
    ExpressionType t = ExpressionType::NONE;
    VM m(slp::detail::empty, n, 1);
    for (int i = 0; i < n; ++i) {
      Fm c = F(i == pos ? k : 4);
      t = std::max(t, c.type);
      m[i] = c.v;
      if (matrix) continue;
      if (eq) b.p.subject_to(c.v == S(0));
      else b.p.subject_to(c.v >= S(0));
    }
    if (matrix && n) {
      if (eq) b.p.subject_to(m == VM::zero(n, 1));
      else b.p.subject_to(m >= VM::zero(n, 1));
    }
    return t;
  };
  ExpressionType te = list(ne, ek, ep, true), ti = list(ni, ik, ip, false);
  h.check("cost type", b.p.cost_function_type() == tf);
  h.check("equality type", b.p.equality_constraint_type() == te);
  h.check("inequality type", b.p.inequality_constraint_type() == ti);
  bool trivial = tf <= ExpressionType::CONSTANT && te <= ExpressionType::CONSTANT && ti <= ExpressionType::CONSTANT;
  for (int round = 0; round < 2; ++round) {
    spy.reset();
    b.p.solve();
    h.eq("solver invocations", spy.calls, trivial ? 0 : 1);
    if (!trivial) h.eq("solver kind", spy.kind, ni ? 3 : ne ? 2 : 1);
  }
}
// Re-solving: the second solve starts from the current values and sees newly
// added constraints and a replaced objective.
HARNESS(p01_resolve, "two successive solves with a replaced objective and added constraints in between; all values") {
  Built b;
  build(h, b, 0);
  Fm F = formula(1, b.vars[0], b.vars[1], b.vars[2]), G = formula(2, b.vars[0], b.vars[1], b.vars[2]);
  Fm C = formula(1, b.vars[2], b.vars[0], b.vars[1]);
  b.p.minimize(F.v);
  spy.reset();
  spy.newton = [&](const NWC&, CBs, const slp::Options&, DV& x) {
    x(0) = S(4);
    x(1) = S(-1);
    x(2) = S(2);
    return ExitStatus::SUCCESS;
  };
  b.p.solve();
  h.eq("first solver", spy.kind, 1);
  int change = h.choose("change", 3);
  if (change == 0) b.p.minimize(G.v);
  else if (change == 1) b.p.maximize(F.v);
  bool withc = h.flip("add constraint");
  if (withc) b.p.subject_to(C.v == S(0));
  auto body = [&](const auto& m, CBs, const slp::Options&, DV& x) {
    h.check_eq("warm start", x(0), S(4));
    h.check_eq("warm start", x(1), S(-1));
    h.check_eq("warm start", x(2), S(2));
    DV xs = sym_x(h, "x");
    auto J = at(vec(xs));
    Jet f = change == 0 ? G.j(J) : change == 1 ? neg(F.j(J)) : F.j(J);
    std::vector<Jet> ce, rot{J[2], J[0], J[1]};
    if (withc) ce.push_back(C.j(rot));
    verify(h, m, f, ce, {}, xs);
    return ExitStatus::SUCCESS;
  };
  spy.newton = body;
  spy.sqp = body;
  b.p.solve();
  h.eq("second solver", spy.kind, withc ? 2 : 1);
}
// --------------------------------------------------------------- P03 callbacks
HARNESS_SHARDED(p03_callbacks, 3, "up to 4 callbacks added in any order (void, bool, persistent), optional clearing in between; every pattern of answers; each of the three solvers") {
  int solver = h.choose("shard", 3);
  Built b;
  build(h, b, 0);
  b.p.minimize(formula(1, b.vars[0], b.vars[1], b.vars[2]).v);
  if (solver == 1) b.p.subject_to(formula(1, b.vars[0], b.vars[1], b.vars[2]).v == S(0));
  if (solver == 2) b.p.subject_to(formula(1, b.vars[0], b.vars[1], b.vars[2]).v >= S(0));
  std::vector<int> log;
  std::vector<int> normal, persistent;
  std::map<int, bool> answer;
  int n = 1 + h.choose("count", 4);
  for (int k = 0; k < n; ++k) {
    int kind = h.choose("kind" + std::to_string(k), 4);
    if (kind == 0) {
      b.p.add_callback([&log, k](const Info&) { log.push_back(k); });
      normal.push_back(k);
      answer[k] = false;
    } else if (kind == 1) {
      bool a = h.flip("answer" + std::to_string(k));
      b.p.add_callback([&log, k, a](const Info&) -> bool { log.push_back(k); return a; });
      normal.push_back(k);
      answer[k] = a;
    } else if (kind == 2) {
      bool a = h.flip("answer" + std::to_string(k));
      b.p.add_persistent_callback([&log, k, a](const Info&) -> bool { log.push_back(k); return a; });
      persistent.push_back(k);
      answer[k] = a;
    } else {
      b.p.clear_callbacks();
      normal.clear();
    }
  }
  std::vector<int> order = normal;
  order.insert(order.end(), persistent.begin(), persistent.end());
  spy.reset();
  auto body = [&](const auto&, CBs cbs, const slp::Options&, DV&) {
    h.eq("number of callbacks", cbs.size(), order.size());
    DV v(3);
    v.setZero();
    SV g(3);
    SM A(3, 3);
    Info info{0, v, v, v, v, g, A, A, A};
    std::vector<bool> got;
    for (auto& c : cbs) got.push_back(c(info));
    for (size_t i = 0; i < std::min(order.size(), got.size()); ++i) h.check("callback answer", got[i] == answer[order[i]]);
    return ExitStatus::CALLBACK_REQUESTED_STOP;
  };
  spy.newton = body;
  spy.sqp = body;
  spy.ip = body;
  for (int round = 0; round < 2; ++round) {
    log.clear();
    ExitStatus s = b.p.solve();
    h.check("status", s == ExitStatus::CALLBACK_REQUESTED_STOP);
    h.check("callback order", log == order);
  }
}
// Options reach the solver unchanged.
HARNESS(p03_options, "arbitrary option values passed to each solver") {
  Built b;
  build(h, b, 0);
  int solver = h.choose("solver", 3);
  b.p.minimize(formula(1, b.vars[0], b.vars[1], b.vars[2]).v);
  if (solver == 1) b.p.subject_to(formula(1, b.vars[0], b.vars[1], b.vars[2]).v == S(0));
  if (solver == 2) b.p.subject_to(formula(1, b.vars[0], b.vars[1], b.vars[2]).v >= S(0));
  slp::Options o{.tolerance = 1e-3, .max_iterations = 17 + h.choose("iters", 3), .timeout = std::chrono::duration<double>{4.5}, .feasible_ipm = h.flip("feasible")};
  spy.reset();
  auto body = [&](const auto&, CBs, const slp::Options& q, DV&) {
    h.check("options", q.tolerance == o.tolerance && q.max_iterations == o.max_iterations && q.timeout == o.timeout && q.feasible_ipm == o.feasible_ipm && q.diagnostics == o.diagnostics);
    return ExitStatus::TIMEOUT;
  };
  spy.newton = body;
  spy.sqp = body;
  spy.ip = body;
  h.check("status", b.p.solve(o) == ExitStatus::TIMEOUT);
}
// ------------------------------------------------------------------ P04 bounds
// Constraint menu over x0 (and x1): each is c(x) >= 0 with a known normal form
// a*x0 + b >= 0 for bounds.
struct BC {
  bool bound;
  int var;
  S a, b;
};
static slp::InequalityConstraints<S> mk(H& h, int k, int q, std::vector<V>& x, BC& out) {
  S t = h.real("t" + std::to_string(q));
  V &v = x[k % 2];
  out = {true, k % 2, S(1), -t};
  switch (k / 2) {
    case 0: return v >= t;
    case 1: out.a = S(-1), out.b = t; return v <= t;
    case 2: out.a = S(-3), out.b = t + S(1); return S(2) * v + S(-1) <= t - v;
    case 3: out.a = S(-2), out.b = -t; return -(v + v) >= t;
    case 4: {
      S a = h.real("a" + std::to_string(q));
      h.assume_ne(a, S(0));
      out.a = a, out.b = t;
      return a * v + t >= S(0);
    }
    case 5: out.bound = false; return x[0] + x[1] >= t;
    default: out.bound = false; return v * v >= t;
  }
}
static void bounds_case(H& h, int n, int shards, bool full) {
  std::vector<V> xs(2);
  PB p;
  xs[0] = p.decision_variable();
  xs[1] = p.decision_variable();
  S v0 = h.real("v0"), v1 = h.real("v1");
  xs[0].set_value(v0);
  xs[1].set_value(v1);
  std::vector<BC> bc(n);
  gch::small_vector<V> cons;
  int sh = h.choose("shard", shards);
  if (shards < 14) sh *= 4;  // x>=t, 2x-1<=t-x, a*x+t>=0 on the first variable
  for (int k = 0; k < n; ++k) {
    int kind = k == 0 ? sh : full ? h.choose("kind" + std::to_string(k), 14) : h.choose("kind" + std::to_string(k), shards < 14 ? 2 : 5) * 2;
    auto c = mk(h, kind, k, xs, bc[k]);
    for (auto& e : c.constraints) cons.push_back(e);
    p.subject_to(c);
  }
  // reference: intersect the half lines
  std::vector<std::optional<S>> lo(2), hi(2);
  for (auto& c : bc)
    if (c.bound) {
      S t = -c.b / c.a;
      if (c.a > S(0)) lo[c.var] = lo[c.var] && !(*lo[c.var] < t) ? *lo[c.var] : t;
      else hi[c.var] = hi[c.var] && !(t < *hi[c.var]) ? *hi[c.var] : t;
    }
  bool feasible = true;
  for (int i = 0; i < 2; ++i)
    if (lo[i] && hi[i] && *lo[i] > *hi[i]) feasible = false;
  // direct query
  gch::small_vector<V> dv{xs[0], xs[1]};
  VM cm{std::span<const V>{cons.data(), cons.size()}}, xm{std::span<const V>{dv.data(), dv.size()}};
  slp::Jacobian<S> J{cm, xm};
  const auto [mask, bnds, conflicts] = slp::get_bounds<S>(dv, cons, J.value());
  for (int k = 0; k < n; ++k) h.check("bound constraints are recognised", (bool)mask[k] == bc[k].bound);
  for (int i = 0; i < 2; ++i) {
    bool fl = isfinite(bnds[i].first), fu = isfinite(bnds[i].second);
    h.check("lower bound present", fl == lo[i].has_value());
    h.check("upper bound present", fu == hi[i].has_value());
    if (fl && lo[i]) h.check_eq("tightest lower bound", bnds[i].first, *lo[i]);
    if (fu && hi[i]) h.check_eq("tightest upper bound", bnds[i].second, *hi[i]);
  }
  h.check("conflict reported exactly when the bounds exclude every value", conflicts.empty() == feasible);
  for (auto& [a, b] : conflicts) {
    h.check("conflicting pair are bound constraints", a >= 0 && b >= 0 && a < n && b < n && mask[a] && mask[b]);
    if (a < 0 || b < 0 || a >= n || b >= n) continue;
    h.check("conflicting pair bound the same variable from opposite sides", bc[a].var == bc[b].var && bc[a].a > S(0) && bc[b].a < S(0));
    h.check("conflicting pair really conflicts", -bc[a].b / bc[a].a > -bc[b].b / bc[b].a);
  }
  h.check_eq("variables keep their values", xs[0].value(), v0);
  h.check_eq("variables keep their values", xs[1].value(), v1);
  // and through the front end
  spy.reset();
  ExitStatus s = p.solve();
  h.eq("solver invoked unless globally infeasible", spy.calls, feasible ? 1 : 0);
  h.check("global infeasibility reported", (s == ExitStatus::GLOBALLY_INFEASIBLE) == !feasible);
  if (!feasible) {
    h.check_eq("variables keep their values", xs[0].value(), v0);
    h.check_eq("variables keep their values", xs[1].value(), v1);
  }
}
HARNESS_SHARDED(p04_bounds_two, 14, "two inequality constraints from {x>=t, x<=t, 2x-1<=t-x, -(x+x)>=t, a*x+t>=0, x0+x1>=t, x*x>=t} over either of two variables; all real t, a != 0 and variable values") { bounds_case(h, 2, 14, true); }
HARNESS_SHARDED(p04_bounds_three, 3, "three bounds on one variable: {x>=t, 2x-1<=t-x, a*x+t>=0} then two of {x>=t, x<=t}; all real coefficients and variable values") { bounds_case(h, 3, 3, false); }
HARNESS_THOROUGH(p04_bounds_three_full, 14, "three constraints: first from the full menu, the others any bounds on the first variable; all real coefficients and variable values") { bounds_case(h, 3, 14, false); }
HARNESS(p04_cancelled_linear_constraint, "a linear constraint whose variables cancel (x - x + t >= 0), alone or next to bounds; all real t") {
  PB p;
  V x = p.decision_variable();
  S t = h.real("t");
  x.set_value(h.real("v"));
  if (h.flip("first")) p.subject_to(x >= S(-1));
  p.subject_to(x - x + t >= S(0));
  spy.reset();
  ExitStatus s = p.solve();
  h.eq("solver invoked", spy.calls, 1);
  h.check("status", s == ExitStatus::SUCCESS);
}
HARNESS(p04_project, "projection onto bounds: any of the four finite/infinite combinations, all bounds lower <= upper and all points") {
  int k = h.choose("finite", 4);
  S x = h.real("x"), lo = h.real("lo"), hi = h.real("hi");
  S inf = std::numeric_limits<S>::infinity();
  bool fl = k & 1, fu = k & 2;
  if (fl && fu) h.assume_le(lo, hi);
  DV v(1);
  v(0) = x;
  std::vector<std::pair<S, S>> b{{fl ? lo : -inf, fu ? hi : inf}};
  slp::project_onto_bounds(v, std::span<const std::pair<S, S>>{b});
  S r = v(0);
  if (fl) h.check_le("not below the lower bound", lo, r);
  if (fu) h.check_le("not above the upper bound", r, hi);
  if (fl && (!fu || lo < hi)) h.check_lt("strictly inside (lower)", lo, r, 0);
  if (fu && (!fl || lo < hi)) h.check_lt("strictly inside (upper)", r, hi, 0);
  if (!fl && !fu) h.check_eq("unbounded variables stay", r, x);
  // points that are comfortably inside stay where they are
  auto mx = [](S a) { return a < S(0) ? (-a > S(1) ? -a : S(1)) : (a > S(1) ? a : S(1)); };
  bool deep = true;
  if (fl) deep = deep && x >= lo + S(0.01) * mx(lo);
  if (fu) deep = deep && x <= hi - S(0.01) * mx(hi);
  if (fl && fu) deep = deep && x >= lo + S(0.01) * (hi - lo) && x <= hi - S(0.01) * (hi - lo);
  if (deep) h.check_eq("interior points stay", r, x);
  // and no point moves further than to the nearest margin
  if (fl && x < lo) h.check_le("points below move to the lower margin", r, lo + S(0.01) * mx(lo));
  if (fu && x > hi) h.check_le("points above move to the upper margin", hi - S(0.01) * mx(hi), r);
}
