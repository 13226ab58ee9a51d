// D01: what Problem::solve() prints about the problem, the options and the exit.
#include "solver_spy.hpp"

#include "printed.hpp"

using slp::ExitStatus;
using PB = slp::Problem<S>;

// 0 constant, 1 linear, 2 quadratic, 3 nonlinear
static V term(int type, V x, V y, S a) {
  switch (type) {
    case 0: return V{S(7)};
    case 1: return a * x + y;
    case 2: return x * y + a;
    default: return slp::sin(x) + x * y;
  }
}
static const char* const TYPE[] = {"constant", "linear", "quadratic", "nonlinear"};
struct Shape {
  int nv, f;               // variables; objective: 0 none, 1 + type otherwise
  std::vector<int> e, i;   // constraint types
  int callbacks = 0;       // 1 plain, 2 persistent
};
struct Out {
  ExitStatus status;
  Lines text;
  std::vector<S> x, given;  // given: the start and the functions handed to the solver
  int kind, calls;
};
static Out run(H& h, const Shape& sh, ExitStatus answer, bool on, double tol, int limit, double timeout) {
  spy.reset();
  PB p;
  std::vector<V> v;
  for (int k = 0; k < sh.nv; ++k) {
    v.push_back(p.decision_variable());
    v[k].set_value(h.real("start" + std::to_string(k)));
  }
  V a = sh.nv ? v[0] : V{S(1)}, b = sh.nv ? v[sh.nv - 1] : V{S(1)};
  S c = h.real("c");
  h.assume_ne(c, S(0));
  h.assume_ne(c, S(-1));
  if (sh.f) p.minimize(term(sh.f - 1, a, b, c));
  for (int t : sh.e) p.subject_to(term(t, a, b, c) == S(0));
  for (int t : sh.i) p.subject_to(term(t, a, b, c) >= S(0));
  if (sh.callbacks == 1) p.add_callback([](const Info&) {});
  if (sh.callbacks == 2) p.add_persistent_callback([](const Info&) { return false; });
  Out r;
  auto note = [&](const auto& m) {
    Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> d(m);
    r.given.insert(r.given.end(), {S(static_cast<double>(d.rows())), S(static_cast<double>(d.cols()))});
    for (int k = 0; k < d.size(); ++k) r.given.push_back(d(k));
  };
  auto vec = [&](const std::string& n, int size) {
    DV q(size);
    for (int k = 0; k < size; ++k) q(k) = h.real(n + std::to_string(k));
    return q;
  };
  auto set = [&](DV& x, auto functions) {
    note(x);
    functions(vec("at", sh.nv));
    x = vec("solution", sh.nv);
    return answer;
  };
  spy.newton = [&](const NWC& m, CBs, const slp::Options&, DV& x) {
    return set(x, [&](const DV& q) {
      r.given.push_back(m.f(q)), note(m.g(q)), note(m.H(q));
    });
  };
  spy.sqp = [&](const SQC& m, CBs, const slp::Options&, DV& x) {
    return set(x, [&](const DV& q) {
      r.given.push_back(m.f(q)), note(m.g(q)), note(m.c_e(q)), note(m.A_e(q));
      note(m.H(q, vec("y", sh.e.size())));
    });
  };
  spy.ip = [&](const IPC& m, CBs, const slp::Options&, DV& x) {
    return set(x, [&](const DV& q) {
      r.given.push_back(m.f(q)), note(m.g(q)), note(m.c_e(q)), note(m.A_e(q)), note(m.c_i(q)), note(m.A_i(q));
      note(m.H(q, vec("y", sh.e.size()), vec("z", sh.i.size())));
    });
  };
  slp::Options o;
  o.tolerance = tol;
  o.max_iterations = limit;
  o.timeout = std::chrono::duration<double>(timeout);
  o.diagnostics = on;
  {
    Printed pr;
    r.status = p.solve(o);
    r.text = pr.stop();
  }
  for (auto& q : v) r.x.push_back(q.value());
  r.kind = spy.kind, r.calls = spy.calls;
  return r;
}
static std::string plural(int n, const std::string& what) { return std::to_string(n) + " " + what + (n == 1 ? "" : "s"); }
static void summary(H& h, const Shape& sh, ExitStatus answer, double tol = 1e-8, int limit = 5000, double timeout = INFINITY) {
  Out off = run(h, sh, answer, false, tol, limit, timeout), on = run(h, sh, answer, true, tol, limit, timeout);
  h.check("nothing is printed unless asked for", off.text.empty());
  h.eq("diagnostics do not change the status", static_cast<int>(on.status), static_cast<int>(off.status));
  h.eq("diagnostics do not change the solver", on.kind * 10 + on.calls, off.kind * 10 + off.calls);
  h.eq("diagnostics do not change what is solved: sizes", static_cast<int>(on.given.size()), static_cast<int>(off.given.size()));
  for (size_t k = 0; k < on.given.size() && k < off.given.size(); ++k) h.check_eq("diagnostics do not change what is solved", on.given[k], off.given[k]);
  for (int k = 0; k < sh.nv; ++k) h.check_eq("diagnostics do not change the solution", on.x[k], off.x[k]);
  const Lines& t = on.text;
  size_t at = 0;
  // The lines that must come next, in this order, blank lines aside.
  auto next = [&](const std::string& want) {
    while (at < t.size() && t[at].empty()) ++at;
    h.check("printed line: " + want, at < t.size() && t[at] == want, at < t.size() ? t[at] : "(end)");
    ++at;
  };
  next("User-configured exit conditions:");
  next(std::format("  ↳ error below {}", tol));
  if (sh.callbacks) next("  ↳ iteration callback requested stop");
  next("  ↳ executed " + std::to_string(limit) + " iterations");
  if (std::isfinite(timeout)) next(std::format("  ↳ {}s elapsed", timeout));
  next("Problem structure:");
  auto top = [](const std::vector<int>& v) { return v.empty() ? std::string("no") : std::string(TYPE[*std::ranges::max_element(v)]); };
  next("  ↳ " + (sh.f ? std::string(TYPE[sh.f - 1]) : "no") + " cost function");
  next("  ↳ " + top(sh.e) + " equality constraints");
  next("  ↳ " + top(sh.i) + " inequality constraints");
  next(plural(sh.nv, "decision variable"));
  auto kinds = [&](const std::vector<int>& v) {
    for (int k = 0; k < 4; ++k)
      if (int c = std::ranges::count(v, k)) next("  ↳ " + std::to_string(c) + " " + TYPE[k]);
  };
  next(plural(sh.e.size(), "equality constraint"));
  kinds(sh.e);
  next(plural(sh.i.size(), "inequality constraint"));
  kinds(sh.i);
  static const char* names[] = {"no-op", "Newton", "SQP", "IPM"};
  next(std::string("Invoking ") + names[on.kind] + " solver");
  h.eq("one solver is named", count_with(t, "Invoking"), 1);
  if (on.kind == 0) return h.reach("no solver");
  static const std::map<ExitStatus, std::string> reasons{
      {ExitStatus::SUCCESS, "success"},
      {ExitStatus::CALLBACK_REQUESTED_STOP, "callback requested stop"},
      {ExitStatus::TOO_FEW_DOFS, "too few degrees of freedom"},
      {ExitStatus::LOCALLY_INFEASIBLE, "locally infeasible"},
      {ExitStatus::GLOBALLY_INFEASIBLE, "globally infeasible"},
      {ExitStatus::FACTORIZATION_FAILED, "factorization failed"},
      {ExitStatus::LINE_SEARCH_FAILED, "line search failed"},
      {ExitStatus::FEASIBILITY_RESTORATION_FAILED, "feasibility restoration failed"},
      {ExitStatus::NONFINITE_INITIAL_GUESS, "nonfinite initial guess"},
      {ExitStatus::DIVERGING_ITERATES, "diverging iterates"},
      {ExitStatus::MAX_ITERATIONS_EXCEEDED, "max iterations exceeded"},
      {ExitStatus::TIMEOUT, "timeout"}};
  h.eq("the setup is traced once", count_with(t, "time trace"), 1);
  h.eq("one exit reason is printed", count_with(t, "Exit: "), 1);
  h.check("the exit reason is the status returned", !t.empty() && t.back() == "Exit: " + reasons.at(on.status), t.empty() ? "" : t.back());
  h.check("the status returned is the solver's", on.status == answer);
  h.reach("solver " + std::to_string(on.kind));
}
HARNESS_SHARDED(d01_summary, 5, "no, constant, linear, quadratic or nonlinear objective; up to two equality and two inequality constraints of any of those types; 2 variables; all coefficients") {
  Shape s{2, h.choose("shard", 5), {}, {}};
  int ne = h.choose("equalities", 3), ni = h.choose("inequalities", 3);
  for (int k = 0; k < ne; ++k) s.e.push_back(1 + h.choose("equality type " + std::to_string(k), 3));
  for (int k = 0; k < ni; ++k) s.i.push_back(1 + h.choose("inequality type " + std::to_string(k), 3));
  summary(h, s, ExitStatus::SUCCESS);
}
HARNESS(d01_sizes, "0 to 3 variables, up to three constraints of one type, with or without callbacks; tolerances, iteration limits and timeouts from a menu") {
  Shape s{h.choose("variables", 4), 0, {}, {}};
  s.f = s.nv ? 3 : 1;
  if (s.nv) {
    s.e.assign(h.choose("equalities", 4), 1);
    s.i.assign(h.choose("inequalities", 4), 3);
  }
  s.callbacks = h.choose("callbacks", 3);
  int o = h.choose("options", 3);
  summary(h, s, ExitStatus::TIMEOUT, o ? 0.25 : 1e-8, o == 2 ? 17 : 5000, o ? 2.5 : INFINITY);
}
HARNESS(d01_exit, "every exit status from each of the three solvers") {
  static const ExitStatus all[] = {ExitStatus::SUCCESS, ExitStatus::CALLBACK_REQUESTED_STOP, ExitStatus::TOO_FEW_DOFS, ExitStatus::LOCALLY_INFEASIBLE,
                                   ExitStatus::GLOBALLY_INFEASIBLE, ExitStatus::FACTORIZATION_FAILED, ExitStatus::LINE_SEARCH_FAILED,
                                   ExitStatus::FEASIBILITY_RESTORATION_FAILED, ExitStatus::NONFINITE_INITIAL_GUESS, ExitStatus::DIVERGING_ITERATES,
                                   ExitStatus::MAX_ITERATIONS_EXCEEDED, ExitStatus::TIMEOUT};
  ExitStatus st = all[h.choose("status", 12)];
  int k = h.choose("solver", 3);
  Shape s{2, 3, {}, {}};
  if (k >= 1) s.e = {1};
  if (k == 2) s.i = {2};
  summary(h, s, st);
}
HARNESS(d01_conflict, "two bounds on a variable in either order, next to another constraint or not; all bounds: the conflicting pair is named exactly when they exclude every value") {
  spy.reset();
  PB p;
  V x = p.decision_variable(), y = p.decision_variable();
  S a = h.real("a"), b = h.real("b");
  bool swapped = h.flip("upper first"), other = h.flip("other first");
  p.minimize(x * y);
  if (other) p.subject_to(x * y >= S(1));
  if (swapped) p.subject_to(y <= b);
  p.subject_to(y >= a);
  if (!swapped) p.subject_to(y <= b);
  slp::Options o;
  o.diagnostics = true;
  Lines t;
  ExitStatus st;
  {
    Printed pr;
    st = p.solve(o);
    t = pr.stop();
  }
  bool conflict = b < a;
  h.check("conflicting bounds are reported", (st == ExitStatus::GLOBALLY_INFEASIBLE) == conflict);
  h.eq("and explained", count_with(t, "globally infeasible"), conflict);
  int lo = other + swapped, up = other + !swapped;
  h.eq("the conflicting pair is named", count_line(t, std::format("  Inequality constraint {} gives a lower bound that is greater than the upper bound given by inequality constraint {}", lo, up)), conflict);
  h.reach(conflict ? "conflict" : "no conflict");
}
