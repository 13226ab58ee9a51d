// D01: what the solvers print, and that printing changes nothing else.
#include "solver.cpp"

#include "printed.hpp"

struct Row {
  int iter;
  std::string type;
  S error, cost, infeas, complem, mu, p_pr, p_du, a_pr, a_du;
  std::string delta, gamma;
  S back;
};
static std::vector<S> asked_ints;  // terms whose integer part was asked for
static void symbolic_ints() {
  asked_ints.clear();
#ifndef SYMX_REPLAY
  symx::int_hook = [](const S& t) {
    asked_ints.push_back(t);
    return 1000 + static_cast<int>(asked_ints.size()) - 1;
  };
#endif
}
static std::vector<Row> rows(H& h, const Lines& t) {
  std::vector<Row> r;
  for (auto& l : t) {
    if (!l.starts_with("│") || l.find("▏") != std::string::npos) continue;
    auto w = words(l, "│");
    Row q;
    size_t k = 1;
    h.check("a row has every column", w.size() == 14 || w.size() == 15, l);
    if (w.size() != 14 && w.size() != 15) continue;
    q.iter = std::atoi(w[0].c_str());
    if (w.size() == 15) q.type = w[k++];
    ++k;  // duration
    q.error = token(h, w[k++]), q.cost = token(h, w[k++]), q.infeas = token(h, w[k++]), q.complem = token(h, w[k++]);
    q.mu = token(h, w[k++]);
    q.delta = w[k++], q.gamma = w[k++];
    q.p_pr = token(h, w[k++]), q.p_du = token(h, w[k++]), q.a_pr = token(h, w[k++]), q.a_du = token(h, w[k++]);
    int b = std::atoi(w[k].c_str());
    q.back = b >= 1000 ? asked_ints.at(b - 1000) : S(b);
    r.push_back(q);
  }
  return r;
}
static S one_norm(const DV& v) {
  S r(0);
  for (int i = 0; i < v.size(); ++i) r = r + sabs(v(i));
  return r;
}
// What a run of a solver shows to the outside.
struct Seen {
  St status;
  DV x;
  std::vector<DV> pts;
  std::vector<Snap> snaps;
  std::vector<int> restored;
  int calls = 0, computes = 0, solves = 0, iterations = 0;
  bool eq = false, ineq = false;
  Lines text;
};
static bool same_v(const DV& a, const DV& b) {
  if (a.size() != b.size()) return false;
  for (int i = 0; i < a.size(); ++i)
    if (!same_term(a(i), b(i))) return false;
  return true;
}
struct Setup {
  Kind kind;
  int n, me, mi, pts, iters, extra;
  bool scaled = false, nested = false;
  int max_free = 1 << 30;
};
static Seen observe(H& h, const Setup& c, bool on) {
  Run r{h, c.kind, c.n, c.me, c.mi, c.pts};
  fspec.max_free = c.max_free;
  r.opt.diagnostics = on;
  r.opt.max_iterations = c.iters;
  r.opt.tolerance = 1;
  r.opt.timeout = std::chrono::duration<double>(5.0);
  r.scaled = c.scaled;
  r.nested = c.nested;
  auto has = [&](int x) { return c.extra == x; };
  if (c.kind == IP && c.max_free < 100) full_steps_only(r, true);
  if (!has(X_DIVERGE))
    for (int i = 0; i < c.n; ++i) r.x(i) = S(0.5 - i);
  if (has(X_LINEAR)) lin.may_fail = true;
  if (has(X_INFEASIBLE)) ispec.may = true;
  if (has(X_NONFINITE)) r.m.nonfinite = c.kind == NEWTON ? 0x41 : c.kind == SQP ? 0x43 : 0x45;
  Seen s;
  r.on_iter = [&](Run&, const Info&) {
    std::string k = std::to_string(++s.calls);
    if (has(X_CLOCK) && pick(h, "clock jumps " + k, 2)) fake_now += std::chrono::seconds(10);
    return has(X_CALLBACKS) && pick(h, "stop " + k, 2) == 1;
  };
  r.on_restore = [&](Run&, const Info& i) {
    s.restored.push_back(i.iteration);
    return has(X_CALLBACKS) && pick(h, "stop restoring", 2) == 1;
  };
  {
    Printed p;
    r.go();
    s.text = p.stop();
  }
  s.status = r.status, s.x = r.x, s.pts = r.m.pts, s.snaps = r.snaps;
  s.computes = lin.computes, s.solves = lin.solves, s.iterations = r.iterations;
  s.eq = ispec.eq, s.ineq = ispec.ineq;
  return s;
}
static void same(H& h, const Setup& c) {
  std::map<std::string, int> memo;
  repeat = &memo;
  symbolic_ints();
  Seen a = observe(h, c, false), b = observe(h, c, true);
  repeat = nullptr;
  h.check("nothing is printed unless asked for", a.text.empty());
  h.eq("diagnostics do not change the status", static_cast<int>(b.status), static_cast<int>(a.status));
  h.check("diagnostics do not change the returned point", same_v(a.x, b.x));
  h.eq("diagnostics do not change the iterations", b.snaps.size(), a.snaps.size());
  for (size_t i = 0; i < a.snaps.size() && i < b.snaps.size(); ++i) {
    const Snap &p = a.snaps[i], &q = b.snaps[i];
    h.check("diagnostics do not change the iterates shown",
            p.iteration == q.iteration && same_v(p.x, q.x) && same_v(p.s, q.s) && same_v(p.y, q.y) && same_v(p.z, q.z));
  }
  h.check("diagnostics do not change restoration", a.restored == b.restored);
  h.eq("diagnostics do not change the systems solved", b.solves * 100 + b.computes, a.solves * 100 + a.computes);
  bool pe = true;
  for (size_t i = 0; i < a.pts.size(); ++i) pe = pe && i < b.pts.size() && same_v(a.pts[i], b.pts[i]);
  h.check("diagnostics do not change the points visited", pe && a.pts.size() == b.pts.size());
  const Lines& t = b.text;
  h.eq("equality infeasibility is explained exactly when found", count_with(t, "violated equality"), b.eq);
  h.eq("inequality infeasibility is explained exactly when found", count_with(t, "violated inequality"), b.ineq);
  h.eq("too few degrees of freedom are explained exactly when found", count_with(t, "too few degrees of freedom"),
       b.status == St::TOO_FEW_DOFS);
  int nrows = static_cast<int>(rows(h, t).size());
  bool started = b.status != St::TOO_FEW_DOFS && b.status != St::NONFINITE_INITIAL_GUESS;
  std::string bottom = "└", top = "┏";
  for (int i = 0; i < 119; ++i) bottom += "─", top += "━";
  h.check("the table of iterations is opened", (count_line(t, top + "┓") > 0) == (nrows > 0));
  if (!rest.calls) h.eq("the table of iterations is closed unless restoring", count_line(t, bottom + "┘"), nrows > 0 && !c.nested);
  h.eq("a time trace follows unless restoring", count_with(t, "time trace"), started && !c.nested);
  h.reach("status " + std::to_string(static_cast<int>(b.status)));
}
HARNESS_SHARDED(d01_same, 21, "Newton's method (1 variable), SQP (1,1) and the interior-point method (1,0,1), each solved with diagnostics off and then on over the same problem answers: up to 2 (interior point 1) iterations and 3 (2) distinct points; one complication at a time: clock jumps past the timeout, callbacks asking to stop, failing factorization, local infeasibility, non-finite answers, diverging iterates, or none; tolerance 1") {
  int sh = h.choose("shard", 21);
  Kind k = static_cast<Kind>(sh / 7);
  same(h, {k, 1, k == SQP, k == IP, k == IP ? 2 : 3, k == IP ? 1 : 2, sh % 7});
}
HARNESS_SHARDED(d01_same_stuck, 5, "as d01_same, one iteration whose every trial is rejected: the step is taken anyway, the line search fails, or restoration shows one iterate (and may be asked to stop); in and outside feasibility restoration") {
  int sh = h.choose("shard", 5);
  Kind k = sh == 0 ? NEWTON : sh % 2 ? SQP : IP;
  same(h, {k, 1, k == SQP, k == IP, 100, 1, sh > 2 ? X_CALLBACKS : X_NONE, sh == 2, false, 0});
}
HARNESS_SHARDED(d01_same_odd, 3, "as d01_same: 2 equalities in 1 variable (SQP and interior point), the interior-point method when itself used for feasibility restoration") {
  int sh = h.choose("shard", 3);
  Setup c{sh ? IP : SQP, 1, 2, sh == 1, 2, 1, X_NONE};
  if (sh == 2) c.me = 0, c.mi = 1, c.nested = true;
  same(h, c);
}

// How often a full step of one was halved to get this far.
static S halvings(const S& a) {
#ifdef SYMX_REPLAY
  return S(std::round(std::log(a.v) / std::log(0.5)));
#else
  return same_term(a, S(1)) ? S(0) : log(a) / log(S(0.5));
#endif
}
// Every row against the iterate it describes.
static void table(H& h, const Setup& c, bool known = false, bool unclipped = true, double tol = 1) {
  Run r{h, c.kind, c.n, c.me, c.mi, c.pts};
  Model& m = r.m;
  symbolic_ints();
  if (known) m.known_start();
  fspec.max_free = c.max_free;
  lin.delta = S(1e-4), lin.gamma = S(1e-10);
  r.opt.diagnostics = true;
  r.opt.max_iterations = c.iters;
  r.opt.tolerance = tol;
  r.scaled = c.scaled;
  r.nested = c.nested;
  for (int i = 0; i < c.n; ++i) r.x(i) = S(0.5 - i);
  if (known && unclipped && c.kind == IP) r.s = DV::Constant(c.mi, S(2)), r.z = DV::Constant(c.mi, S(0.5));
  struct Solved {
    int at;  // accepted points so far
    DV p;
  };
  std::vector<Solved> solved;
  std::function<void(const DV&)> inner;
  if (c.kind == IP && unclipped) {
    full_steps_only(r, c.max_free < 100);
    inner = lin.after;
  }
  if (c.kind == IP && !unclipped) inner = [&](const DV&) { h.assume(lin.solves == 1); };
  std::map<std::string, int> answers;
  repeat = &answers;
  lin.after = [&](const DV& p) {
    solved.push_back({static_cast<int>(m.hcalls.size()) - 1, p});
    if (inner) inner(p);
  };
  Lines t;
  {
    Printed p;
    r.go();
    t = p.stop();
  }
  repeat = nullptr;
  auto rs = rows(h, t);
  std::vector<Row> steps;
  std::vector<std::vector<Row>> corr(m.hcalls.size());
  for (auto& q : rs) {
    if (q.type == "s") {
      if (steps.size() < corr.size()) corr[steps.size()].push_back(q);
      h.eq("a corrected step belongs to the iteration under way", q.iter, steps.size());
    } else {
      h.check("the kind of iteration", q.type == (c.nested ? "r" : ""), q.type);
      steps.push_back(q);
    }
  }
  int taken = m.hcalls.empty() ? 0 : static_cast<int>(m.hcalls.size()) - 1;
  h.eq("one row per step taken", steps.size(), taken);
  if (static_cast<int>(steps.size()) != taken) return;
  if (rest.calls) h.reach("restored");
  auto snap = [&](int i) -> const Snap* {
    for (auto& s : r.snaps)
      if (s.hcall == i) return &s;
    return nullptr;
  };
  for (int i = 0; i < taken; ++i) {
    const Row& q = steps[i];
    const auto& hc = m.hcalls[i + 1];
    const Snap *sn = snap(i + 1), *from = snap(i);
    DV x = m.pts[hc.k], y = hc.y, z = hc.z, s = sn ? sn->s : r.s;
    S mu = sn ? sn->mu : r.mu;
    h.eq("iterations are numbered in order", q.iter, i);
    h.check_eq("cost at the iterate", q.cost, m.f(x));
    DV ce = m.ce(x), ci = m.ci(x);
    S viol = c.kind == NEWTON ? S(0) : one_norm(ce);
    S err, comp(0);
    SV g = Model::spv(m.g(x));
    constexpr auto T = slp::KKTErrorType::INF_NORM_SCALED;
    if (c.kind == NEWTON) {
      err = slp::unscaled_kkt_error<S, T>(r.scaling(), g);
    } else if (c.kind == SQP) {
      err = slp::unscaled_kkt_error<S, T>(r.scaling(), g, Model::sp(m.Ae(x)), ce, y);
    } else {
      err = slp::unscaled_kkt_error<S, T>(r.scaling(), g, Model::sp(m.Ae(x)), ce, Model::sp(m.Ai(x)), ci, s, y, z, S(0));
      viol = viol + one_norm(ci - s);
      for (int k = 0; k < c.mi; ++k) comp = comp + s(k) * z(k);
    }
    h.check_eq("error at the iterate", q.error, err);
    h.check_eq("infeasibility at the iterate", q.infeas, viol);
    h.check_eq("complementarity at the iterate", q.complem, comp);
    h.check_eq("barrier parameter", q.mu, c.kind == IP ? mu : S(0));
    h.check("Hessian regularization", q.delta == "10⁻⁴", q.delta);
    h.check("constraint Jacobian regularization", q.gamma == "10⁻¹⁰", q.gamma);
    // The step of this iteration.
    std::vector<DV> ps;
    for (auto& v : solved)
      if (v.at == i) ps.push_back(v.p);
    h.check("a system was solved for the step", !ps.empty());
    if (ps.empty() || !from) continue;
    bool corrected = !corr[i].empty();
    const DV& p = corrected ? ps.back() : ps.front();
    DV px = p.segment(0, c.n);
    S pr = inf_norm(px), du(0);
    for (int k = 0; k < c.me; ++k) du = std::max(du, sabs(p(c.n + k)));
    if (c.kind == IP && !corrected) {
      DV ci0 = m.ci(from->x);
      DM Ai0 = m.Ai(from->x);
      for (int k = 0; k < c.mi; ++k) {
        S a = ci0(k) - from->s(k);
        for (int j = 0; j < c.n; ++j) a = a + Ai0(k, j) * px(j);
        S b = from->mu / from->s(k) - from->z(k) - from->z(k) / from->s(k) * a;
        pr = std::max(pr, sabs(a));
        du = std::max(du, sabs(b));
      }
    }
    if (c.kind != IP || !corrected) {
      h.check_eq("norm of the full primal step", q.p_pr, pr);
      if (c.kind != NEWTON) h.check_eq("norm of the full dual step", q.p_du, du);
    }
    if (c.max_free < 100 || (!unclipped && !answers["filter accepts 0"])) continue;  // a step taken after the search gave up is shown with the last length tried
    for (int k = 0; k < c.n; ++k) h.check_eq("primal step size", x(k), from->x(k) + q.a_pr * px(k));
    for (int k = 0; k < c.me; ++k) h.check_eq("dual step size", y(k), from->y(k) - q.a_du * p(c.n + k));
    if (unclipped && !corrected)
      h.check_eq("number of backtracks", q.back, halvings(q.a_pr));
    if (corrected) {
      const Row& w = corr[i].back();
      h.eq("one row per accepted correction", corr[i].size(), 1);
      h.check_eq("cost at the corrected point", w.cost, m.f(x));
      h.check_eq("infeasibility at the corrected point", w.infeas, viol);
      if (c.kind == SQP) h.check_eq("complementarity at the corrected point", w.complem, comp);
      h.check_eq("step size of the correction", w.a_pr, q.a_pr);
      h.check_eq("norm of the corrected primal step", w.p_pr, q.p_pr);
      h.check_eq("norm of the corrected dual step", w.p_du, q.p_du);
      h.reach("corrected step");
    }
    h.reach(same_term(q.a_pr, S(1)) ? "full step" : "shortened step");
  }
}
HARNESS_SHARDED(d01_rows_newton, 2, "Newton's method, 1 or 2 variables, up to 2 iterations (1 for 2 variables) and 3 distinct points, scaled or not: every column but the duration of every row; tolerance 1") {
  int sh = h.choose("shard", 2);
  table(h, {NEWTON, 1 + sh, 0, 0, 3, sh ? 1 : 2, X_NONE, sh == 1});
}
HARNESS_SHARDED(d01_rows_sqp, 3, "as d01_rows_newton, SQP with (variables, equalities) in {(1,1), (2,1), (2,2)}, also second-order corrections; the step-size columns not of steps taken after the search gave up") {
  int sh = h.choose("shard", 3);
  table(h, {SQP, sh ? 2 : 1, sh == 2 ? 2 : 1, 0, sh == 2 ? 2 : 3, sh ? 1 : 2, X_NONE, sh == 1}, sh > 0);
}
HARNESS_SHARDED(d01_rows_ip, 4, "as d01_rows_newton, interior point (1,0,1) or (2,1,1), one iteration and 2 or 3 distinct points from a given start, steps clear of the boundary; also as used within feasibility restoration") {
  int sh = h.choose("shard", 4);
  Setup c{IP, sh % 2 ? 2 : 1, sh % 2, 1, sh % 2 ? 2 : 3, 1, X_NONE, sh == 1};
  c.nested = sh >= 2;
  table(h, c, true);
}
HARNESS_SHARDED(d01_rows_blocked, 3, "as d01_rows_ip with (1,0,1), (2,1,1) or (1,1,2): any first step, which the slacks or multipliers may block, without corrections") {
  int sh = h.choose("shard", 3);
  table(h, {IP, sh == 1 ? 2 : 1, sh > 0, sh == 2 ? 2 : 1, 2, 1, X_NONE}, true, false);
}
HARNESS(d01_rows_barrier, "as d01_rows_ip, (1,0,1) with tolerance 0.05, so that the barrier parameter may change") {
  table(h, {IP, 1, 0, 1, 2, 1, X_NONE}, true, true, 0.05);
}
HARNESS_SHARDED(d01_rows_anyway, 3, "as the above, one iteration whose every trial is rejected, the step taken anyway; without the step-size columns") {
  int sh = h.choose("shard", 3);
  Kind k = static_cast<Kind>(sh);
  table(h, {k, 1, k == SQP, k == IP, 100, 1, X_NONE, false, false, 0});
}
static void listing(H& h, const char* what, void (*print)(const DV&), bool equality) {
  int n = 1 + h.choose(std::string(what) + " rows", 3);
  DV c = reals(h, "c", n);
  std::vector<bool> bad;
  for (int i = 0; i < n; ++i) bad.push_back(equality ? !(c(i) == S(0)) : c(i) < S(0));
  Lines t;
  {
    Printed p;
    print(c);
    t = p.stop();
  }
  size_t k = 0;
  for (; k < t.size() && t[k].find("order of declaration") == std::string::npos; ++k) {}
  h.check("the listing is introduced", k < t.size());
  ++k;
  for (int i = 0; i < n; ++i) {
    if (!bad[i]) continue;
    h.check("every violated constraint is listed", k < t.size());
    if (k >= t.size()) return;
    std::string pre = "  " + std::to_string(i + 1) + "/" + std::to_string(n) + ": ", post = equality ? " = 0" : " ≥ 0";
    bool ok = t[k].starts_with(pre) && t[k].ends_with(post) && t[k].size() > pre.size() + post.size();
    h.check("the violated constraints are listed in order", ok, t[k]);
    if (ok) h.check_eq("the value of a violated constraint", token(h, t[k].substr(pre.size(), t[k].size() - pre.size() - post.size())), c(i));
    ++k;
    h.reach("listed");
  }
  h.eq("only violated constraints are listed", t.size(), k);
}
HARNESS_SHARDED(d01_listing, 3, "the three listings of violated constraints (too few degrees of freedom, equality and inequality infeasibility), 1 to 3 constraints, all values") {
  switch (h.choose("shard", 3)) {
    case 0: return listing(h, "dofs", [](const DV& c) { slp::print_too_few_dofs_error(c); }, true);
    case 1: return listing(h, "equality", [](const DV& c) { slp::print_c_e_local_infeasibility_error(c); }, true);
    default: return listing(h, "inequality", [](const DV& c) { slp::print_c_i_local_infeasibility_error(c); }, false);
  }
}
HARNESS(d01_power, "rendering of a positive number as a power of ten with exponents from -25 to 25 (rounded towards zero, as the conversion to int does)") {
  S v = h.real("v");
  h.assume_lt(S(0), v);
  int e = h.choose("exponent", 51) - 25;
  auto ten = [](int k) { return S(std::pow(10.0, k)); };
  // trunc(log10(v)) == e
  if (e > 0) h.assume_le(ten(e), v), h.assume_lt(v, ten(e + 1));
  else if (e < 0) h.assume_lt(ten(e - 1), v), h.assume_le(v, ten(e));
  else h.assume_lt(S(0.1), v), h.assume_lt(v, S(10));
#ifndef SYMX_REPLAY
  symx::int_hook = [&](const S& t) {
    h.check("the decimal exponent is asked for", same_term(t, log10(v)));
    return e;
  };
#endif
  static const char* sup[] = {"⁰", "¹", "²", "³", "⁴", "⁵", "⁶", "⁷", "⁸", "⁹"};
  std::string want = e == 0 ? " 1" : e == 1 ? "10" : "10";
  if (e != 0 && e != 1) {
    if (e < 0) want += "⁻";
    for (char c : std::to_string(std::abs(e))) want += sup[c - '0'];
  }
  std::string got = slp::power_of_10<S>(v);
  h.check("rendered power of ten", got == want, got);
  h.check("zero", slp::power_of_10<S>(S(0)) == " 0");
}
