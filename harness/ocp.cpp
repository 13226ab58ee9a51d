// Optimal control front end: every transcription against an independent
// statement of its integration rule.
#include "solver_spy.hpp"

#include <sleipnir/optimization/ocp.hpp>

using slp::DynamicsType;
using slp::ExitStatus;
using slp::TimestepMethod;
using slp::TranscriptionMethod;
using OC = slp::OCP<S>;
using Vec = std::vector<S>;
using Dur = std::chrono::duration<S>;

// Dynamics menu: as expressions and as numbers.
struct Dyn {
  int nx, nu;
  std::function<VM(const V&, const VM&, const VM&, const V&)> f;
  std::function<Vec(S, const Vec&, const Vec&, S)> r;
};
static Dyn dynamics(int k) {
  using std::sin;
  if (k == 0)  // linear, time varying, step dependent
    return {2, 1,
            [](const V& t, const VM& x, const VM& u, const V& dt) {
              VM o(2, 1);
              o[0] = x[1] + S(3) * t * u[0];
              o[1] = S(-2) * x[0] + S(5) * u[0] - S(7) * dt;
              return o;
            },
            [](S t, const Vec& x, const Vec& u, S dt) { return Vec{x[1] + S(3) * t * u[0], S(-2) * x[0] + S(5) * u[0] - S(7) * dt}; }};
  if (k == 1)  // an arbitrary function of everything
    return {1, 2,
            [](const V& t, const VM& x, const VM& u, const V& dt) {
              VM o(1, 1);
              o[0] = slp::sin(x[0] + S(3) * t + S(5) * u[0] + S(7) * u[1] + S(11) * dt);
              return o;
            },
            [](S t, const Vec& x, const Vec& u, S dt) { return Vec{sin(x[0] + S(3) * t + S(5) * u[0] + S(7) * u[1] + S(11) * dt)}; }};
  if (k == 3)  // linear in everything, so that four steps stay cheap
    return {1, 1,
            [](const V& t, const VM& x, const VM& u, const V& dt) {
              VM o(1, 1);
              o[0] = S(2) * x[0] + S(3) * t + S(5) * u[0] + S(7) * dt;
              return o;
            },
            [](S t, const Vec& x, const Vec& u, S dt) { return Vec{S(2) * x[0] + S(3) * t + S(5) * u[0] + S(7) * dt}; }};
  // autonomous
  return {2, 1,
          [](const V&, const VM& x, const VM& u, const V&) {
            VM o(2, 1);
            o[0] = x[1] * u[0];
            o[1] = x[0] - u[0];
            return o;
          },
          [](S, const Vec& x, const Vec& u, S) { return Vec{x[1] * u[0], x[0] - u[0]}; }};
}
static Vec axpy(const Vec& x, S a, const Vec& y) {
  Vec r;
  for (size_t i = 0; i < x.size(); ++i) r.push_back(x[i] + a * y[i]);
  return r;
}
static Vec rk4_ref(const Dyn& d, S t, const Vec& x, const Vec& u, S h) {
  Vec a = d.r(t, x, u, h);
  Vec b = d.r(t + h / S(2), axpy(x, h / S(2), a), u, h);
  Vec c = d.r(t + h / S(2), axpy(x, h / S(2), b), u, h);
  Vec e = d.r(t + h, axpy(x, h, c), u, h);
  Vec r;
  for (size_t i = 0; i < x.size(); ++i) r.push_back(x[i] + h / S(6) * (a[i] + S(2) * b[i] + S(2) * c[i] + e[i]));
  return r;
}
static Vec colloc_ref(const Dyn& d, S t, const Vec& x0, const Vec& u0, const Vec& x1, const Vec& u1, S h) {
  Vec f0 = d.r(t, x0, u0, h), f1 = d.r(t + h, x1, u1, h), xc, uc;
  for (size_t i = 0; i < x0.size(); ++i) xc.push_back((x0[i] + x1[i]) / S(2) + h * (f0[i] - f1[i]) / S(8));
  for (size_t i = 0; i < u0.size(); ++i) uc.push_back((u0[i] + u1[i]) / S(2));
  Vec fc = d.r(t + h / S(2), xc, uc, h), r;
  for (size_t i = 0; i < x0.size(); ++i) r.push_back(S(3) * (x1[i] - x0[i]) / (S(2) * h) - (f0[i] + f1[i]) / S(4) - fc[i]);
  return r;
}
// Zero sets agree up to sign.
static void same_equation(H& h, const std::string& l, S v, S ref) {
  if (v == ref) return h.check_eq(l, v, ref);
  h.check_eq(l, v, -ref);
}

struct Case {
  int N;
  Dyn d;
  DynamicsType type;
  TimestepMethod ts;
  TranscriptionMethod tr;
  S dt0;
  std::unique_ptr<OC> p;
  std::vector<Vec> X, U;  // reference symbolic trajectories, by step
  Vec DT;
  // Starting values given to the decision variables (distinct constants, so the
  // solver's vector can be mapped back) and the symbol each stands for.
  std::vector<std::pair<S, S>> start;
};
static const TranscriptionMethod TRS[] = {TranscriptionMethod::DIRECT_TRANSCRIPTION, TranscriptionMethod::DIRECT_COLLOCATION, TranscriptionMethod::SINGLE_SHOOTING};
static const TimestepMethod TSS[] = {TimestepMethod::FIXED, TimestepMethod::VARIABLE_SINGLE, TimestepMethod::VARIABLE};

static bool make(H& h, Case& c, int tr, int ts, int type, int N, int dyn) {
  c.tr = TRS[tr];
  c.ts = TSS[ts];
  c.type = type ? DynamicsType::DISCRETE : DynamicsType::EXPLICIT_ODE;
  if (tr == 1 && type) return false;
  c.N = N;
  c.d = dynamics(dyn);
  c.dt0 = S(0.375);
  // The callable only has to live for the constructor call.
  if (dyn == 2) {
    auto f = [&](const VM& x, const VM& u) -> VM { return c.d.f(V{S(0)}, x, u, V{S(0)}); };
    c.p = std::make_unique<OC>(c.d.nx, c.d.nu, Dur{c.dt0}, N, f, c.type, c.ts, c.tr);
  } else {
    auto f = [&](const V& t, const VM& x, const VM& u, const V& dt) -> VM { return c.d.f(t, x, u, dt); };
    c.p = std::make_unique<OC>(c.d.nx, c.d.nu, Dur{c.dt0}, N, f, c.type, c.ts, c.tr);
  }
  OC& p = *c.p;
  h.eq("X rows", p.X().rows(), c.d.nx);
  h.eq("X cols", p.X().cols(), N + 1);
  h.eq("U rows", p.U().rows(), c.d.nu);
  h.eq("U cols", p.U().cols(), N + 1);
  h.eq("dt rows", p.dt().rows(), 1);
  h.eq("dt cols", p.dt().cols(), N + 1);
  for (int i = 0; i <= N; ++i) h.check_eq("timesteps start at the given value", p.dt().value(0, i), c.dt0);
  return true;
}
static bool shooting(const Case& c) { return c.tr == TranscriptionMethod::SINGLE_SHOOTING; }
// Fills the reference trajectory with symbols; the decision variables get the
// same symbols, or distinct constants standing for them.
static void assign(H& h, Case& c, const std::string& tag, bool symbolic) {
  OC& p = *c.p;
  c.X.assign(c.N + 1, {});
  c.U.assign(c.N + 1, {});
  c.DT.clear();
  c.start.clear();
  auto put = [&](V v, const std::string& n) {
    S s = h.real(tag + n);
    S st = symbolic ? s : S(1 + c.start.size() / 32.0);
    c.start.emplace_back(st, s);
    v.set_value(st);
    return s;
  };
  for (int i = 0; i <= c.N; ++i) {
    for (int r = 0; r < c.d.nu; ++r) c.U[i].push_back(put(p.U()[r, i], "u" + std::to_string(i) + std::to_string(r)));
    if (c.ts == TimestepMethod::FIXED) c.DT.push_back(c.dt0);
    else if (c.ts == TimestepMethod::VARIABLE_SINGLE && i) c.DT.push_back(c.DT[0]);
    else {
      S v = put(p.dt()[0, i], "h" + std::to_string(i));
      if (c.tr == TranscriptionMethod::DIRECT_COLLOCATION) h.assume_ne(v, S(0));
      c.DT.push_back(v);
    }
  }
  S t(0);
  for (int i = 0; i <= c.N; ++i) {
    if (!shooting(c) || i == 0) {
      for (int r = 0; r < c.d.nx; ++r) c.X[i].push_back(put(p.X()[r, i], "x" + std::to_string(i) + std::to_string(r)));
    } else {
      c.X[i] = c.type == DynamicsType::DISCRETE ? c.d.r(t, c.X[i - 1], c.U[i - 1], c.DT[i - 1]) : rk4_ref(c.d, t, c.X[i - 1], c.U[i - 1], c.DT[i - 1]);
      t = t + c.DT[i - 1];
    }
  }
}
static void check_trajectory(H& h, Case& c) {
  for (int i = 0; i <= c.N; ++i) {
    for (int r = 0; r < c.d.nx; ++r) h.check_eq("state trajectory", c.p->X().value(r, i), c.X[i][r]);
    for (int r = 0; r < c.d.nu; ++r) h.check_eq("input trajectory", c.p->U().value(r, i), c.U[i][r]);
    h.check_eq("timestep trajectory", c.p->dt().value(0, i), c.DT[i]);
  }
}
static Vec defects(const Case& c) {
  Vec out;
  S t(0);
  for (int i = 0; i < c.N; ++i) {
    Vec e;
    if (c.tr == TranscriptionMethod::DIRECT_COLLOCATION) e = colloc_ref(c.d, t, c.X[i], c.U[i], c.X[i + 1], c.U[i + 1], c.DT[i]);
    else e = axpy(c.X[i + 1], S(-1), c.type == DynamicsType::DISCRETE ? c.d.r(t, c.X[i], c.U[i], c.DT[i]) : rk4_ref(c.d, t, c.X[i], c.U[i], c.DT[i]));
    if (!shooting(c)) out.insert(out.end(), e.begin(), e.end());
    t = t + c.DT[i];
  }
  return out;
}
// Runs the front end from the constant start and evaluates its constraints at
// the symbolic trajectory.
struct Seen {
  int kind = 0;
  Vec ce, ci;
  int nv = 0;
};
static Seen capture(H& h, Case& c) {
  OC& p = *c.p;
  Seen s;
  spy.reset();
  auto point = [&](const DV& x) {
    s.nv = x.size();
    DV y(x.size());
    for (int i = 0; i < x.size(); ++i) {
      bool found = false;
      for (auto& [st, sym] : c.start)
        if (x(i) == st) {
          y(i) = sym;
          found = true;
        }
      h.check("solver starts from the variables' values", found);
      if (!found) y(i) = x(i);
    }
    return y;
  };
  auto eq = [&](const auto& m, const DV& y) {
    DV v = m.c_e(y);
    for (int i = 0; i < v.size(); ++i) s.ce.push_back(v(i) / m.scaling.c_e[i]);
  };
  spy.newton = [&](const NWC&, CBs, const slp::Options&, DV& x) {
    s.nv = x.size();
    return ExitStatus::SUCCESS;
  };
  spy.sqp = [&](const SQC& m, CBs, const slp::Options&, DV& x) {
    eq(m, point(x));
    return ExitStatus::SUCCESS;
  };
  spy.ip = [&](const IPC& m, CBs, const slp::Options&, DV& x) {
    DV y = point(x);
    eq(m, y);
    DV d = m.c_i(y);
    for (int i = 0; i < d.size(); ++i) s.ci.push_back(d(i) / m.scaling.c_i[i]);
    return ExitStatus::SUCCESS;
  };
  p.minimize(p.U()[0, 0] * p.U()[0, 0]);
  h.check("status", p.solve() == ExitStatus::SUCCESS);
  s.kind = spy.kind;
  return s;
}
static int expected_vars(const Case& c) {
  int n = c.d.nu * (c.N + 1) + (shooting(c) ? c.d.nx : c.d.nx * (c.N + 1));
  if (c.ts == TimestepMethod::VARIABLE_SINGLE) n += 1;
  if (c.ts == TimestepMethod::VARIABLE) n += c.N + 1;
  return n;
}
static void dynamics_case(H& h, int sh, int type, int dyn, int N) {
  Case c;
  if (!make(h, c, sh / 3, sh % 3, type, N, dyn)) return;
  assign(h, c, "w", true);
  check_trajectory(h, c);
  assign(h, c, "", false);
  Seen s = capture(h, c);
  Vec ref = defects(c);
  h.eq("number of dynamics constraints", s.ce.size(), ref.size());
  h.eq("no inequality constraints", s.ci.size(), 0);
  h.eq("decision variables", s.nv, expected_vars(c));
  for (size_t i = 0; i < std::min(ref.size(), s.ce.size()); ++i) same_equation(h, "dynamics constraint", s.ce[i], ref[i]);
  // a later trajectory: nothing was frozen by construction or solve
  assign(h, c, "z", true);
  check_trajectory(h, c);
}
static void dynamics_menu(H& h, int maxN) {
  int sh = h.choose("shard", 9);
  int type = h.choose("discrete", 2);
  int dyn = h.choose("dynamics", 3);
  int N = 1 + h.choose("steps", maxN);
  dynamics_case(h, sh, type, dyn, N);
}
HARNESS_SHARDED(o01_dynamics, 9, "3 transcriptions x 3 timestep methods x ODE/discrete x 3 dynamics (linear time-varying, arbitrary function of t, x, u and dt, autonomous), 1-2 steps; all real states, inputs and timesteps") { dynamics_menu(h, 2); }
HARNESS_SHARDED(o01_dynamics_long, 9, "3 transcriptions x 3 timestep methods x ODE/discrete, linear dynamics of t, x, u and dt, 3-4 steps; all real states, inputs and timesteps") {
  int sh = h.choose("shard", 9);
  int type = h.choose("discrete", 2);
  dynamics_case(h, sh, type, 3, 3 + h.choose("more", 2));
}
HARNESS_THOROUGH(o01_dynamics_three, 9, "as o01_dynamics with up to 3 steps") { dynamics_menu(h, 3); }

HARNESS_SHARDED(o01_constraints, 9, "initial/final state, input bounds, timestep bounds with scalar or vector arguments, alone and together; all methods; all reals") {
  int sh = h.choose("shard", 9);
  int what = h.choose("what", 7);
  int vecarg = h.choose("argument", 3);
  Case c;
  int dyn = what >= 2 && what <= 3 ? 1 : 2;  // two inputs for the input bounds, two states otherwise
  make(h, c, sh / 3, sh % 3, 0, 2, dyn);
  OC& p = *c.p;
  int n = dyn == 1 ? c.d.nu : c.d.nx;
  if (what >= 4 && what <= 5) n = 1;
  Vec b;
  // bounds are constants far from the starting values (so that projecting the
  // start onto them does not move it); end states are arbitrary
  for (int i = 0; i < n; ++i)
    b.push_back(what == 2 || what == 4 ? S(-1.5 - i) : what == 3 || what == 5 ? S(9 + i) : h.real("b" + std::to_string(i)));
  if (vecarg == 0)
    for (int i = 1; i < n; ++i) b[i] = b[0];
  Eigen::Vector<S, Eigen::Dynamic> ev(n);
  VM vm(n, 1);
  for (int i = 0; i < n; ++i) {
    ev(i) = b[i];
    vm[i] = V{b[i]};
  }
  auto with = [&](auto&& f) {
    if (vecarg == 0) f(b[0]);
    else if (vecarg == 1) f(ev);
    else f(vm);
  };
  bool ini = what == 0 || what == 6, fin = what == 1 || what == 6, lo = what == 2, up = what == 3, tmin = what == 4, tmax = what == 5;
  if (ini) with([&](const auto& a) { p.constrain_initial_state(a); });
  if (fin) with([&](const auto& a) { p.constrain_final_state(a); });
  if (lo) with([&](const auto& a) { p.set_lower_input_bound(a); });
  if (up) with([&](const auto& a) { p.set_upper_input_bound(a); });
  if (tmin || tmax) {
    if (c.ts == TimestepMethod::FIXED) return;  // constants: nothing to constrain
    if (tmin) p.set_min_timestep(Dur{b[0]});
    if (tmax) p.set_max_timestep(Dur{b[0]});
  }
  assign(h, c, "", false);
  Vec extra, ineq;
  if (ini)
    for (int r = 0; r < n; ++r) extra.push_back(c.X[0][r] - b[r]);
  if (fin)
    for (int r = 0; r < n; ++r) extra.push_back(c.X[c.N][r] - b[r]);
  for (int i = 0; i <= c.N; ++i)
    for (int r = 0; r < c.d.nu; ++r) {
      if (lo) ineq.push_back(c.U[i][r] - b[r]);
      if (up) ineq.push_back(b[r] - c.U[i][r]);
    }
  for (int i = 0; i <= c.N; ++i) {
    if (tmin) ineq.push_back(c.DT[i] - b[0]);
    if (tmax) ineq.push_back(b[0] - c.DT[i]);
  }
  Vec ref = defects(c);
  int nd = ref.size();
  ref.insert(ref.end(), extra.begin(), extra.end());
  Seen s = capture(h, c);
  h.eq("equality constraints", s.ce.size(), ref.size());
  h.eq("inequality constraints", s.ci.size(), ineq.size());
  for (size_t i = nd; i < std::min(ref.size(), s.ce.size()); ++i) same_equation(h, "state constraint", s.ce[i], ref[i]);
  for (size_t i = 0; i < std::min(ineq.size(), s.ci.size()); ++i) h.check_eq("bound constraint", s.ci[i], ineq[i]);
}
HARNESS_SHARDED(o01_for_each_step, 9, "both callback forms, 1-3 steps, all methods; all reals") {
  int sh = h.choose("shard", 9);
  int N = 1 + h.choose("steps", 3);
  int form = h.choose("form", 2);
  Case c;
  make(h, c, sh / 3, sh % 3, sh / 3 != 1, N, 0);
  OC& p = *c.p;
  std::vector<VM> xs, us;
  std::vector<V> ts, dts;
  if (form) p.for_each_step([&](const V& t, const VM& x, const VM& u, const V& dt) {
    xs.push_back(x);
    us.push_back(u);
    ts.push_back(t);
    dts.push_back(dt);
  });
  else p.for_each_step([&](const VM& x, const VM& u) {
    xs.push_back(x);
    us.push_back(u);
  });
  h.eq("steps visited", xs.size(), N + 1);
  assign(h, c, "", true);
  S t(0);
  for (int i = 0; i <= std::min<int>(N, xs.size() - 1); ++i) {
    h.eq("state rows", xs[i].rows(), c.d.nx);
    h.eq("state cols", xs[i].cols(), 1);
    h.eq("input rows", us[i].rows(), c.d.nu);
    for (int r = 0; r < c.d.nx; ++r) h.check_eq("state of the step", xs[i].value(r, 0), c.X[i][r]);
    for (int r = 0; r < c.d.nu; ++r) h.check_eq("input of the step", us[i].value(r, 0), c.U[i][r]);
    if (form) {
      h.check_eq("time of the step", ts[i].value(), t);
      h.check_eq("length of the step", dts[i].value(), c.DT[i]);
    }
    t = t + c.DT[i];
  }
  for (int r = 0; r < c.d.nx; ++r) {
    h.check_eq("initial state", p.initial_state().value(r, 0), c.X[0][r]);
    h.check_eq("final state", p.final_state().value(r, 0), c.X[N][r]);
  }
}
