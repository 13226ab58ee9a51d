// Autodiff: whole-graph properties (sharing, Jacobian/Hessian assembly,
// histories of updates, expression-type classification).
#include "jet.hpp"

static V dvar(S x) {
  V v;
  v.set_value(x);
  return v;
}
static Jet jadd(const Jet& a, const Jet& b) { return bin_ref(ADD, a, b); }
static Jet jmul(const Jet& a, const Jet& b) { return bin_ref(MUL, a, b); }

// A random-access program: a sequence of instructions over a growing register
// file, so that intermediate results are shared arbitrarily.
struct Prog {
  std::vector<E> regs;
};
// instruction menu (polynomial plus a few transcendental ops keeps every query
// exact and fast while exercising all accumulation shapes)
static E instr(H& h, int op, const E& a, const E& b) {
  switch (op) {
    case 0: return {a.v + b.v, bin_ref(ADD, a.j, b.j)};
    case 1: return {a.v - b.v, bin_ref(SUB, a.j, b.j)};
    case 2: return {a.v * b.v, bin_ref(MUL, a.j, b.j)};
    case 3: h.assume_ne(b.j.v, S(0)); return {a.v / b.v, bin_ref(DIV, a.j, b.j)};
    case 4: return {-a.v, un_ref(NEG, a.j)};
    case 5: return {slp::sin(a.v), un_ref(SIN, a.j)};
    case 6: return {slp::pow(a.v, 2), un_ref(POW2, a.j)};
    case 7: return {slp::max(a.v, b.v), bin_ref(MAX, a.j, b.j)};
  }
  return a;
}
static void cmp_grad(H& h, const std::string& t, V f, const Jet& j, VM wrt, const std::vector<int>& map) {
  slp::Gradient<S> G(f, wrt);
  Eigen::SparseVector<S> g = G.value();
  h.eq(t + " gradient rows", g.size(), (long)map.size());
  for (size_t i = 0; i < map.size(); ++i) h.check_eq(t + " gradient", g.coeff(i), map[i] < 0 ? S(0) : j.g[map[i]]);
}
static void cmp_hess(H& h, const std::string& t, V f, const Jet& j, VM wrt, const std::vector<int>& map) {
  slp::Hessian<S, Eigen::Lower | Eigen::Upper> Hm(f, wrt);
  Eigen::SparseMatrix<S> m = Hm.value();
  slp::Hessian<S, Eigen::Lower> Lm(f, wrt);
  Eigen::SparseMatrix<S> l = Lm.value();
  for (size_t i = 0; i < map.size(); ++i)
    for (size_t k = 0; k < map.size(); ++k) {
      S ref = map[i] < 0 || map[k] < 0 ? S(0) : j.h[map[i]][map[k]];
      h.check_eq(t + " hessian", m.coeff(i, k), ref);
      h.check_eq(t + " lower hessian", l.coeff(i, k), k <= i ? ref : S(0));
    }
}

static void dag(H& h, int mode) {
  int n = 3;  // instructions
  S x = h.real("x"), y = h.real("y");
  std::vector<E> r;
  r.push_back({dvar(x), Jet::var(x, 0)});
  r.push_back({dvar(y), Jet::var(y, 1)});
  int shard = h.choose("shard", 8);
  for (int k = 0; k < n; ++k) {
    int sz = (int)r.size();
    int op = k == n - 1 ? shard : h.choose("op" + std::to_string(k), 4);
    // the last instruction uses the newest register; earlier ones any
    int menu[] = {2, 0, 3, 5};
    int o = k == n - 1 ? op : menu[op];
    int a = k == 0 ? 0 : k == n - 1 ? sz - 1 : h.choose("a" + std::to_string(k), sz);
    int b = (o == 4 || o == 5 || o == 6) ? 0 : k == 0 ? 1 : h.choose("b" + std::to_string(k), sz);
    r.push_back(instr(h, o, r[a], r[b]));
  }
  E f = r.back();
  if (mode == 0) {
    h.check_eq("value", f.v.value(), f.j.v);
    VM wrt = column({r[0].v, r[1].v});
    cmp_grad(h, "dag", f.v, f.j, wrt, {0, 1});
  } else {
    VM wrt = column({r[0].v, r[1].v});
    cmp_hess(h, "dag", f.v, f.j, wrt, {0, 1});
  }
}
#define B_DAG "all expression DAGs of 3 instructions over 2 variables with arbitrary sharing (first two from {*,+,/,sin}, last from {+,-,*,/,neg,sin,pow2,max}); all reals in the domain"
HARNESS_SHARDED(a02_dag_sharing, 8, B_DAG) { dag(h, 0); }
HARNESS_SHARDED(a04_dag_sharing, 8, B_DAG) { dag(h, 1); }

// deep accumulation chains: z_{k+1} = z_k * x + z_k + z_{k-1}
static void deep(H& h, int mode) {
  S x = h.real("x"), y = h.real("y");
  V vx = dvar(x), vy = dvar(y);
  E p{vx, Jet::var(x, 0)}, q{vy, Jet::var(y, 1)};
  int depth = h.choose("depth", 5);
  Jet jx = Jet::var(x, 0);
  for (int k = 0; k <= depth; ++k) {
    E t{q.v * vx + q.v + p.v, jadd(jadd(jmul(q.j, jx), q.j), p.j)};
    p = q;
    q = t;
  }
  VM wrt = column({vx, vy});
  if (mode == 0) cmp_grad(h, "deep", q.v, q.j, wrt, {0, 1});
  else cmp_hess(h, "deep", q.v, q.j, wrt, {0, 1});
}
HARNESS(a02_deep_chain, "fan-in chains up to depth 5 (each level reuses the two previous levels)") { deep(h, 0); }
HARNESS(a04_deep_chain, "fan-in chains up to depth 5 (each level reuses the two previous levels)") { deep(h, 1); }

// ------------------------------------------------------------------ Jacobian
// Rows of every class; wrt in any order, including variables that do not appear.
static E row(H& h, int kind, std::vector<E>& r) {
  E &x = r[0], &y = r[1], &z = r[2];
  S c = h.real("c");
  E C{V{c}, Jet(c)};
  auto add = [&](E a, E b) { return E{a.v + b.v, bin_ref(ADD, a.j, b.j)}; };
  auto sub = [&](E a, E b) { return E{a.v - b.v, bin_ref(SUB, a.j, b.j)}; };
  auto mul = [&](E a, E b) { return E{a.v * b.v, bin_ref(MUL, a.j, b.j)}; };
  switch (kind) {
    case 0: return C;                             // constant
    case 1: return y;                             // bare variable
    case 2: return add(mul(C, x), sub(z, x));     // linear, repeated variable
    case 3: return mul(x, y);                     // quadratic
    case 4: return add(mul(x, x), z);             // quadratic
    case 5: return mul(mul(x, y), z);             // nonlinear
    case 6: return E{slp::sin(y.v), un_ref(SIN, y.j)};
    case 7: return sub(E{slp::exp(x.v), un_ref(EXP, x.j)}, mul(y, y));
  }
  return x;
}
static void jacobian(H& h, bool trees) {
  int k0 = h.choose("shard", 8);
  int k1 = h.choose("row1", 8);
  int k2 = trees ? 7 : h.choose("row2", 3) * 2 + 1;
  int perm = h.choose("wrt", 4);
  S xs[3] = {h.real("x"), h.real("y"), h.real("z")};
  std::vector<E> r;
  for (int i = 0; i < 3; ++i) r.push_back({dvar(xs[i]), Jet::var(xs[i], i)});
  V unused = dvar(S(5));
  E f0 = row(h, k0, r), f1 = row(h, k1, r), f2 = row(h, k2, r);
  VM F = column({f0.v, f1.v, f2.v});
  std::vector<int> map;
  VM W(slp::detail::empty, 0, 1);
  switch (perm) {
    case 0: W = column({r[0].v, r[1].v, r[2].v}); map = {0, 1, 2}; break;
    case 1: W = column({r[2].v, unused, r[0].v, r[1].v}); map = {2, -1, 0, 1}; break;
    case 2: W = column({r[1].v}); map = {1}; break;
    case 3: W = column({unused, r[2].v, r[1].v}); map = {-1, 2, 1}; break;
  }
  slp::Jacobian<S> J(F, W);
  auto check = [&](const char* t, const Eigen::SparseMatrix<S>& m, const Jet* js[3]) {
    h.eq("jacobian rows", m.rows(), 3);
    h.eq("jacobian cols", m.cols(), (long)map.size());
    for (int i = 0; i < 3; ++i)
      for (size_t c = 0; c < map.size(); ++c) h.check_eq(t, m.coeff(i, c), map[c] < 0 ? S(0) : js[i]->g[map[c]]);
  };
  const Jet* js[3] = {&f0.j, &f1.j, &f2.j};
  if (!trees) {
    check("jacobian", J.value(), js);
    check("jacobian again", J.value(), js);
    // move to another point: no rebuild
    S ys[3] = {h.real("x'"), h.real("y'"), h.real("z'")};
    std::vector<E> q;
    for (int i = 0; i < 3; ++i) {
      r[i].v.set_value(ys[i]);
      q.push_back({r[i].v, Jet::var(ys[i], i)});
    }
    Jet g0 = row(h, k0, q).j, g1 = row(h, k1, q).j, g2 = row(h, k2, q).j;
    const Jet* ks[3] = {&g0, &g1, &g2};
    check("jacobian after update", J.value(), ks);
  } else {
    VM T = J.get();
    h.eq("jacobian tree rows", T.rows(), 3);
    h.eq("jacobian tree cols", T.cols(), (long)map.size());
    for (int i = 0; i < 3; ++i)
      for (size_t c = 0; c < map.size(); ++c)
        h.check_eq("jacobian tree", T[i, (int)c].value(), map[c] < 0 ? S(0) : js[i]->g[map[c]]);
    // building the trees must not disturb the numeric Jacobian
    check("jacobian after tree", J.value(), js);
  }
}
#define B_JAC "3x(1..4) Jacobians: rows from 8 shapes (constant, variable, linear, quadratic, nonlinear), 4 wrt orders incl. absent variables; two evaluation points, all reals"
HARNESS_SHARDED(a03_jacobian_values, 8, B_JAC) { jacobian(h, false); }
HARNESS_SHARDED(a05_jacobian_trees, 8, B_JAC) { jacobian(h, true); }

// symbolic derivative trees stay functions of the variables
HARNESS(a05_trees_follow_updates, "gradient/Hessian trees of 8 row shapes re-evaluated after the variables change; all reals") {
  int k = h.choose("k", 8);
  S xs[3] = {h.real("x"), h.real("y"), h.real("z")}, ys[3] = {h.real("x'"), h.real("y'"), h.real("z'")};
  std::vector<E> r, q;
  for (int i = 0; i < 3; ++i) r.push_back({dvar(xs[i]), Jet::var(xs[i], i)});
  E f = row(h, k, r);
  VM W = column({r[0].v, r[1].v, r[2].v});
  VM g = slp::Gradient<S>(f.v, W).get();
  VM m = slp::Hessian<S, Eigen::Lower | Eigen::Upper>(f.v, W).get();
  for (int i = 0; i < 3; ++i) h.check_eq("gradient tree", g[i].value(), f.j.g[i]);
  for (int i = 0; i < 3; ++i) {
    r[i].v.set_value(ys[i]);
    q.push_back({r[i].v, Jet::var(ys[i], i)});
  }
  Jet n = row(h, k, q).j;
  for (int i = 0; i < 3; ++i) {
    h.check_eq("gradient tree after update", g[i].value(), n.g[i]);
    for (int c = 0; c < 3; ++c) h.check_eq("hessian tree after update", m[i, c].value(), n.h[i][c]);
  }
}
// third derivative via trees: Hessian of a tree gradient component
HARNESS(a05_trees_compose, "derivative trees are ordinary expressions: gradient of a gradient tree equals the Hessian; 8 row shapes, all reals") {
  int k = h.choose("k", 8);
  int c = h.choose("component", 3);
  S xs[3] = {h.real("x"), h.real("y"), h.real("z")};
  std::vector<E> r;
  for (int i = 0; i < 3; ++i) r.push_back({dvar(xs[i]), Jet::var(xs[i], i)});
  E f = row(h, k, r);
  VM W = column({r[0].v, r[1].v, r[2].v});
  VM g = slp::Gradient<S>(f.v, W).get();
  V gc = g[c];
  Eigen::SparseVector<S> gg = slp::Gradient<S>(gc, W).value();
  for (int i = 0; i < 3; ++i) h.check_eq("gradient of gradient tree", gg.coeff(i), f.j.h[c][i]);
}

// ------------------------------------------------------------------ histories
// Any interleaving of evaluations of objects that share nodes gives the same
// answers as evaluating each afresh.
HARNESS_SHARDED(a07_interleavings, 6, "4-step histories over 6 operations (value of f, g; gradient; Jacobian; Hessian; tree; update) on expressions sharing nodes; all reals") {
  S a = h.real("x"), b = h.real("y");
  V x = dvar(a), y = dvar(b);
  V s = x * y;
  V f = s * s + x;
  V g = slp::sin(s) - y * s;
  VM W = column({x, y});
  VM W2 = column({y, x});
  slp::Gradient<S> G(f, W);
  slp::Jacobian<S> J(column({g, f, s}), W2);
  slp::Hessian<S, Eigen::Lower | Eigen::Upper> Hs(f, W);
  auto ref = [&](S p, S q, Jet& F, Jet& Gj, Jet& Sj) {
    Jet X = Jet::var(p, 0), Y = Jet::var(q, 1);
    Sj = jmul(X, Y);
    F = jadd(jmul(Sj, Sj), X);
    Gj = bin_ref(SUB, un_ref(SIN, Sj), jmul(Y, Sj));
  };
  Jet F, Gj, Sj;
  ref(a, b, F, Gj, Sj);
  int updates = 0;
  for (int step = 0; step < 4; ++step) {
    int op = step == 0 ? h.choose("shard", 6) : h.choose("op" + std::to_string(step), 6);
    switch (op) {
      case 0: h.check_eq("value f", f.value(), F.v); h.check_eq("value g", g.value(), Gj.v); break;
      case 1: {
        auto v = G.value();
        h.check_eq("gradient", v.coeff(0), F.g[0]);
        h.check_eq("gradient", v.coeff(1), F.g[1]);
        break;
      }
      case 2: {
        const auto& m = J.value();
        const Jet* js[3] = {&Gj, &F, &Sj};
        for (int r = 0; r < 3; ++r) {
          h.check_eq("jacobian", m.coeff(r, 0), js[r]->g[1]);
          h.check_eq("jacobian", m.coeff(r, 1), js[r]->g[0]);
        }
        break;
      }
      case 3: {
        const auto& m = Hs.value();
        for (int r = 0; r < 2; ++r)
          for (int c = 0; c < 2; ++c) h.check_eq("hessian", m.coeff(r, c), F.h[r][c]);
        break;
      }
      case 4: {
        VM t = slp::Gradient<S>(g, W).get();
        h.check_eq("tree", t[0].value(), Gj.g[0]);
        h.check_eq("tree", t[1].value(), Gj.g[1]);
        break;
      }
      case 5: {
        ++updates;
        a = h.real("x" + std::to_string(updates));
        x.set_value(a);
        if (updates % 2 == 0) {
          b = h.real("y" + std::to_string(updates));
          y.set_value(b);
        }
        ref(a, b, F, Gj, Sj);
        break;
      }
    }
  }
  h.check_eq("final value", f.value(), F.v);
  auto v = G.value();
  h.check_eq("final gradient", v.coeff(0), F.g[0]);
  const auto& m = Hs.value();
  h.check_eq("final hessian", m.coeff(1, 0), F.h[1][0]);
}
// new expressions may be built on top of evaluated ones, and old ones dropped
HARNESS(a07_grow_and_drop, "building on evaluated sub-expressions, dropping other users and re-evaluating; all reals") {
  S a = h.real("x"), b = h.real("y"), c = h.real("z");
  V x = dvar(a), y = dvar(b);
  V keep;
  S refv;
  {
    V t = x * y + slp::exp(x);
    using std::exp;
    h.check_eq("t", t.value(), a * b + exp(a));
    V u = t * t;
    if (h.flip("eval u")) h.check_eq("u", u.value(), (a * b + exp(a)) * (a * b + exp(a)));
    keep = u - t;
    if (h.flip("gradient first")) {
      auto gr = slp::Gradient<S>(u, x).value();
      h.check_eq("du", gr.coeff(0), S(2) * (a * b + exp(a)) * (b + exp(a)));
    }
  }
  if (h.flip("update")) {
    a = c;
    x.set_value(a);
  }
  using std::exp;
  S t = a * b + exp(a);
  h.check_eq("kept", keep.value(), t * t - t);
  auto gr = slp::Gradient<S>(keep, y).value();
  h.check_eq("kept gradient", gr.coeff(0), S(2) * t * a - a);
  V copy = keep;
  x.set_value(S(1));
  h.check_eq("copy tracks", copy.value(), [&] { S q = b + exp(S(1)); return q * q - q; }());
}

// ------------------------------------------------------------------ type classification
// A claimed type is a promise the solvers rely on: CONSTANT has zero gradient,
// LINEAR zero Hessian, QUADRATIC constant Hessian - at every point.
static E tinstr(int op, const E& a, const E& b) {
  if (op < NBIN) return {bin_apply(op, a.v, b.v), bin_ref(op, a.j, b.j)};
  op -= NBIN;
  return {un_apply(op, a.v), un_ref(op, a.j)};
}
static bool dom_ok(H& h, int op, const E& a, const E& b, bool cst_base = false) {
  if (op < NBIN) {
    if (op == POW) {
      // exponent must be a small constant for the polynomial classification
      h.assume_lt(S(0), a.j.v);
    } else {
      bin_domain(h, op, a.j.v, b.j.v);
    }
  } else {
    un_domain(h, op - NBIN, a.j.v);
  }
  return true;
}
static void type_sound(H& h, int depth) {
  // leaves: x, y, symbolic constant
  static const int top[] = {ADD, SUB, MUL, DIV, MAX, MIN, HYPOT, NBIN + NEG, NBIN + POW2, NBIN + POW3, NBIN + POWM1, NBIN + ABS, NBIN + SIN, NBIN + SQRT, NBIN + SIGN, NBIN + POW1, NBIN + POW0, NBIN + CBRT};
  static const int in[] = {ADD, SUB, MUL, DIV, NBIN + NEG, NBIN + POW2};
  constexpr int NT = 18;
  int t = h.choose("shard", NT);
  auto shape = [&](int point) {
    std::string sfx = point ? "'" : "";
    S x = h.real("x" + sfx), y = h.real("y" + sfx), c = h.real("c");
    std::vector<E> r{{dvar(x), Jet::var(x, 0)}, {dvar(y), Jet::var(y, 1)}, {V{c}, Jet(c)}};
    auto get = [&](const std::string& n, int lim) { return h.choose(n, lim); };
    // choices are made once (point 0) and reused
    return std::make_pair(r, get);
  };
  // pick structure
  int n1 = in[h.choose("i1", 6)];
  int a1 = h.choose("a1", 3);
  int b1 = n1 < NBIN ? h.choose("b1", 3) : 0;
  int n2 = -1, a2 = 0, b2 = 0;
  if (depth > 1) {
    n2 = in[h.choose("i2", 6)];
    a2 = 3;
    b2 = n2 < NBIN ? h.choose("b2", 4) : 0;
  }
  int bt = top[t] < NBIN ? h.choose("bt", depth > 1 ? 5 : 4) : 0;
  bool swap = top[t] < NBIN && h.flip("swap");
  auto build = [&](std::vector<E>& r) {
    dom_ok(h, n1, r[a1], r[b1]);
    r.push_back(tinstr(n1, r[a1], r[b1]));
    if (n2 >= 0) {
      dom_ok(h, n2, r[a2], r[b2]);
      r.push_back(tinstr(n2, r[a2], r[b2]));
    }
    E l = r.back(), q = r[bt];
    if (swap) std::swap(l, q);
    dom_ok(h, top[t], l, q);
    r.push_back(tinstr(top[t], l, q));
    return r.back();
  };
  auto [r0, g0] = shape(0);
  E f = build(r0);
  auto ty = f.v.type();
  using T = slp::ExpressionType;
  h.check("type is not none", ty != T::NONE);
  h.check("nonlinear is allowed", true);
  if (ty == T::NONLINEAR || ty == T::NONE) return;
  auto [r1, g1] = shape(1);
  E k = build(r1);
  for (int i = 0; i < 2; ++i) {
    if (ty == T::CONSTANT) h.check_eq("constant has zero gradient", f.j.g[i], S(0));
    for (int j = 0; j < 2; ++j) {
      if (ty == T::LINEAR || ty == T::CONSTANT) h.check_eq("linear has zero Hessian", f.j.h[i][j], S(0));
      if (ty == T::QUADRATIC) h.check_eq("quadratic has constant Hessian", f.j.h[i][j], k.j.h[i][j]);
    }
    if (ty == T::LINEAR) h.check_eq("linear has constant gradient", f.j.g[i], k.j.g[i]);
  }
  if (ty == T::CONSTANT) h.check_eq("constant has constant value", f.j.v, k.j.v);
}
#define B_TY "expressions of depth 2..3 over x, y and a symbolic constant: 18 outer operators, 6 inner operators, two evaluation points; all reals in the domain"
HARNESS_SHARDED(a06_type_soundness, 18, B_TY) { type_sound(h, 1); }
HARNESS_X(a06_type_soundness_deep, 18, true, B_TY) { type_sound(h, 2); }
// precision for the documented polynomial cases (needed for solver dispatch)
HARNESS(a06_type_precision, "documented classes of basic forms; all real constants other than pruning cases") {
  S c = h.real("c");
  h.assume_ne(c, S(0));
  V x = dvar(h.real("x")), y = dvar(h.real("y"));
  using T = slp::ExpressionType;
  auto is = [&](const char* l, const V& v, T t) { h.check(l, v.type() == t); };
  is("variable is linear", x, T::LINEAR);
  is("constant", V{c}, T::CONSTANT);
  is("c*x linear", V{c} * x, T::LINEAR);
  is("x*c linear", x * V{c}, T::LINEAR);
  is("x/c linear", x / V{c}, T::LINEAR);
  is("x+y linear", x + y, T::LINEAR);
  is("x-c linear", x - V{c}, T::LINEAR);
  is("-x linear", -x, T::LINEAR);
  is("x*y quadratic", x * y, T::QUADRATIC);
  is("c*x*y quadratic", V{c} * (x * y), T::QUADRATIC);
  is("x*y*c quadratic", (x * y) * V{c}, T::QUADRATIC);
  is("x*y/c quadratic", (x * y) / V{c}, T::QUADRATIC);
  is("x^2 quadratic", slp::pow(x, 2), T::QUADRATIC);
  is("x*y+x quadratic", x * y + x, T::QUADRATIC);
  is("x-x*y quadratic", x - x * y, T::QUADRATIC);
  is("-(x*y) quadratic", -(x * y), T::QUADRATIC);
  is("(x*y)*x nonlinear", (x * y) * x, T::NONLINEAR);
  is("c/x nonlinear", V{c} / x, T::NONLINEAR);
  is("sin x nonlinear", slp::sin(x), T::NONLINEAR);
  is("sin x + x nonlinear", x + slp::sin(x), T::NONLINEAR);
  is("c+c constant", V{c} + V{c}, T::CONSTANT);
  is("c*c constant", V{c} * V{c}, T::CONSTANT);
  is("sin c constant", slp::sin(V{c}), T::CONSTANT);
}
