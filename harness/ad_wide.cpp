// Derivatives over more variables and larger shared graphs than the other
// harnesses: six variables, up to some forty nodes, histories on one graph.
#define JET_NV 6
#include "jet.hpp"

static V dvar(S x) {
  V v;
  v.set_value(x);
  return v;
}
static constexpr int N = 6;
static E mul(const E& a, const E& b) { return {a.v * b.v, bin_ref(MUL, a.j, b.j)}; }
static E add(const E& a, const E& b) { return {a.v + b.v, bin_ref(ADD, a.j, b.j)}; }
static E sub(const E& a, const E& b) { return {a.v - b.v, bin_ref(SUB, a.j, b.j)}; }
static E un(int op, const E& a) { return {un_apply(op, a.v), un_ref(op, a.j)}; }
static constexpr int NF = 9;
static E form(H& h, int kind, const std::vector<E>& x) {
  switch (kind) {
    case 0: {  // all variables, quadratic
      E f = mul(x[0], x[1]);
      for (int i = 1; i < N; ++i) f = add(f, mul(x[i], x[(i + 1) % N]));
      return f;
    }
    case 1: {  // product of all
      E f = x[0];
      for (int i = 1; i < N; ++i) f = mul(f, x[i]);
      return f;
    }
    case 2: {  // linear
      E f = x[N - 1];
      for (int i = 0; i < N; ++i) {
        S c = i == 4 ? h.real("c") : S(i - 2.5);
        f = add(f, mul(E{V{c}, Jet(c)}, x[i]));
      }
      return f;
    }
    case 3: {  // a shared sum used three times
      E s = x[0];
      for (int i = 1; i < N; ++i) s = i & 1 ? add(s, x[i]) : sub(s, x[i]);
      return sub(mul(mul(s, s), s), s);
    }
    case 4: {  // long two-term recurrence: every node has two users
      E p = x[0], q = x[1];
      for (int i = 2; i < 7; ++i) {
        E t = add(mul(q, x[i % N]), p);
        p = q;
        q = t;
      }
      return sub(q, p);
    }
    case 5: {  // opaque functions
      E f = mul(un(SIN, x[0]), x[N - 1]);
      for (int i = 1; i < N; ++i) f = add(f, mul(un(i & 1 ? COS : EXP, x[i]), x[N - 1 - i]));
      return f;
    }
    case 6: {  // two blocks with cross use
      E a = add(mul(x[0], x[1]), x[2]), b = sub(mul(x[3], x[4]), x[5]);
      return add(mul(a, b), mul(a, mul(a, x[5])));
    }
    case 7: return mul(x[5], x[5]);  // one late variable
    default: {  // balanced tree over shared squares
      std::vector<E> l;
      for (int i = 0; i < N; ++i) l.push_back(mul(x[i], x[i]));
      E a = add(l[0], l[1]), b = add(l[2], l[3]), c = add(l[4], l[5]);
      return sub(mul(a, c), mul(b, l[0]));
    }
  }
}
struct World {
  std::vector<E> x;
  std::vector<S> at;
  explicit World(H& h) {
    for (int i = 0; i < N; ++i) {
      at.push_back(h.real("x" + std::to_string(i)));
      x.push_back({dvar(at[i]), Jet::var(at[i], i)});
    }
  }
  void move(H& h, const std::string& t) {
    for (int i = 0; i < N; ++i) {
      at[i] = h.real("x" + std::to_string(i) + t);
      x[i].v.set_value(at[i]);
      x[i].j = Jet::var(at[i], i);
    }
  }
  Jet ref(H& h, int kind) {  // reference at the current point
    std::vector<E> q;
    for (int i = 0; i < N; ++i) q.push_back({dvar(at[i]), x[i].j});
    return form(h, kind, q).j;
  }
  VM wrt(int order, std::vector<int>& map) {
    static const std::vector<std::vector<int>> o{{0, 1, 2, 3, 4, 5}, {5, 4, 3, 2, 1, 0}, {4, 5}, {5}, {2, 0, 5, 3}};
    map = o[order];
    VM W(slp::detail::empty, (int)map.size(), 1);
    for (size_t i = 0; i < map.size(); ++i) W[(int)i] = x[map[i]].v;
    return W;
  }
};
#define B_W "9 forms over six variables with up to 40 nodes (chains, shared sums, recurrences, trees, opaque functions)"
HARNESS_SHARDED(a01_wide, NF, B_W "; value re-evaluated after moves of the variables, also through a second handle; all reals") {
  int k = h.choose("shard", NF);
  World w(h);
  E f = form(h, k, w.x);
  V copy = f.v, user = f.v * 2 + w.x[0].v;
  for (int step = 0; step < 3; ++step) {
    if (step) w.move(h, step == 1 ? "'" : "''");
    Jet r = w.ref(h, k);
    if (h.flip("user first")) h.check_eq("value of a user", user.value(), r.v * S(2) + w.at[0]);
    h.check_eq("value", f.v.value(), r.v);
    h.check_eq("value of a copy", copy.value(), r.v);
  }
}
static void cmp(H& h, const std::string& t, const Eigen::SparseVector<S>& g, const Jet& r, const std::vector<int>& map) {
  h.eq("gradient size", g.size(), (long)map.size());
  for (size_t c = 0; c < map.size(); ++c) h.check_eq(t, g.coeff(c), r.g[map[c]]);
}
HARNESS_SHARDED(a02_wide, NF, B_W "; 5 choices of wrt, evaluated twice and after a move; all reals") {
  int k = h.choose("shard", NF);
  World w(h);
  E f = form(h, k, w.x);
  std::vector<int> map;
  VM W = w.wrt(h.choose("wrt", 5), map);
  slp::Gradient<S> G(f.v, W);
  Jet r = w.ref(h, k);
  cmp(h, "gradient", G.value(), r, map);
  cmp(h, "gradient again", G.value(), r, map);
  w.move(h, "'");
  r = w.ref(h, k);
  cmp(h, "gradient after update", G.value(), r, map);
}
HARNESS_SHARDED(a03_wide, NF, "Jacobians of three of the nine six-variable forms, 5 choices of wrt, evaluated twice and after a move; all reals") {
  int k = h.choose("shard", NF), k1 = (k + 1 + h.choose("second", 3) * 2) % NF, k2 = (k + 4) % NF;
  World w(h);
  E f[3] = {form(h, k, w.x), form(h, k1, w.x), form(h, k2, w.x)};
  std::vector<int> map;
  VM W = w.wrt(h.choose("wrt", 5), map);
  slp::Jacobian<S> J(column({f[0].v, f[1].v, f[2].v}), W);
  for (int step = 0; step < 3; ++step) {
    if (step == 2) w.move(h, "'");
    Jet r[3] = {w.ref(h, k), w.ref(h, k1), w.ref(h, k2)};
    const auto& m = J.value();
    h.eq("jacobian cols", m.cols(), (long)map.size());
    for (int i = 0; i < 3; ++i)
      for (size_t c = 0; c < map.size(); ++c) h.check_eq(step == 0 ? "jacobian" : step == 1 ? "jacobian again" : "jacobian after update", m.coeff(i, c), r[i].g[map[c]]);
  }
}
static void hess(H& h, int k, bool numeric) {
  World w(h);
  E f = form(h, k, w.x);
  std::vector<int> map;
  VM W = w.wrt(h.choose("wrt", 5), map);
  bool lower = h.choose("lower", 2);
  int n = map.size();
  slp::Hessian<S, Eigen::Lower> L(f.v, W);
  slp::Hessian<S, Eigen::Lower | Eigen::Upper> F(f.v, W);
  VM T = numeric ? VM(0, 0) : F.get();
  for (int step = 0; step < 3; ++step) {
    if (step == 2) w.move(h, "'");
    Jet r = w.ref(h, k);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j) {
        S want = r.h[map[i]][map[j]];
        if (!numeric) h.check_eq("hessian tree", T[i, j].value(), want);
        else if (lower) h.check_eq("lower hessian", L.value().coeff(i, j), i >= j ? want : S(0));
        else h.check_eq("hessian", F.value().coeff(i, j), want);
      }
  }
}
HARNESS_SHARDED(a04_wide, NF, B_W "; 5 choices of wrt, lower and full storage, evaluated repeatedly and after a move; all reals") { hess(h, h.choose("shard", NF), true); }
HARNESS_SHARDED(a05_wide, NF, B_W "; gradient and Hessian trees, 5 choices of wrt, before and after a move; all reals") {
  int k = h.choose("shard", NF);
  if (h.choose("order", 2)) return hess(h, k, false);
  World w(h);
  E f = form(h, k, w.x);
  std::vector<int> map;
  VM W = w.wrt(h.choose("wrt", 5), map);
  VM T = slp::Gradient<S>(f.v, W).get();
  for (int step = 0; step < 2; ++step) {
    if (step) w.move(h, "'");
    Jet r = w.ref(h, k);
    for (size_t c = 0; c < map.size(); ++c) h.check_eq("gradient tree", T[(int)c].value(), r.g[map[c]]);
  }
}
// Histories on one graph: evaluation of any object leaves the others right.
static void history(H& h, int steps) {
  int k = h.choose("shard", NF);
  World w(h);
  E f = form(h, k, w.x);
  E g = sub(mul(f, w.x[2]), w.x[5]);
  std::vector<int> fm, rm;
  VM W = w.wrt(0, fm), R = w.wrt(1, rm);
  for (int s = 0; s < steps; ++s) {
    Jet r = w.ref(h, k);
    switch (h.choose("op" + std::to_string(s), 6)) {
      case 0: h.check_eq("value", f.v.value(), r.v); break;
      case 1: h.check_eq("value of a user", g.v.value(), r.v * w.at[2] - w.at[5]); break;
      case 2: cmp(h, "gradient", slp::Gradient<S>(f.v, R).value(), r, rm); break;
      case 3: {
        slp::Jacobian<S> J(column({g.v, f.v}), W);
        const auto& m = J.value();
        for (int c = 0; c < N; ++c) {
          h.check_eq("jacobian of a user", m.coeff(0, c), r.g[c] * w.at[2] + (c == 2 ? r.v : S(0)) - S(c == 5 ? 1 : 0));
          h.check_eq("jacobian", m.coeff(1, c), r.g[c]);
        }
        break;
      }
      case 4: {
        slp::Hessian<S, Eigen::Lower> L(f.v, R);
        const auto& m = L.value();
        for (int i = 0; i < N; ++i)
          for (int j = 0; j <= i; ++j) h.check_eq("hessian", m.coeff(i, j), r.h[rm[i]][rm[j]]);
        break;
      }
      case 5: w.move(h, std::string(s + 1, '\'')); break;
    }
  }
  Jet r = w.ref(h, k);
  h.check_eq("value at the end", f.v.value(), r.v);
  cmp(h, "gradient at the end", slp::Gradient<S>(f.v, W).value(), r, fm);
}
HARNESS_SHARDED(a07_wide, NF, B_W "; every 2-step history over value, value of a user, gradient, Jacobian, Hessian and move, all objects freshly built on the shared nodes") { history(h, 2); }
HARNESS_X(a07_wide_deep, NF, true, B_W "; every 3-step history, as above") { history(h, 3); }
