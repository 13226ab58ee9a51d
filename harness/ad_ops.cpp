// Autodiff: values and derivatives of every operator, alone and composed.
#include "jet.hpp"

static V dvar(S x) {
  V v;
  v.set_value(x);
  return v;
}

enum Mode { VALUE, GRAD, HESS };

static void check_all(H& h, const std::string& tag, V f, const Jet& j, std::initializer_list<V> xs, Mode mode, bool trees) {
  int n = (int)xs.size();
  if (mode == VALUE) {
    h.check_eq("value " + tag, f.value(), j.v);
    return;
  }
  VM wrt = column(xs);
  if (mode == GRAD) {
    slp::Gradient<S> G(f, wrt);
    Eigen::SparseVector<S> g = G.value();
    for (int i = 0; i < n; ++i) h.check_eq("gradient " + tag, g.coeff(i), j.g[i]);
    if (trees) {
      VM gt = G.get();
      for (int i = 0; i < n; ++i) h.check_eq("gradient tree " + tag, gt[i].value(), j.g[i]);
    }
  } else {
    slp::Hessian<S, Eigen::Lower | Eigen::Upper> Hs(f, wrt);
    Eigen::SparseMatrix<S> m = Hs.value();
    for (int r = 0; r < n; ++r)
      for (int c = 0; c < n; ++c) h.check_eq("hessian " + tag, m.coeff(r, c), j.h[r][c]);
    slp::Hessian<S, Eigen::Lower> Ls(f, wrt);
    Eigen::SparseMatrix<S> l = Ls.value();
    for (int r = 0; r < n; ++r)
      for (int c = 0; c < n; ++c) h.check_eq("lower hessian " + tag, l.coeff(r, c), c <= r ? j.h[r][c] : S(0));
    if (trees) {
      VM ht = Hs.get();
      for (int r = 0; r < n; ++r)
        for (int c = 0; c < n; ++c) h.check_eq("hessian tree " + tag, ht[r, c].value(), j.h[r][c]);
    }
  }
}

static void unary_on_variable(H& h, Mode mode) {
  int op = h.choose("op", NUN);
  S x = h.real("x");
  un_domain(h, op, x, mode != VALUE);
  V v = dvar(x);
  check_all(h, un_names[op], un_apply(op, v), un_ref(op, Jet::var(x, 0), mode == VALUE), {v}, mode, true);
}
#define B_UN "each of 25 unary operators (incl. pow with exponents 2,3,-1,1/2,0,1); argument: any real in the domain"
HARNESS(a01_unary_variable, B_UN) { unary_on_variable(h, VALUE); }
HARNESS(a02_unary_variable, B_UN) { unary_on_variable(h, GRAD); }
HARNESS(a04_unary_variable, B_UN) { unary_on_variable(h, HESS); }

// Constant operands are folded: the folded value must be the function value.
HARNESS(a01_unary_constant, "each of 25 unary operators on a constant c, c any real in the closed domain (excluded by the library's documented pruning: log(0), log10(0), 0^0, 0^-1)") {
  int op = h.choose("op", NUN);
  S c = h.real("c");
  un_domain(h, op, c, false);
  if (op == POW0) h.assume_ne(c, S(0));
  V v{c};
  V f = un_apply(op, v);
  Jet r = un_ref(op, Jet(c), true);
  h.check_eq(std::string("folded value ") + un_names[op], f.value(), r.v);
  // and used as an operand
  V x = dvar(h.real("x"));
  V g = f * x;
  h.check_eq(std::string("folded use ") + un_names[op], g.value(), r.v * h.real("x"));
}

// operands: variable x0, variable x1, same variable, constant
static void binary(H& h, Mode mode, bool sharded) {
  int op = sharded ? h.choose("shard", NBIN) : h.choose("op", NBIN);
  int kind = h.choose("operands", 5);
  S x = h.real("x"), y = h.real("y");
  V vx = dvar(x), vy = dvar(y);
  Jet jx = Jet::var(x, 0), jy = Jet::var(y, 1);
  V l = vx, r = vy;
  Jet a = jx, b = jy;
  static const char* kn[] = {"xy", "xx", "cx", "xc", "cc"};
  if (kind == 1) { r = vx; b = jx; }
  if (kind == 2) { l = V{h.real("c")}; a = Jet(h.real("c")); r = vx; b = jx; }
  if (kind == 3) { r = V{h.real("c")}; b = Jet(h.real("c")); }
  if (kind == 4) { l = V{h.real("c")}; a = Jet(h.real("c")); r = V{h.real("d")}; b = Jet(h.real("d")); }
  bin_domain(h, op, a.v, b.v, mode != VALUE);
  std::string tag = std::string(bin_names[op]) + " " + kn[kind];
  check_all(h, tag, bin_apply(op, l, r), bin_ref(op, a, b, mode == VALUE), {vx, vy}, mode, true);
}
#define B_BIN "each of 9 binary operators on (x,y),(x,x),(c,x),(x,c),(c,d); all reals in the domain; pow: positive base"
HARNESS(a01_binary, B_BIN) { binary(h, VALUE, false); }
HARNESS(a02_binary, B_BIN) { binary(h, GRAD, false); }
HARNESS_SHARDED(a04_binary, NBIN, B_BIN) { binary(h, HESS, true); }

// pow with an arbitrary base sign and integer exponents, and zero base
HARNESS(a01_pow_integer, "pow(b, k) for k in -4..6, b a variable or constant, b any real (nonzero for k<=0)") {
  int k = h.choose("k", 11) - 4;
  bool cb = h.flip("constant base");
  bool ce = h.flip("variable exponent");
  S b = h.real("b");
  if (k <= 0) h.assume_ne(b, S(0));
  V vb = cb ? V{b} : dvar(b);
  V ve = ce ? dvar(S(k)) : V{k};
  V f = slp::pow(vb, ve);
  S p = S(1);
  for (int i = 0; i < (k < 0 ? -k : k); ++i) p = p * b;
  if (k < 0) p = S(1) / p;
  h.check_eq("pow integer", f.value(), p);
}
// 0^p for p <= 0 as a constant base
HARNESS(a01_pow_zero_base, "pow(0, p) with constant zero base and exponent variable, p any real > 0") {
  S p = h.real("p");
  h.assume_lt(S(0), p);
  V ve = dvar(p);
  V f = slp::pow(V{0.0}, ve);
  using std::pow;
  h.check_eq("pow zero base", f.value(), pow(S(0), p));
}
static void pow_int_grad(H& h, Mode m) {
  int k = h.choose("k", 9) - 3;
  S b = h.real("b"), w = h.real("w");
  if (k < 2) h.assume_ne(b, S(0));
  V vb = dvar(b), vw = dvar(w);
  V f = vw * slp::pow(vb, k);
  auto ipow = [&](int e) {
    S p = S(1);
    for (int i = 0; i < (e < 0 ? -e : e); ++i) p = p * b;
    return e < 0 ? S(1) / p : p;
  };
  Jet r = chain2(Jet::var(b, 0), Jet::var(w, 1), w * ipow(k), S(k) * w * ipow(k - 1), ipow(k), S(k) * S(k - 1) * w * ipow(k - 2), S(k) * ipow(k - 1), S(0));
  check_all(h, "pow integer", f, r, {vb, vw}, m, true);
}
#define B_PI "w*pow(b,k), k in -3..5, b any real (nonzero for k<2), w any real"
HARNESS(a02_pow_integer, B_PI) { pow_int_grad(h, GRAD); }
HARNESS(a04_pow_integer, B_PI) { pow_int_grad(h, HESS); }

// 3-argument hypot and scalar overloads
HARNESS(a01_hypot3_and_overloads, "hypot of three arguments; mixed scalar/variable overloads; compound assignment; all reals") {
  S x = h.real("x"), y = h.real("y"), z = h.real("z");
  using std::sqrt, std::atan2;
  V vx = dvar(x), vy = dvar(y), vz = dvar(z);
  int k = h.choose("k", 13);
  switch (k) {
    case 0: h.check_eq("hypot3", slp::hypot(vx, vy, vz).value(), sqrt(x * x + y * y + z * z)); break;
    case 1: h.check_eq("hypot(c,v)", slp::hypot(2.0, vy).value(), sqrt(S(4) + y * y)); break;
    case 2: h.check_eq("hypot(v,c)", slp::hypot(vx, 2.0).value(), sqrt(x * x + S(4))); break;
    case 3: h.check_eq("atan2(c,v)", slp::atan2(3.0, vx).value(), atan2(S(3), x)); break;
    case 4: h.check_eq("atan2(v,c)", slp::atan2(vx, 3.0).value(), atan2(x, S(3))); break;
    case 5: h.check_eq("max(c,v)", slp::max(3.0, vx).value(), x > S(3) ? x : S(3)); break;
    case 6: h.check_eq("max(v,c)", slp::max(vx, 3.0).value(), x > S(3) ? x : S(3)); break;
    case 7: h.check_eq("min(c,v)", slp::min(3.0, vx).value(), x < S(3) ? x : S(3)); break;
    case 8: h.check_eq("min(v,c)", slp::min(vx, 3.0).value(), x < S(3) ? x : S(3)); break;
    case 9: {
      h.assume_lt(S(0), x);
      using std::pow;
      h.check_eq("pow(c,v)", slp::pow(3.0, vy).value(), pow(S(3), y));
      h.check_eq("pow(v,c)", slp::pow(vx, 1.25).value(), pow(x, S(1.25)));
      break;
    }
    case 10: {
      V a = vx;
      a += vy;
      a *= vz;
      a -= vx;
      h.check_eq("compound", a.value(), (x + y) * z - x);
      h.check_eq("operand unchanged", vx.value(), x);
      break;
    }
    case 11: {
      h.assume_ne(y, S(0));
      V a = vx;
      a /= vy;
      a += 2.5;
      a = 3.0 * a - 1.0 + a / 2.0;
      h.check_eq("compound2", a.value(), S(3.5) * (x / y + S(2.5)) - S(1));
      break;
    }
    case 12: {
      V a = vx;
      a = 7.25;
      h.check_eq("assign scalar", a.value(), S(7.25));
      h.check_eq("assign scalar keeps source", vx.value(), x);
      V b = vx * vy;
      S b1 = b.value();
      h.check_eq("before", b1, x * y);
      b = 2;
      h.check_eq("assign after value", b.value(), S(2));
      b = vy + vz;
      h.check_eq("reassign after value", b.value(), y + z);
      break;
    }
  }
}

// unary of binary
static void un_of_bin(H& h, Mode mode) {
  int op = h.choose("shard", NUN);
  int b = h.choose("inner", NBIN);
  if (mode == HESS && (b == POW || b == ATAN2 || b == HYPOT) && !h.thorough()) h.assume(false);
  S x = h.real("x"), y = h.real("y");
  bin_domain(h, b, x, y);
  V vx = dvar(x), vy = dvar(y);
  Jet in = bin_ref(b, Jet::var(x, 0), Jet::var(y, 1), mode == VALUE);
  un_domain(h, op, in.v, mode != VALUE);
  check_all(h, std::string(un_names[op]) + "(" + bin_names[b] + ")", un_apply(op, bin_apply(b, vx, vy)), un_ref(op, in, mode == VALUE), {vx, vy}, mode, false);
}
#define B_UB "every unary operator applied to every binary operator of two variables; all reals in the domain"
HARNESS_SHARDED(a01_unary_of_binary, NUN, B_UB) { un_of_bin(h, VALUE); }
HARNESS_SHARDED(a02_unary_of_binary, NUN, B_UB) { un_of_bin(h, GRAD); }
HARNESS_SHARDED(a04_unary_of_binary, NUN, B_UB " (Hessians of compositions with pow/atan2/hypot: thorough only)") { un_of_bin(h, HESS); }

// binary of unaries
static void bin_of_un(H& h, Mode mode) {
  int op = h.choose("shard", NBIN);
  static const int us[] = {NEG, ABS, SIN, EXP, SQRT, LOG, SIGN, POW2, CBRT, ATAN};
  int ua = us[h.choose("left", 10)];
  int ub = us[h.choose("right", 10)];
  bool same = h.flip("same argument");
  S x = h.real("x"), y = h.real("y");
  V vx = dvar(x), vy = dvar(y);
  un_domain(h, ua, x);
  S yy = same ? x : y;
  un_domain(h, ub, yy);
  Jet a = un_ref(ua, Jet::var(x, 0), mode == VALUE), b = un_ref(ub, same ? Jet::var(x, 0) : Jet::var(y, 1), mode == VALUE);
  bin_domain(h, op, a.v, b.v);
  check_all(h, std::string(bin_names[op]) + "(" + un_names[ua] + "," + un_names[ub] + ")", bin_apply(op, un_apply(ua, vx), un_apply(ub, same ? vx : vy)), bin_ref(op, a, b, mode == VALUE), {vx, vy}, mode, false);
}
#define B_BU "every binary operator applied to 10x10 unary functions of two variables or of one shared variable"
HARNESS_SHARDED(a01_binary_of_unary, NBIN, B_BU) { bin_of_un(h, VALUE); }
HARNESS_X(a02_binary_of_unary, NBIN, false, B_BU) { bin_of_un(h, GRAD); }
HARNESS_X(a04_binary_of_unary, NBIN, true, B_BU) { bin_of_un(h, HESS); }
