// Harness-side stand-ins for what surrounds a solver: the user's problem as an
// oracle (arbitrary values at every distinct point), the linear solver
// specified by what it must achieve, and a recorder of everything shown to the
// user's callback.
#pragma once
#include "jet.hpp"

#include <sleipnir/optimization/solver/util/regularized_ldlt.hpp>

using DV = Eigen::Vector<S, Eigen::Dynamic>;
using DM = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
using SM = Eigen::SparseMatrix<S>;
using SV = Eigen::SparseVector<S>;
using symx::H;

inline bool same_term(const S& a, const S& b) {
#ifdef SYMX_REPLAY
  return a.v == b.v || (a.v != a.v && b.v != b.v);
#else
  if (a.tag != b.tag) return false;
  return a.tag == symx::TAG_NODE ? a.id == b.id : a.c == b.c || (a.c != a.c && b.c != b.c);
#endif
}

// Choices of the environment; a second run on the same path repeats them.
inline std::map<std::string, int>* repeat = nullptr;
inline int pick(H& h, const std::string& name, int n) {
  if (!repeat) return h.choose(name, n);
  auto it = repeat->find(name);
  return it != repeat->end() ? it->second : (*repeat)[name] = h.choose(name, n);
}

// Linear systems: any answer at all, the exact answer (Cramer), or any answer
// that satisfies the system.
struct Lin {
  enum Mode { ANY, EXACT, SATISFY } mode = ANY;
  H* h = nullptr;
  bool may_fail = false, failed = false;
  int computes = 0, solves = 0;
  S delta = S(0), gamma = S(0);  // reported regularization
  int n = -1, m = -1;  // variables and constraints of the systems, if fixed
  std::function<void(const DV&)> after;  // told every answer (may assume)
};
inline Lin lin;

namespace slp {
template <>
class RegularizedLDLT<S> {
 public:
  RegularizedLDLT(bool, int n, int m, S = S(0)) : k{n + m} {
    if (lin.n >= 0) {
      lin.h->eq("variables of the systems", n, lin.n);
      lin.h->eq("constraints of the systems", m, lin.m);
    }
  }
  Eigen::ComputationInfo info() const { return failed ? Eigen::NumericalIssue : Eigen::Success; }
  RegularizedLDLT& compute(const SM& lhs) {
    ++lin.computes;
    lin.h->eq("system size", lhs.rows(), k);
    lin.h->eq("system size", lhs.cols(), k);
    failed = lin.may_fail && pick(*lin.h, "factorization fails " + std::to_string(lin.computes), 2);
    if (failed) lin.failed = true;
    A = DM(lhs);
    for (int i = 0; i < k; ++i)
      for (int j = 0; j < i; ++j) A(j, i) = A(i, j);
    return *this;
  }
  template <typename R>
  DV solve(const Eigen::MatrixBase<R>& rhs) const {
    return go(DV(rhs));
  }
  template <typename R>
  DV solve(const Eigen::SparseMatrixBase<R>& rhs) const {
    return go(DV(SV(rhs)));
  }
  S hessian_regularization() const { return lin.delta; }
  S constraint_jacobian_regularization() const { return lin.gamma; }

 private:
  int k;
  bool failed = false;
  DM A;
  static S det(const DM& m) {
    if (m.rows() == 0) return S(1);
    if (m.rows() == 1) return m(0, 0);
    if (m.rows() == 2) return m(0, 0) * m(1, 1) - m(0, 1) * m(1, 0);
    return m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1)) - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0)) +
           m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0));
  }
#ifdef SYMX_REPLAY
  bool satisfies(const DV& b, const DV& p) const {
    for (int i = 0; i < k; ++i) {
      double r = b(i).v, scale = 1 + std::fabs(r);
      for (int j = 0; j < k; ++j) {
        double t = A(i, j).v * p(j).v;
        r -= t;
        scale += std::fabs(t);
      }
      if (!(std::fabs(r) <= 1e-11 * scale)) return false;
    }
    return true;
  }
  DV eliminate(DV b) const {
    DM M = A;
    for (int c = 0; c < k; ++c) {
      int q = c;
      for (int i = c + 1; i < k; ++i)
        if (std::fabs(M(i, c).v) > std::fabs(M(q, c).v)) q = i;
      for (int j = 0; j < k; ++j) std::swap(M(c, j), M(q, j));
      std::swap(b(c), b(q));
      if (M(c, c).v == 0) return b;
      for (int i = 0; i < k; ++i) {
        if (i == c) continue;
        double w = M(i, c).v / M(c, c).v;
        for (int j = c; j < k; ++j) M(i, j) = S(M(i, j).v - w * M(c, j).v);
        b(i) = S(b(i).v - w * b(c).v);
      }
    }
    for (int i = 0; i < k; ++i) b(i) = S(b(i).v / M(i, i).v);
    return b;
  }
#endif
  DV go(const DV& b) const {
    ++lin.solves;
    DV p(k);
    if (lin.mode == Lin::EXACT) {
      S d = det(A);
      lin.h->assume_ne(d, S(0));
      for (int i = 0; i < k; ++i) {
        DM M = A;
        M.col(i) = b;
        p(i) = det(M) / d;
      }
    } else {
      for (int i = 0; i < k; ++i) {
        p(i) = lin.h->real("p" + std::to_string(lin.solves) + "_" + std::to_string(i));
      }
    }
    if (lin.mode == Lin::SATISFY) {
#ifdef SYMX_REPLAY
      // A counterexample's step satisfies the system over the reals; here it
      // need only do so up to rounding, and is recomputed if it does not.
      if (!satisfies(b, p)) {
        p = eliminate(b);
        lin.h->assume(satisfies(b, p));
      }
#else
      for (int i = 0; i < k; ++i) {
        S r = b(i);
        for (int j = 0; j < k; ++j) r = r - A(i, j) * p(j);
        lin.h->assume_le(r, S(0));
        lin.h->assume_le(S(0), r);
      }
#endif
    }
    if (lin.after) lin.after(p);
    return p;
  }
};
}  // namespace slp

// The user's problem.
struct Model {
  H& h;
  int n, me, mi;
  int max_pts;                 // paths visiting more distinct points are dropped
  int nonfinite = 0;           // bit set of what may be non-finite, see nf()
  int nonfinite_from = 0;      // first point index at which it may be
  bool fixed_jacobians = true; // constraint Jacobians from a constant table
  int fixed_from = 1 << 30;    // ... and so from this point on
  bool all_after = false;      // nonfinite everywhere after nonfinite_from
  int nonfinite_to = 1 << 30;  // last point index at which it may be
  int terrible_from = 1 << 30; // from this point on: huge cost and violation
  std::vector<DV> pts;
  struct V {
    bool hf = false, hg = false, hce = false, hci = false, hAe = false, hAi = false;
    S f;
    DV g, ce, ci;
    DM Ae, Ai;
    int bad = 0;
  };
  std::vector<V> vals;
  struct HArgs {
    int k;
    DV y, z;
    DM H;
  };
  std::vector<HArgs> hcalls;
  // The first point's values and Hessian are given numbers.
  void known_start() {
    known = true;
    vals.resize(1);
    V& v = vals[0];
    v.hf = v.hg = v.hce = v.hci = v.hAe = v.hAi = true;
    v.f = S(3);
    v.g.resize(n), v.ce.resize(me), v.ci.resize(mi), v.Ae.resize(me, n), v.Ai.resize(mi, n);
    for (int i = 0; i < n; ++i) v.g(i) = S(i ? -0.25 : 1.5);
    for (int i = 0; i < me; ++i) v.ce(i) = S(0.25 + i);
    for (int i = 0; i < mi; ++i) v.ci(i) = S(1.125 + i);
    for (int j = 0; j < n; ++j) {
      for (int i = 0; i < me; ++i) v.Ae(i, j) = S(i == j ? 1 : 0.5);
      for (int i = 0; i < mi; ++i) v.Ai(i, j) = S(i == j ? -0.5 : 0.25);
    }
  }
  bool known = false;
  bool convex = false;  // H >= 1 on the diagonal, no coupling
  Model(H& h_, int n_, int me_, int mi_, int mp) : h{h_}, n{n_}, me{me_}, mi{mi_}, max_pts{mp} {}
  std::string at(const char* w, int k, int i = -1, int j = -1) {
    std::string r = std::string(w) + "@" + std::to_string(k);
    if (i >= 0) r += "_" + std::to_string(i);
    if (j >= 0) r += std::to_string(j);
    return r;
  }
  int find(const DV& x) const {
    for (size_t k = 0; k < pts.size(); ++k) {
      bool eq = true;
      for (int i = 0; i < n; ++i) eq = eq && same_term(pts[k](i), x(i));
      if (eq) return static_cast<int>(k);
    }
    return -1;
  }
  int idx(const DV& x) {
    h.eq("point size", x.size(), n);
    int k = find(x);
    if (k >= 0) return k;
    if (static_cast<int>(pts.size()) >= max_pts) h.assume(false);
    // Distinct terms denote distinct points (coincidences are not explored; not
    // imposed on long line searches, where it only costs time).
    if (n == 1 && max_pts <= 4)
      for (auto& p : pts) h.assume_ne(p(0), x(0));
    pts.push_back(x);
    if (pts.size() > vals.size()) vals.emplace_back();
    k = static_cast<int>(pts.size()) - 1;
    if (nonfinite && k >= nonfinite_from && k <= nonfinite_to) {
      // one kind of non-finite answer per point
      std::vector<int> kinds{0};
      for (int b = 0; b < 7; ++b)
        if (nonfinite >> b & 1) kinds.push_back(b + 1);
      vals[k].bad = all_after ? kinds[1] : kinds[pick(h, at("nonfinite", k), static_cast<int>(kinds.size()))];
    }
    return k;
  }
  static S bad_value(int k) {
    return k % 2 ? S(std::numeric_limits<double>::infinity()) : S(std::numeric_limits<double>::quiet_NaN());
  }
  S f(const DV& x) {
    int k = idx(x);
    if (!vals[k].hf) vals[k].hf = true, vals[k].f = vals[k].bad == 1 ? bad_value(k) : k >= terrible_from ? S(1e30) : h.real(at("f", k));
    return vals[k].f;
  }
  const DV& g(const DV& x) {
    int k = idx(x);
    V& v = vals[k];
    if (!v.hg) {
      v.hg = true;
      v.g.resize(n);
      for (int i = 0; i < n; ++i) v.g(i) = v.bad == 4 && i == n - 1 ? bad_value(k) : h.real(at("g", k, i));
    }
    return v.g;
  }
  const DV& ce(const DV& x) {
    int k = idx(x);
    V& v = vals[k];
    if (!v.hce) {
      v.hce = true;
      v.ce.resize(me);
      for (int i = 0; i < me; ++i) v.ce(i) = v.bad == 2 && i == me - 1 ? bad_value(k) : k >= terrible_from ? S(1e30) : h.real(at("ce", k, i));
    }
    return v.ce;
  }
  const DV& ci(const DV& x) {
    int k = idx(x);
    V& v = vals[k];
    if (!v.hci) {
      v.hci = true;
      v.ci.resize(mi);
      for (int i = 0; i < mi; ++i) v.ci(i) = v.bad == 3 && i == mi - 1 ? bad_value(k) : k >= terrible_from ? S(-1e30) : h.real(at("ci", k, i));
    }
    return v.ci;
  }
  static double table(int which, int k, int i, int j) {
    static const double t[] = {1, -2, 0.5, 3, -1, 2, -0.5, 1.5};
    return t[(which * 3 + k * 5 + i * 2 + j * 3) % 8];
  }
  S jac(const char* w, int which, int k, int i, int j) {
    return fixed_jacobians || k >= fixed_from ? S(table(which, k, i, j)) : h.real(at(w, k, i, j));
  }
  const DM& Ae(const DV& x) {
    int k = idx(x);
    V& v = vals[k];
    if (!v.hAe) {
      v.hAe = true;
      v.Ae.resize(me, n);
      for (int i = 0; i < me; ++i)
        for (int j = 0; j < n; ++j) v.Ae(i, j) = v.bad == 5 && j == n - 1 ? bad_value(k) : jac("Ae", 0, k, i, j);
    }
    return v.Ae;
  }
  const DM& Ai(const DV& x) {
    int k = idx(x);
    V& v = vals[k];
    if (!v.hAi) {
      v.hAi = true;
      v.Ai.resize(mi, n);
      for (int i = 0; i < mi; ++i)
        for (int j = 0; j < n; ++j) v.Ai(i, j) = v.bad == 6 && j == n - 1 ? bad_value(k) : jac("Ai", 1, k, i, j);
    }
    return v.Ai;
  }
  SM Hs(const DV& x, const DV& y, const DV& z) {
    int k = idx(x);
    int c = static_cast<int>(hcalls.size());
    DM M = DM::Zero(n, n);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j <= i; ++j) {
        if (convex && i != j) continue;
        S v = known && c == 0 ? S(i == j ? 2 : 0.5) : vals[k].bad == 7 ? bad_value(k) : h.real(at("H", c, i, j));
        if (convex) h.assume_le(S(1), v);
        M(i, j) = v;
      }
    hcalls.push_back({k, y, z, M});
    return sp(M, true);
  }
  static SM sp(const DM& M, bool lower = false) {
    SM r(M.rows(), M.cols());
    for (int j = 0; j < M.cols(); ++j)
      for (int i = lower ? j : 0; i < M.rows(); ++i) r.insert(i, j) = M(i, j);
    r.makeCompressed();
    return r;
  }
  static SV spv(const DV& v) {
    SV r(v.size());
    for (int i = 0; i < v.size(); ++i) r.insert(i) = v(i);
    return r;
  }
};
