// symx engine: term DAG, path exploration by re-execution, Z3 queries.
#include "harness.hpp"

#include <z3++.h>

#include <boost/multiprecision/cpp_int.hpp>
#include <chrono>
#include <time.h>
#include <cstring>
#include <deque>
#include <fstream>
#include <iostream>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <unordered_map>

#include <signal.h>
#include <sys/time.h>
#include <unistd.h>

namespace symx {

using Rat = boost::multiprecision::cpp_rational;
using boost::multiprecision::cpp_int;
// Own monotonic clock: harnesses may replace std::chrono::steady_clock::now().
struct clk {
  using duration = std::chrono::nanoseconds;
  using rep = duration::rep;
  using period = duration::period;
  using time_point = std::chrono::time_point<clk>;
  static constexpr bool is_steady = true;
  static time_point now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return time_point(std::chrono::seconds(t.tv_sec) + std::chrono::nanoseconds(t.tv_nsec));
  }
};
static double secs(clk::time_point t) { return std::chrono::duration<double>(clk::now() - t).count(); }

enum class Op : uint8_t { CONST, VAR, ADD, MUL, DIV, SQRT, CBRT, ABS, MAX, MIN, UF1, UF2 };
struct Node {
  Op op;
  int a = -1, b = -1;
  Rat k;
  int name = -1;
};

static std::vector<Node> N;
static std::vector<std::string> names;
static std::unordered_map<std::string, int> name_ids;
struct Key {
  Op op;
  int a, b, name;
  bool operator==(const Key&) const = default;
};
struct KeyHash {
  size_t operator()(const Key& k) const {
    return ((size_t)k.op * 1000003u) ^ ((size_t)(unsigned)k.a * 0x9E3779B97F4A7C15ull) ^
           ((size_t)(unsigned)k.b * 0xC2B2AE3D27D4EB4Full) ^ ((size_t)(unsigned)k.name * 0x165667B19E3779F9ull);
  }
};
static std::unordered_map<Key, int, KeyHash> table;
static std::map<Rat, int> const_table;
static std::recursive_mutex mtx;

static int intern_name(const std::string& s) {
  auto it = name_ids.find(s);
  if (it != name_ids.end()) return it->second;
  int id = (int)names.size();
  names.push_back(s);
  name_ids[s] = id;
  return id;
}
static int mk(Op op, int a, int b = -1, int name = -1) {
  Key k{op, a, b, name};
  auto it = table.find(k);
  if (it != table.end()) return it->second;
  int id = (int)N.size();
  Node n;
  n.op = op;
  n.a = a;
  n.b = b;
  n.name = name;
  N.push_back(n);
  table[k] = id;
  return id;
}
static int mkc(const Rat& r) {
  auto it = const_table.find(r);
  if (it != const_table.end()) return it->second;
  int id = (int)N.size();
  Node n;
  n.op = Op::CONST;
  n.k = r;
  N.push_back(n);
  const_table[r] = id;
  return id;
}
static bool isc(int i) { return N[i].op == Op::CONST; }
static bool isc(int i, int v) { return N[i].op == Op::CONST && N[i].k == v; }

static Rat rat_of(double d) {
  // exact
  if (d == 0) return Rat(0);
  int e;
  double m = std::frexp(d, &e);
  int64_t mi = (int64_t)std::ldexp(m, 53);
  e -= 53;
  while (!(mi & 1)) {
    mi >>= 1;
    ++e;
  }
  if (e >= 0) return Rat(cpp_int(mi) << e);
  return Rat(cpp_int(mi), cpp_int(1) << -e);
}
static double rat_to_double(const Rat& r) { return r.convert_to<double>(); }

static int n_mul(int a, int b);
static int n_add(int a, int b) {
  if (isc(a) && isc(b)) return mkc(N[a].k + N[b].k);
  if (isc(a, 0)) return b;
  if (isc(b, 0)) return a;
  // x + (-1)*x and c1*x + c2*x
  auto split = [](int x) -> std::pair<Rat, int> {
    if (N[x].op == Op::MUL && isc(N[x].a)) return {N[N[x].a].k, N[x].b};
    return {Rat(1), x};
  };
  if (!isc(a) && !isc(b)) {
    auto [ca, xa] = split(a);
    auto [cb, xb] = split(b);
    if (xa == xb) return n_mul(mkc(ca + cb), xa);
  }
  if (a > b) std::swap(a, b);
  return mk(Op::ADD, a, b);
}
static int n_mul(int a, int b) {
  if (isc(a) && isc(b)) return mkc(N[a].k * N[b].k);
  if (isc(b)) std::swap(a, b);
  if (isc(a)) {
    if (isc(a, 0)) return a;
    if (isc(a, 1)) return b;
    if (N[b].op == Op::MUL && isc(N[b].a)) return n_mul(mkc(N[a].k * N[N[b].a].k), N[b].b);
    return mk(Op::MUL, a, b);
  }
  // pull constants out
  if (N[a].op == Op::MUL && isc(N[a].a)) return n_mul(N[a].a, n_mul(N[a].b, b));
  if (N[b].op == Op::MUL && isc(N[b].a)) return n_mul(N[b].a, n_mul(a, N[b].b));
  if (a > b) std::swap(a, b);
  return mk(Op::MUL, a, b);
}
static int n_neg(int a) { return n_mul(mkc(Rat(-1)), a); }
static int n_sub(int a, int b) { return n_add(a, n_neg(b)); }
// b is known nonzero on the current path
static int n_div(int a, int b) {
  if (isc(b)) return n_mul(mkc(Rat(1) / N[b].k), a);
  if (isc(a, 0)) return a;
  if (a == b) return mkc(1);
  if (N[b].op == Op::MUL && isc(N[b].a)) return n_mul(mkc(Rat(1) / N[N[b].a].k), n_div(a, N[b].b));
  if (N[a].op == Op::MUL && isc(N[a].a)) return n_mul(N[a].a, n_div(N[a].b, b));
  return mk(Op::DIV, a, b);
}

// ---------------------------------------------------------------- rational form
struct RF {
  int num;
  std::vector<std::pair<int, int>> den;  // sorted (factor node, exponent)
};
static std::unordered_map<int, RF> rf_memo;
static int prod(const std::vector<std::pair<int, int>>& d) {
  int r = mkc(1);
  for (auto [f, e] : d)
    for (int i = 0; i < e; ++i) r = n_mul(r, f);
  return r;
}
static void den_add(std::vector<std::pair<int, int>>& d, int f, int e) {
  for (auto& x : d)
    if (x.first == f) {
      x.second += e;
      return;
    }
  d.push_back({f, e});
  std::sort(d.begin(), d.end());
}
static void flatten(int n, std::vector<int>& out, Rat& k) {
  if (N[n].op == Op::MUL) {
    flatten(N[n].a, out, k);
    flatten(N[n].b, out, k);
  } else if (isc(n)) {
    k *= N[n].k;
  } else {
    out.push_back(n);
  }
}
static RF cancel(RF r) {
  if (r.den.empty()) return r;
  if (isc(r.num, 0)) return RF{r.num, {}};
  Rat k(1);
  std::vector<int> fs;
  flatten(r.num, fs, k);
  bool any = false;
  for (auto& f : fs) {
    for (auto& d : r.den)
      if (d.first == f && d.second > 0) {
        d.second--;
        f = -1;
        any = true;
        break;
      }
  }
  if (!any) return r;
  RF o;
  o.num = mkc(k);
  for (int f : fs)
    if (f >= 0) o.num = n_mul(o.num, f);
  for (auto& d : r.den)
    if (d.second > 0) o.den.push_back(d);
  return o;
}
static const RF& rf(int n) {
  auto it = rf_memo.find(n);
  if (it != rf_memo.end()) return it->second;
  RF r;
  Node nd = N[n];
  switch (nd.op) {
    case Op::ADD: {
      RF x = rf(nd.a), y = rf(nd.b);
      if (x.den == y.den) {
        r.num = n_add(x.num, y.num);
        r.den = x.den;
      } else {
        std::vector<std::pair<int, int>> l = x.den, mx, my;
        for (auto [f, e] : y.den) {
          bool f1 = false;
          for (auto& d : l)
            if (d.first == f) {
              d.second = std::max(d.second, e);
              f1 = true;
            }
          if (!f1) l.push_back({f, e});
        }
        std::sort(l.begin(), l.end());
        auto missing = [&](const std::vector<std::pair<int, int>>& d) {
          std::vector<std::pair<int, int>> m;
          for (auto [f, e] : l) {
            int have = 0;
            for (auto [g, q] : d)
              if (g == f) have = q;
            if (e > have) m.push_back({f, e - have});
          }
          return m;
        };
        r.num = n_add(n_mul(x.num, prod(missing(x.den))), n_mul(y.num, prod(missing(y.den))));
        r.den = l;
      }
      break;
    }
    case Op::MUL: {
      RF x = rf(nd.a), y = rf(nd.b);
      r.num = n_mul(x.num, y.num);
      r.den = x.den;
      for (auto [f, e] : y.den) den_add(r.den, f, e);
      r = cancel(r);
      break;
    }
    case Op::DIV: {
      RF x = rf(nd.a), y = rf(nd.b);
      Rat k(1);
      std::vector<int> fs;
      flatten(y.num, fs, k);
      r.num = n_mul(x.num, n_mul(mkc(Rat(1) / k), prod(y.den)));
      r.den = x.den;
      for (int f : fs) den_add(r.den, f, 1);
      r = cancel(r);
      break;
    }
    default:
      r.num = n;
  }
  return rf_memo[n] = r;
}

// ------------------------------------------------------------------ z3 encoding
static z3::context* Z;
static std::unordered_map<int, z3::expr> zmemo;
static z3::expr zrat(const Rat& r) {
  std::string s = numerator(r).str() + "/" + denominator(r).str();
  return Z->real_val(s.c_str());
}
static z3::expr zx(int n) {  // division-free node
  auto it = zmemo.find(n);
  if (it != zmemo.end()) return it->second;
  const Node nd = N[n];
  z3::expr e(*Z);
  switch (nd.op) {
    case Op::CONST: e = zrat(nd.k); break;
    case Op::VAR: e = Z->real_const(("v_" + names[nd.name]).c_str()); break;
    case Op::ADD: e = zx(nd.a) + zx(nd.b); break;
    case Op::MUL: e = zx(nd.a) * zx(nd.b); break;
    case Op::DIV: {
      fprintf(stderr, "symx: division in division-free term\n");
      abort();
    }
    default: e = Z->real_const(("a_" + std::to_string(n)).c_str());
  }
  zmemo.emplace(n, e);
  return e;
}
enum Rel { LT, LE, EQ };  // relation of d to 0
// truth of (d rel 0) as a polynomial constraint; den factors are nonzero
static z3::expr zrel(Rel rel, int d) {
  const RF r = rf(d);
  if (rel == EQ) return zx(r.num) == 0;
  int n = r.num;
  for (auto [f, e] : r.den)
    if (e % 2) n = n_mul(n, f);
  return rel == LT ? zx(n) < 0 : zx(n) <= 0;
}
// atoms appearing (transitively) in node
static std::unordered_map<int, std::vector<int>> atom_memo;
static const std::vector<int>& atoms(int n) {
  auto it = atom_memo.find(n);
  if (it != atom_memo.end()) return it->second;
  const Node nd = N[n];
  std::vector<int> r;
  auto merge = [&](const std::vector<int>& o) {
    std::vector<int> t;
    std::set_union(r.begin(), r.end(), o.begin(), o.end(), std::back_inserter(t));
    r.swap(t);
  };
  if (nd.a >= 0) merge(atoms(nd.a));
  if (nd.b >= 0) merge(atoms(nd.b));
  if (nd.op != Op::CONST && nd.op != Op::ADD && nd.op != Op::MUL && nd.op != Op::DIV) merge({n});
  return atom_memo[n] = r;
}
static int uf1(const char* nm, int a) { return mk(Op::UF1, a, -1, intern_name(nm)); }

static void axioms_for(int n, std::vector<z3::expr>& out) {
  const Node nd = N[n];
  z3::expr s = zx(n);
  switch (nd.op) {
    case Op::SQRT: {
      out.push_back(s >= 0);
      out.push_back(zrel(EQ, n_sub(n_mul(n, n), nd.a)));
      break;
    }
    case Op::CBRT: out.push_back(zrel(EQ, n_sub(n_mul(n, n_mul(n, n)), nd.a))); break;
    case Op::ABS:
      out.push_back(s >= 0);
      out.push_back(zrel(EQ, n_sub(n, nd.a)) || zrel(EQ, n_add(n, nd.a)));
      break;
    case Op::MAX:
      out.push_back(zrel(LE, n_sub(nd.a, n)));
      out.push_back(zrel(LE, n_sub(nd.b, n)));
      out.push_back(zrel(EQ, n_sub(nd.a, n)) || zrel(EQ, n_sub(nd.b, n)));
      break;
    case Op::MIN:
      out.push_back(zrel(LE, n_sub(n, nd.a)));
      out.push_back(zrel(LE, n_sub(n, nd.b)));
      out.push_back(zrel(EQ, n_sub(nd.a, n)) || zrel(EQ, n_sub(nd.b, n)));
      break;
    case Op::UF1: {
      const std::string& nm = names[nd.name];
      auto at = [&](double x, const Rat& v) { out.push_back(z3::implies(zrel(EQ, n_sub(nd.a, mkc(rat_of(x)))), s == zrat(v))); };
      if (nm == "sin" || nm == "asin" || nm == "atan" || nm == "erf") at(0, Rat(0));
      if (nm == "cos") at(0, Rat(1));
      if (nm == "log10") {
        at(1, Rat(0));
        at(10, Rat(1));
      }
      if (nm == "acos") {
        at(0, rat_of(std::acos(0.0)));
        at(1, Rat(0));
      }
      if (nm == "exp") {
        out.push_back(s > 0);
        out.push_back((s > 1) == zrel(LT, n_neg(nd.a)));
        out.push_back((s < 1) == zrel(LT, nd.a));
      } else if (nm == "log") {
        out.push_back((s > 0) == zrel(LT, n_sub(mkc(1), nd.a)));
        out.push_back((s < 0) == zrel(LT, n_sub(nd.a, mkc(1))));
      } else if (nm == "sin") {
        z3::expr c = zx(uf1("cos", nd.a));
        out.push_back(s * s + c * c == 1);
      } else if (nm == "cos") {
        z3::expr c = zx(uf1("sin", nd.a));
        out.push_back(s * s + c * c == 1);
      } else if (nm == "atan" || nm == "asin") {
        out.push_back((s > 0) == zrel(LT, n_neg(nd.a)));
        out.push_back((s < 0) == zrel(LT, nd.a));
      } else if (nm == "erf") {
        out.push_back((s > 0) == zrel(LT, n_neg(nd.a)));
        out.push_back((s < 0) == zrel(LT, nd.a));
        out.push_back(s < 1 && s > -1);
      }
      break;
    }
    case Op::UF2:
      if (names[nd.name] == "pow") {  // base > 0 on every path that builds it
        out.push_back(s > 0);
        auto eq = [&](int n, int v) { return zrel(EQ, n_sub(n, mkc(v))); };
        out.push_back(z3::implies(eq(nd.a, 1) || eq(nd.b, 0), s == 1));
        out.push_back(z3::implies(eq(nd.b, 1), zrel(EQ, n_sub(n, nd.a))));
        out.push_back(z3::implies(eq(nd.b, 2), zrel(EQ, n_sub(n, n_mul(nd.a, nd.a)))));
        out.push_back(z3::implies(eq(nd.b, -1), zrel(EQ, n_sub(n_mul(n, nd.a), mkc(1)))));
      } else if (names[nd.name] == "atan2") {
        z3::expr y0 = zrel(EQ, nd.a), xp = zrel(LT, n_neg(nd.b));
        out.push_back(z3::implies(y0 && xp, s == 0));
      }
      break;
    default: break;
  }
}

// ---------------------------------------------------------------- path state
struct Cond {
  Rel rel;
  int d;
  bool pos;
  bool operator==(const Cond&) const = default;
  auto operator<=>(const Cond&) const = default;
};
struct Decision {
  int val;
  int kind;  // 0 branch, 1 choose
};
struct Stats {
  long paths = 0, killed = 0, truncated = 0, exceptions = 0;
  long witness = 0;
  long queries = 0, q_sat = 0, q_unsat = 0, q_unknown = 0;
  long branch_queries = 0, branch_unknown = 0;
  double solver_s = 0;
};
static Stats st;
struct LabelStat {
  long evaluated = 0, discharged = 0, trivial = 0, unknown = 0, refuted = 0;
};
static std::map<std::string, LabelStat> labels;
static std::map<std::string, long> reached;

static std::vector<Decision> prefix;  // to replay
static std::vector<Decision> trace;   // taken on this path
static std::vector<std::vector<Decision>> worklist;
static std::vector<Cond> pc;
static std::map<std::pair<int, int>, bool> known;  // (rel,d) -> truth on this path
static std::map<std::string, int> path_choices;
static std::vector<std::pair<std::string, int>> path_inputs;  // name, node
static std::set<std::string> path_reached;
static int max_decisions = 4000;
static unsigned feas_timeout = 3000, check_timeout = 20000;
static bool g_thorough = false;
static int shard = -1;
static volatile bool in_solver = false;
static std::string cur_harness;
static clk::time_point path_t0, harness_t0;
static double harness_budget = 300;

struct Candidate {
  std::string label, kind, note;
  std::map<std::string, double> inputs;
  std::map<std::string, int> choices;
};
static std::vector<Candidate> cands;
static std::map<std::string, int> cand_count;

enum Res { UNSAT, SAT, UNK };
using Model = std::map<std::string, double>;

// Collect constraints relevant to seed atoms (constraint independence slicing)
static void relevant(const std::vector<int>& seed, const std::vector<Cond>& all, std::vector<Cond>& out,
                     std::set<int>& atomset) {
  atomset.insert(seed.begin(), seed.end());
  std::vector<char> used(all.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < all.size(); ++i) {
      if (used[i]) continue;
      const auto& a = atoms(all[i].d);
      bool hit = false;
      for (int x : a)
        if (atomset.count(x)) {
          hit = true;
          break;
        }
      if (hit) {
        used[i] = 1;
        ch = true;
        atomset.insert(a.begin(), a.end());
        out.push_back(all[i]);
      }
    }
    // sin/cos siblings
    std::vector<int> add;
    for (int a : atomset)
      if (N[a].op == Op::UF1) {
        const std::string& nm = names[N[a].name];
        if (nm == "sin") add.push_back(uf1("cos", N[a].a));
        if (nm == "cos") add.push_back(uf1("sin", N[a].a));
      }
    for (int a : add)
      if (atomset.insert(a).second) {
        const auto& x = atoms(a);
        atomset.insert(x.begin(), x.end());
        ch = true;
      }
  }
}

static double num_to_double(const z3::expr& e) {
  if (e.is_numeral()) {
    std::string s = e.get_decimal_string(40);
    if (!s.empty() && s.back() == '?') s.pop_back();
    return strtod(s.c_str(), nullptr);
  }
  if (e.is_algebraic()) {
    std::string s = e.get_decimal_string(40);
    if (!s.empty() && s.back() == '?') s.pop_back();
    return strtod(s.c_str(), nullptr);
  }
  return 0;
}

static std::map<std::vector<int>, std::pair<Res, Model>> qcache;

// Is PC ∧ extra satisfiable?  extra conds are conjoined.
// Also: an optional disjunction-free list of raw z3 constraints.
static Res solve(const std::vector<Cond>& extra, unsigned timeout, Model* model, bool full_pc = false,
                 const std::vector<z3::expr>* raw = nullptr) {
  std::vector<Cond> cs;
  std::set<int> aset;
  std::vector<int> seed;
  for (auto& c : extra) {
    const auto& a = atoms(c.d);
    seed.insert(seed.end(), a.begin(), a.end());
  }
  if (full_pc) {
    for (auto& c : pc) {
      const auto& a = atoms(c.d);
      seed.insert(seed.end(), a.begin(), a.end());
    }
  }
  relevant(seed, pc, cs, aset);
  std::vector<int> key;
  if (!raw) {
    std::vector<Cond> kc = cs;
    kc.insert(kc.end(), extra.begin(), extra.end());
    std::sort(kc.begin(), kc.end());
    kc.erase(std::unique(kc.begin(), kc.end()), kc.end());
    for (auto& c : kc) {
      key.push_back(c.rel * 2 + c.pos);
      key.push_back(c.d);
    }
    auto it = qcache.find(key);
    if (it != qcache.end() && (!model || it->second.first != SAT || !it->second.second.empty())) {
      if (model) *model = it->second.second;
      return it->second.first;
    }
  }
  auto t0 = clk::now();
  in_solver = true;
  std::vector<z3::expr> cons;
  auto add = [&](const Cond& c) {
    z3::expr e = zrel(c.rel, c.d);
    cons.push_back(c.pos ? e : !e);
  };
  for (auto& c : cs) add(c);
  for (auto& c : extra) add(c);
  if (raw)
    for (auto& e : *raw) cons.push_back(e);
  // denominators of everything involved are nonzero
  std::set<int> dens;
  auto adddens = [&](int d) {
    for (auto [f, e] : rf(d).den) dens.insert(f);
  };
  for (auto& c : cs) adddens(c.d);
  for (auto& c : extra) adddens(c.d);
  std::vector<int> av(aset.begin(), aset.end());
  for (int a : av) {
    axioms_for(a, cons);
    if (N[a].a >= 0) adddens(N[a].a);
    if (N[a].b >= 0) adddens(N[a].b);
  }
  for (int f : dens) cons.push_back(zx(f) != 0);
  // congruence for uninterpreted functions
  for (size_t i = 0; i < av.size(); ++i)
    for (size_t j = i + 1; j < av.size(); ++j) {
      const Node x = N[av[i]], y = N[av[j]];
      if (x.op == y.op && (x.op == Op::UF1 || x.op == Op::UF2) && x.name == y.name) {
        z3::expr same = zrel(EQ, n_sub(x.a, y.a));
        if (x.op == Op::UF2) same = same && zrel(EQ, n_sub(x.b, y.b));
        const std::string& nm = names[x.name];
        if (x.op == Op::UF1 && (nm == "exp" || nm == "log" || nm == "erf" || nm == "atan")) {
          // strictly monotone
          cons.push_back(same == (zx(av[i]) == zx(av[j])));
          cons.push_back(zrel(LT, n_sub(x.a, y.a)) == (zx(av[i]) < zx(av[j])));
        } else {
          cons.push_back(z3::implies(same, zx(av[i]) == zx(av[j])));
          if (x.op == Op::UF2 && names[x.name] == "pow") {
            // pow(a, p + k) = a^k pow(a, p)
            z3::expr sb = zrel(EQ, n_sub(x.a, y.a));
            int ak = mkc(1);
            for (int k = 1; k <= 2; ++k) {
              ak = n_mul(ak, x.a);
              cons.push_back(z3::implies(sb && zrel(EQ, n_sub(n_sub(x.b, y.b), mkc(k))), zrel(EQ, n_sub(av[i], n_mul(ak, av[j])))));
              cons.push_back(z3::implies(sb && zrel(EQ, n_sub(n_sub(y.b, x.b), mkc(k))), zrel(EQ, n_sub(av[j], n_mul(ak, av[i])))));
            }
          }
        }
      }
    }
  Res r = UNK;
  Model m;
  auto run = [&](z3::solver& s, unsigned to) {
    z3::params p(*Z);
    p.set("timeout", to);
    s.set(p);
    for (auto& e : cons) s.add(e);
    try {
      auto c = s.check();
      if (c == z3::unsat) return UNSAT;
      if (c == z3::sat) {
        z3::model zm = s.get_model();
        for (int a : av)
          if (N[a].op == Op::VAR) {
            z3::expr v = zm.eval(zx(a), true);
            m[names[N[a].name]] = num_to_double(v);
          }
        return SAT;
      }
    } catch (z3::exception& e) {
      if (getenv("SYMX_DEBUG")) fprintf(stderr, "z3: %s\n", e.msg());
    }
    return UNK;
  };
  {
    z3::solver s(*Z, "QF_NRA");
    r = run(s, timeout / 2 + 1);
  }
  if (r == UNK) {
    z3::solver s = z3::solver(*Z);
    r = run(s, timeout / 2 + 1);
  }
  double dt = secs(t0);
  st.solver_s += dt;
  st.queries++;
  if (dt > 5 && getenv("SYMX_DEBUG")) fprintf(stderr, "slow query %.1fs res %d\n", dt, (int)r);
  (r == SAT ? st.q_sat : r == UNSAT ? st.q_unsat : st.q_unknown)++;
  in_solver = false;
  if (!raw) qcache[key] = {r, m};
  if (model) *model = m;
  return r;
}

static void budget() {
  if (secs(harness_t0) > harness_budget) throw PathTruncated{};
}

static bool branch(Rel rel, int d) {
  if (isc(d)) {
    const Rat& k = N[d].k;
    return rel == LT ? k < 0 : rel == LE ? k <= 0 : k == 0;
  }
  auto kk = std::make_pair((int)rel, d);
  auto it = known.find(kk);
  if (it != known.end()) return it->second;
  // normal form relations: d<0 / d<=0 / d==0 with negation counterpart
  int nd = n_neg(d);
  if (rel != EQ) {
    // d < 0  <=>  !( -d <= 0 )
    auto k2 = std::make_pair((int)(rel == LT ? LE : LT), nd);
    auto i2 = known.find(k2);
    if (i2 != known.end()) return !i2->second;
  } else {
    auto i2 = known.find(std::make_pair((int)EQ, nd));
    if (i2 != known.end()) return i2->second;
  }
  if ((int)trace.size() >= max_decisions) throw PathTruncated{};
  bool val;
  size_t k = trace.size();
  if (k < prefix.size()) {
    if (prefix[k].kind != 0) {
      fprintf(stderr, "symx: nondeterministic replay (branch vs choose)\n");
      abort();
    }
    val = prefix[k].val;
  } else {
    budget();
    st.branch_queries++;
    Res t = solve({{rel, d, true}}, feas_timeout, nullptr);
    Res f = t == UNSAT ? SAT : solve({{rel, d, false}}, feas_timeout, nullptr);
    if (t == UNK || f == UNK) st.branch_unknown++;
    if (t == UNSAT) {
      val = false;
    } else if (f == UNSAT) {
      val = true;
    } else {
      val = true;
      auto alt = trace;
      alt.push_back({0, 0});
      worklist.push_back(std::move(alt));
    }
  }
  trace.push_back({val, 0});
  pc.push_back({rel, d, val});
  known[kk] = val;
  return val;
}

// ---------------------------------------------------------------- Sym operations
static int nid(const Sym& s);
static Sym from_node(int n) {
  if (isc(n)) {
    double d = rat_to_double(N[n].k);
    if (std::isfinite(d) && rat_of(d) == N[n].k) return Sym(d);
  }
  return Sym::node(n);
}
int32_t mk_const_id(double c) { return mkc(rat_of(c)); }
static bool is_nan_s(const Sym& s) { return s.tag > TAG_NODE || (s.tag == TAG_CONST && std::isnan(s.c)) || (s.tag == TAG_NODE && (s.id < 0 || s.id >= (int)N.size())); }
static bool is_inf_s(const Sym& s) { return s.tag == TAG_CONST && std::isinf(s.c); }
static int nid(const Sym& s) {
  if (s.tag == TAG_NODE) return s.id;
  return mkc(rat_of(s.c));
}
static const double QNAN = std::numeric_limits<double>::quiet_NaN();
static const double INF = std::numeric_limits<double>::infinity();
static bool small_int(double d) { return std::fabs(d) < 67108864.0 && d == std::trunc(d); }
#define LOCK std::lock_guard<std::recursive_mutex> lock_(mtx)
// sign of a finite value (may fork)
static int sgn(const Sym& s) {
  if (s.tag == TAG_CONST) return s.c > 0 ? 1 : s.c < 0 ? -1 : 0;
  if (branch(LT, s.id)) return -1;
  if (branch(EQ, s.id)) return 0;
  return 1;
}

Sym op_add(const Sym& a, const Sym& b) {
  if (is_nan_s(a) || is_nan_s(b)) return Sym(QNAN);
  if (is_inf_s(a) || is_inf_s(b)) {
    if (is_inf_s(a) && is_inf_s(b)) return Sym(a.c + b.c);
    return is_inf_s(a) ? a : b;
  }
  if (a.tag == TAG_CONST && b.tag == TAG_CONST && small_int(a.c) && small_int(b.c)) return Sym(a.c + b.c + 0.0);
  LOCK;
  return from_node(n_add(nid(a), nid(b)));
}
Sym op_neg(const Sym& a) {
  if (is_nan_s(a)) return Sym(QNAN);
  if (a.tag == TAG_CONST) return Sym(-a.c);
  LOCK;
  return from_node(n_neg(a.id));
}
Sym op_sub(const Sym& a, const Sym& b) { return op_add(a, op_neg(b)); }
Sym op_mul(const Sym& a, const Sym& b) {
  if (is_nan_s(a) || is_nan_s(b)) return Sym(QNAN);
  if (is_inf_s(a) || is_inf_s(b)) {
    LOCK;
    if (is_inf_s(a) && is_inf_s(b)) return Sym(a.c * b.c);
    const Sym& i = is_inf_s(a) ? a : b;
    const Sym& f = is_inf_s(a) ? b : a;
    int s = sgn(f);
    return s == 0 ? Sym(QNAN) : s > 0 ? i : Sym(-i.c);
  }
  if (a.tag == TAG_CONST && b.tag == TAG_CONST && small_int(a.c) && small_int(b.c)) return Sym(a.c * b.c + 0.0);
  LOCK;
  return from_node(n_mul(nid(a), nid(b)));
}
Sym op_div(const Sym& a, const Sym& b) {
  if (is_nan_s(a) || is_nan_s(b)) return Sym(QNAN);
  LOCK;
  if (is_inf_s(b)) return is_inf_s(a) ? Sym(QNAN) : Sym(0.0);
  if (is_inf_s(a)) {
    int s = sgn(b);
    return s >= 0 ? a : Sym(-a.c);
  }
  bool zero = b.tag == TAG_CONST ? b.c == 0 : branch(EQ, b.id);
  if (zero) {
    int s = sgn(a);
    return s == 0 ? Sym(QNAN) : Sym(s > 0 ? INF : -INF);
  }
  return from_node(n_div(nid(a), nid(b)));
}
bool op_lt(const Sym& a, const Sym& b) {
  if (is_nan_s(a) || is_nan_s(b)) return false;
  if (a.tag == TAG_CONST && b.tag == TAG_CONST) return a.c < b.c;
  if (is_inf_s(a)) return a.c < 0;
  if (is_inf_s(b)) return b.c > 0;
  LOCK;
  return branch(LT, n_sub(nid(a), nid(b)));
}
bool op_le(const Sym& a, const Sym& b) {
  if (is_nan_s(a) || is_nan_s(b)) return false;
  if (a.tag == TAG_CONST && b.tag == TAG_CONST) return a.c <= b.c;
  if (is_inf_s(a)) return a.c < 0;
  if (is_inf_s(b)) return b.c > 0;
  LOCK;
  return branch(LE, n_sub(nid(a), nid(b)));
}
bool op_eq(const Sym& a, const Sym& b) {
  if (is_nan_s(a) || is_nan_s(b)) return false;
  if (a.tag == TAG_CONST && b.tag == TAG_CONST) return a.c == b.c;
  if (is_inf_s(a) || is_inf_s(b)) return false;
  LOCK;
  return branch(EQ, n_sub(nid(a), nid(b)));
}
Sym fn_abs(const Sym& x) {
  if (is_nan_s(x)) return Sym(QNAN);
  if (x.tag == TAG_CONST) return Sym(std::fabs(x.c));
  LOCK;
  if (isc(x.id)) return from_node(mkc(boost::multiprecision::abs(N[x.id].k)));
  Op o = N[x.id].op;
  if (o == Op::ABS || o == Op::SQRT) return x;
  // |c*x| = |c|*|x|
  if (o == Op::MUL && isc(N[x.id].a))
    return op_mul(from_node(mkc(boost::multiprecision::abs(N[N[x.id].a].k))), fn_abs(Sym::node(N[x.id].b)));
  return Sym::node(mk(Op::ABS, x.id));
}
// std::max(a, b): (a < b) ? b : a
Sym fn_max(const Sym& a, const Sym& b) {
  if (is_nan_s(a) || is_nan_s(b)) return a;
  if (is_inf_s(a)) return a.c > 0 ? a : b;
  if (is_inf_s(b)) return b.c > 0 ? b : a;
  if (a.tag == TAG_CONST && b.tag == TAG_CONST) return a.c < b.c ? b : a;
  LOCK;
  int x = nid(a), y = nid(b);
  if (x == y) return a;
  int d = n_sub(x, y);
  if (isc(d)) return N[d].k < 0 ? b : a;
  // max(0, |x|) = |x|
  auto nonneg = [](int n) { return N[n].op == Op::ABS || N[n].op == Op::SQRT || (N[n].op == Op::MAX && isc(N[n].a) && N[N[n].a].k >= 0); };
  if (isc(x) && N[x].k <= 0 && nonneg(y)) return b;
  if (isc(y) && N[y].k <= 0 && nonneg(x)) return a;
  if (x > y) std::swap(x, y);
  if (isc(y)) std::swap(x, y);
  // absorption max(x, max(x, z))
  for (int t = 0; t < 2; ++t) {
    int u = t ? x : y, v = t ? y : x;
    if (N[u].op == Op::MAX && (N[u].a == v || N[u].b == v)) return Sym::node(u);
  }
  return Sym::node(mk(Op::MAX, x, y));
}
Sym fn_min(const Sym& a, const Sym& b) {
  if (is_nan_s(a) || is_nan_s(b)) return a;
  if (is_inf_s(a)) return a.c > 0 ? b : a;
  if (is_inf_s(b)) return b.c > 0 ? a : b;
  if (a.tag == TAG_CONST && b.tag == TAG_CONST) return b.c < a.c ? b : a;
  LOCK;
  int x = nid(a), y = nid(b);
  if (x == y) return a;
  int d = n_sub(x, y);
  if (isc(d)) return N[d].k > 0 ? b : a;
  if (x > y) std::swap(x, y);
  if (isc(y)) std::swap(x, y);
  for (int t = 0; t < 2; ++t) {
    int u = t ? x : y, v = t ? y : x;
    if (N[u].op == Op::MIN && (N[u].a == v || N[u].b == v)) return Sym::node(u);
  }
  return Sym::node(mk(Op::MIN, x, y));
}
Sym fn_sqrt(const Sym& x) {
  if (is_nan_s(x)) return Sym(QNAN);
  if (is_inf_s(x)) return x.c > 0 ? x : Sym(QNAN);
  LOCK;
  if (x.tag == TAG_CONST) {
    if (x.c < 0) return Sym(QNAN);
    double r = std::sqrt(x.c);
    if (rat_of(r) * rat_of(r) == rat_of(x.c)) return Sym(r);
    return Sym::node(mk(Op::SQRT, nid(x)));
  }
  if (branch(LT, x.id)) return Sym(QNAN);
  return Sym::node(mk(Op::SQRT, x.id));
}
Sym fn_cbrt(const Sym& x) {
  if (is_nan_s(x)) return Sym(QNAN);
  if (is_inf_s(x)) return x;
  LOCK;
  if (x.tag == TAG_CONST) {
    double r = std::cbrt(x.c);
    if (rat_of(r) * rat_of(r) * rat_of(r) == rat_of(x.c)) return Sym(r);
  }
  return Sym::node(mk(Op::CBRT, nid(x)));
}
static Sym uf1s(const char* name, const Sym& x) { return Sym::node(uf1(name, nid(x))); }
Sym fn_uf1(const char* name, const Sym& x) {
  if (is_nan_s(x)) return Sym(QNAN);
  std::string n = name;
  if (is_inf_s(x)) {
    if (n == "atan") return Sym(std::atan(x.c));
    if (n == "erf") return Sym(std::erf(x.c));
    return Sym(QNAN);
  }
  if (x.tag == TAG_CONST && x.c == 0) return Sym(0.0);  // atan, erf
  LOCK;
  return uf1s(name, x);
}
Sym fn_exp(const Sym& x) {
  if (is_nan_s(x)) return Sym(QNAN);
  if (is_inf_s(x)) return Sym(x.c > 0 ? INF : 0.0);
  if (x.tag == TAG_CONST && x.c == 0) return Sym(1.0);
  LOCK;
  return uf1s("exp", x);
}
Sym fn_log(const Sym& x) {
  if (is_nan_s(x)) return Sym(QNAN);
  if (is_inf_s(x)) return x.c > 0 ? x : Sym(QNAN);
  LOCK;
  int s = sgn(x);
  if (s == 0) return Sym(-INF);
  if (s < 0) return Sym(QNAN);
  if (x.tag == TAG_CONST && x.c == 1) return Sym(0.0);
  return uf1s("log", x);
}
Sym fn_log10(const Sym& x) {
  if (x.tag == TAG_CONST) {
    double r = std::log10(x.c);
    if (std::isnan(r) || std::isinf(r) || (r == std::trunc(r) && std::pow(10.0, r) == x.c)) return Sym(r);
  }
  Sym l = fn_log(x);
  if (l.tag == TAG_CONST && !std::isfinite(l.c)) return l;
  LOCK;
  return uf1s("log10", x);
}
Sym fn_sin(const Sym& x) {
  if (is_nan_s(x) || is_inf_s(x)) return Sym(QNAN);
  if (x.tag == TAG_CONST && x.c == 0) return Sym(0.0);
  LOCK;
  return uf1s("sin", x);
}
Sym fn_cos(const Sym& x) {
  if (is_nan_s(x) || is_inf_s(x)) return Sym(QNAN);
  if (x.tag == TAG_CONST && x.c == 0) return Sym(1.0);
  LOCK;
  return uf1s("cos", x);
}
Sym fn_tan(const Sym& x) {
  if (is_nan_s(x) || is_inf_s(x)) return Sym(QNAN);
  if (x.tag == TAG_CONST && x.c == 0) return Sym(0.0);
  LOCK;
  int c = uf1("cos", nid(x)), s = uf1("sin", nid(x));
  auto kk = std::make_pair((int)EQ, c);
  if (!known.count(kk)) {  // tan is evaluated away from its poles
    known[kk] = false;
    pc.push_back({EQ, c, false});
  }
  return from_node(n_div(s, c));
}
Sym fn_sinh(const Sym& x) {
  if (is_nan_s(x) || is_inf_s(x)) return x;
  if (x.tag == TAG_CONST && x.c == 0) return Sym(0.0);
  LOCK;
  int e = uf1("exp", nid(x));
  return from_node(n_mul(mkc(Rat(1, 2)), n_sub(e, n_div(mkc(1), e))));
}
Sym fn_cosh(const Sym& x) {
  if (is_nan_s(x)) return x;
  if (is_inf_s(x)) return Sym(INF);
  if (x.tag == TAG_CONST && x.c == 0) return Sym(1.0);
  LOCK;
  int e = uf1("exp", nid(x));
  return from_node(n_mul(mkc(Rat(1, 2)), n_add(e, n_div(mkc(1), e))));
}
Sym fn_tanh(const Sym& x) {
  if (is_nan_s(x)) return x;
  if (is_inf_s(x)) return Sym(x.c > 0 ? 1.0 : -1.0);
  if (x.tag == TAG_CONST && x.c == 0) return Sym(0.0);
  LOCK;
  int e = uf1("exp", nid(x)), e2 = n_mul(e, e);
  return from_node(n_div(n_sub(e2, mkc(1)), n_add(e2, mkc(1))));
}
static Sym asincos(const char* nm, const Sym& x) {
  if (is_nan_s(x) || is_inf_s(x)) return Sym(QNAN);
  if (op_lt(x, Sym(-1.0)) || op_lt(Sym(1.0), x)) return Sym(QNAN);
  LOCK;
  if (x.tag == TAG_CONST && x.c == 0 && nm[1] == 's') return Sym(0.0);
  if (x.tag == TAG_CONST && x.c == 1 && nm[1] == 'c') return Sym(0.0);
  return uf1s(nm, x);
}
Sym fn_asin(const Sym& x) { return asincos("asin", x); }
Sym fn_acos(const Sym& x) { return asincos("acos", x); }
Sym fn_atan2(const Sym& y, const Sym& x) {
  if (is_nan_s(x) || is_nan_s(y)) return Sym(QNAN);
  if (y.tag == TAG_CONST && x.tag == TAG_CONST) {
    if (y.c == 0 && x.c >= 0) return Sym(0.0);
  }
  if (is_inf_s(x) || is_inf_s(y)) return Sym(QNAN);
  LOCK;
  return Sym::node(mk(Op::UF2, nid(y), nid(x), intern_name("atan2")));
}
Sym fn_pow(const Sym& b, const Sym& p) {
  LOCK;
  if (p.tag == TAG_CONST && p.c == 0) return Sym(1.0);
  if (b.tag == TAG_CONST && b.c == 1) return Sym(1.0);
  if (is_nan_s(b) || is_nan_s(p)) return Sym(QNAN);
  if (b.tag == TAG_CONST && p.tag == TAG_CONST) {
    if (is_inf_s(b) || is_inf_s(p)) return Sym(std::pow(b.c, p.c));
  }
  if (is_inf_s(b) || is_inf_s(p)) {
    int s = is_inf_s(b) ? sgn(p) : 0;
    if (is_inf_s(b) && b.c > 0) return s > 0 ? b : s < 0 ? Sym(0.0) : Sym(1.0);
    return Sym(QNAN);
  }
  if (p.tag == TAG_CONST && p.c == std::trunc(p.c) && std::fabs(p.c) <= 16) {
    int e = (int)std::fabs(p.c);
    Sym r = b;
    for (int i = 1; i < e; ++i) r = op_mul(r, b);
    return p.c > 0 ? r : op_div(Sym(1.0), r);
  }
  if (p.tag == TAG_CONST && 2 * p.c == std::trunc(2 * p.c) && std::fabs(p.c) <= 8) {
    Sym s = fn_sqrt(b);
    return fn_pow(s, Sym(2 * p.c));
  }
  int sb = sgn(b);
  if (sb == 0) {
    int sp = sgn(p);
    return sp > 0 ? Sym(0.0) : sp == 0 ? Sym(1.0) : Sym(INF);
  }
  if (sb < 0) return Sym(QNAN);  // non-integer exponents only (stated bound)
  return Sym::node(mk(Op::UF2, nid(b), nid(p), intern_name("pow")));
}
bool fn_isfinite(const Sym& x) { return !is_nan_s(x) && !is_inf_s(x); }
bool fn_isinf(const Sym& x) { return !is_nan_s(x) && is_inf_s(x); }
bool fn_isnan(const Sym& x) { return is_nan_s(x); }
double to_double(const Sym& x) {
  if (is_nan_s(x)) return QNAN;
  if (x.tag == TAG_CONST) return x.c;
  LOCK;
  if (isc(x.id)) return rat_to_double(N[x.id].k);
  return 0.12345;  // formatting only
}
static void str(int n, std::ostream& o, int depth) {
  if (depth > 12) {
    o << "…";
    return;
  }
  const Node nd = N[n];
  static const char* nm[] = {"", "", "+", "*", "/", "sqrt", "cbrt", "abs", "max", "min", "", ""};
  switch (nd.op) {
    case Op::CONST: o << rat_to_double(nd.k); break;
    case Op::VAR: o << names[nd.name]; break;
    case Op::ADD:
    case Op::MUL:
    case Op::DIV:
      o << "(";
      str(nd.a, o, depth + 1);
      o << nm[(int)nd.op];
      str(nd.b, o, depth + 1);
      o << ")";
      break;
    default:
      o << (nd.name >= 0 ? names[nd.name].c_str() : nm[(int)nd.op]) << "(";
      str(nd.a, o, depth + 1);
      if (nd.b >= 0) {
        o << ",";
        str(nd.b, o, depth + 1);
      }
      o << ")";
  }
}
std::string to_string(const Sym& x) {
  if (is_nan_s(x)) return "nan";
  std::ostringstream o;
  if (x.tag == TAG_CONST) {
    o << x.c;
  } else {
    LOCK;
    str(x.id, o, 0);
  }
  std::string s = o.str();
  if (s.size() > 600) s = s.substr(0, 600) + "…";
  return s;
}

// ---------------------------------------------------------------- harness API
S H::real(const std::string& name) {
  LOCK;
  int id = mk(Op::VAR, -1, -1, intern_name(name));
  bool have = false;
  for (auto& p : path_inputs) have |= p.second == id;
  if (!have) path_inputs.push_back({name, id});
  return Sym::node(id);
}
static void add_pc(Rel rel, int d, bool pos, bool feas = true) {
  if (isc(d)) {
    const Rat& k = N[d].k;
    bool v = rel == LT ? k < 0 : rel == LE ? k <= 0 : k == 0;
    if (v != pos) throw PathKilled{};
    return;
  }
  auto kk = std::make_pair((int)rel, d);
  auto it = known.find(kk);
  if (it != known.end()) {
    if (it->second != pos) throw PathKilled{};
    return;
  }
  if (feas && trace.size() >= prefix.size() && solve({{rel, d, pos}}, feas_timeout, nullptr) == UNSAT) throw PathKilled{};
  known[kk] = pos;
  pc.push_back({rel, d, pos});
}
S H::real(const std::string& name, double lo, double hi) {
  S s = real(name);
  add_pc(LE, n_sub(mkc(rat_of(lo)), s.id), true, false);
  add_pc(LE, n_sub(s.id, mkc(rat_of(hi))), true, false);
  return s;
}
int H::choose(const std::string& name, int n) {
  size_t k = trace.size();
  int v;
  if (k < prefix.size()) {
    v = prefix[k].val;
  } else {
    if (name == "shard" && shard >= 0) {
      v = shard;
    } else {
      v = 0;
      for (int i = n - 1; i >= 1; --i) {
        auto alt = trace;
        alt.push_back({i, 1});
        worklist.push_back(std::move(alt));
      }
    }
  }
  trace.push_back({v, 1});
  path_choices[name] = v;
  return v;
}
void H::assume(bool b) {
  if (!b) throw PathKilled{};
}
void H::assume_lt(const S& a, const S& b) {
  if (a.tag == TAG_CONST && b.tag == TAG_CONST) return assume(a.c < b.c);
  if (!fn_isfinite(a) || !fn_isfinite(b)) return assume(op_lt(a, b));
  add_pc(LT, n_sub(nid(a), nid(b)), true);
}
void H::assume_le(const S& a, const S& b) {
  if (a.tag == TAG_CONST && b.tag == TAG_CONST) return assume(a.c <= b.c);
  if (!fn_isfinite(a) || !fn_isfinite(b)) return assume(op_le(a, b));
  add_pc(LE, n_sub(nid(a), nid(b)), true);
}
void H::assume_ne(const S& a, const S& b) {
  if (a.tag == TAG_CONST && b.tag == TAG_CONST) return assume(a.c != b.c);
  if (!fn_isfinite(a) || !fn_isfinite(b)) return;
  add_pc(EQ, n_sub(nid(a), nid(b)), false);
}
void H::reach(const std::string& label) { path_reached.insert(label); }
bool H::thorough() const { return g_thorough; }

static void emit(const std::string& label, const std::string& kind, const std::string& note, const Model* m) {
  if (cand_count[label]++ >= 8) return;
  Candidate c;
  c.label = label;
  c.kind = kind;
  c.note = note;
  if (m)
    for (auto& [k, v] : *m) c.inputs[k] = v;
  c.choices = path_choices;
  cands.push_back(c);
}
// A model of the whole path condition plus the violated condition. A friendly
// model (moderate inputs, visible gap) is preferred if one exists.
static bool path_model(const std::vector<Cond>& extra, const std::vector<z3::expr>* gap, Model* m) {
  std::vector<z3::expr> raw;
  for (auto& [nm, id] : path_inputs) {
    raw.push_back(zx(id) <= 20);
    raw.push_back(zx(id) >= -20);
  }
  std::vector<z3::expr> r2 = raw;
  if (gap)
    for (auto& g : *gap) r2.push_back(g);
  if (solve(extra, feas_timeout * 2, m, true, &r2) == SAT) return true;
  if (gap && solve(extra, feas_timeout * 2, m, true, &raw) == SAT) return true;
  return solve(extra, check_timeout, m, true) == SAT;
}
static void refute(const std::string& label, const std::string& kind, const std::string& note,
                   const std::vector<Cond>& extra, const std::vector<z3::expr>* gap = nullptr) {
  labels[label].refuted++;
  if (cand_count[label] >= 8) {
    cand_count[label]++;
    return;
  }
  Model m;
  bool ok = path_model(extra, gap, &m);
  emit(label, kind, note + (ok ? "" : " [no model]"), ok ? &m : nullptr);
}
static void count(const std::string& label, Res r) {
  if (r == UNSAT) labels[label].discharged++;
  if (r == UNK) labels[label].unknown++;
}

void H::check(const std::string& label, bool cond, const std::string& note) {
  LOCK;
  labels[label].evaluated++;
  path_reached.insert(label);
  if (cond) {
    // decided by the feasibility queries of this path
    labels[label].discharged++;
    return;
  }
  // The path itself must be feasible for this to be a violation.
  refute(label, "check", note, {});
}
static z3::expr gap_expr(int d, double g) {
  const RF r = rf(d);
  int n2 = n_mul(r.num, r.num), d2 = mkc(1);
  for (auto [f, e] : r.den)
    for (int i = 0; i < 2 * e; ++i) d2 = n_mul(d2, f);
  return zx(n2) > zrat(rat_of(g)) * zx(d2);
}
// Equalities that the term representation already decides are also put to the
// solver, one query per path over every pair not asked before (the first
// seconds of a run; the counts are reported).
static std::set<std::pair<int, int>> audited;
static std::vector<std::pair<int, int>> audit_now;
static double audit_s = 0;
static void audit_pair(int a, int b) {
  if (audit_s < 4 && audited.insert({a, b}).second) audit_now.push_back({a, b});
}
static void audit_flush() {
  if (audit_now.empty()) return;
  auto t0 = clk::now();
  in_solver = true;
  z3::expr_vector ne(*Z), nz(*Z);
  for (auto [a, b] : audit_now) {
    const RF x = rf(a), y = rf(b);
    auto side = [&](const RF& r) {
      z3::expr e = zx(r.num);
      for (auto [f, k] : r.den)
        for (int i = 0; i < k; ++i) {
          nz.push_back(zx(f) != 0);
          e = e / zx(f);
        }
      return e;
    };
    ne.push_back(side(x) != side(y));
  }
  audit_now.clear();
  z3::solver s = z3::solver(*Z);
  z3::params p(*Z);
  p.set("timeout", 1000u);
  s.set(p);
  for (unsigned i = 0; i < nz.size(); ++i) s.add(nz[i]);
  s.add(z3::mk_or(ne));
  z3::check_result r = z3::unknown;
  try {
    r = s.check();
  } catch (z3::exception&) {
  }
  double dt = secs(t0);
  audit_s += dt;
  st.solver_s += dt;
  st.queries++;
  (r == z3::sat ? st.q_sat : r == z3::unsat ? st.q_unsat : st.q_unknown)++;
  in_solver = false;
  if (r == z3::sat) {
    fprintf(stderr, "symx: solver refutes an equality of identical terms\n");
    abort();
  }
}
void H::check_eq(const std::string& label, const S& a, const S& b, double) {
  LOCK;
  budget();
  labels[label].evaluated++;
  path_reached.insert(label);
  std::string note;
  auto mknote = [&] { return to_string(a) + "  vs  " + to_string(b); };
  if (!fn_isfinite(a) || !fn_isfinite(b)) {
    bool ok = (fn_isnan(a) && fn_isnan(b)) || (fn_isinf(a) && fn_isinf(b) && a.c == b.c);
    if (ok) labels[label].discharged++;
    else refute(label, "eq", mknote(), {});
    return;
  }
  int d = n_sub(nid(a), nid(b));
  if (isc(d)) {
    if (N[d].k == 0) {
      labels[label].discharged++;
      labels[label].trivial++;
      audit_pair(nid(a), nid(b));
    } else {
      refute(label, "eq", mknote(), {});
    }
    return;
  }
  Res r = solve({{EQ, d, false}}, check_timeout, nullptr);
  count(label, r);
  if (r == SAT) {
    std::vector<z3::expr> gap{gap_expr(d, 1e-4)};
    refute(label, "eq", mknote(), {{EQ, d, false}}, &gap);
  } else if (r == UNK) {
    // an unproved equality is still offered to the replay as a candidate
    Model m;
    if (path_model({}, nullptr, &m)) emit(label, "eq?", mknote(), &m);
  }
}
void H::check_le(const std::string& label, const S& a, const S& b, double) {
  LOCK;
  budget();
  labels[label].evaluated++;
  path_reached.insert(label);
  auto mknote = [&] { return to_string(a) + "  <=  " + to_string(b); };
  if (!fn_isfinite(a) || !fn_isfinite(b)) {
    if (op_le(a, b)) labels[label].discharged++;
    else refute(label, "le", mknote(), {});
    return;
  }
  int d = n_sub(nid(a), nid(b));
  if (isc(d)) {
    if (N[d].k <= 0) {
      labels[label].discharged++;
      labels[label].trivial++;
    } else {
      refute(label, "le", mknote(), {});
    }
    return;
  }
  Res r = solve({{LE, d, false}}, check_timeout, nullptr);
  count(label, r);
  if (r == SAT) {
    std::vector<z3::expr> gap{gap_expr(d, 1e-4)};
    refute(label, "le", mknote(), {{LE, d, false}}, &gap);
  } else if (r == UNK) {
    Model m;
    if (path_model({}, nullptr, &m)) emit(label, "le?", mknote(), &m);
  }
}
void H::check_lt(const std::string& label, const S& a, const S& b, double) {
  LOCK;
  budget();
  labels[label].evaluated++;
  path_reached.insert(label);
  auto mknote = [&] { return to_string(a) + "  <  " + to_string(b); };
  if (!fn_isfinite(a) || !fn_isfinite(b)) {
    if (op_lt(a, b)) labels[label].discharged++;
    else refute(label, "lt", mknote(), {});
    return;
  }
  int d = n_sub(nid(a), nid(b));
  if (isc(d)) {
    if (N[d].k < 0) {
      labels[label].discharged++;
      labels[label].trivial++;
    } else {
      refute(label, "lt", mknote(), {});
    }
    return;
  }
  Res r = solve({{LT, d, false}}, check_timeout, nullptr);
  count(label, r);
  if (r == SAT) {
    std::vector<z3::expr> gap{gap_expr(d, 1e-4)};
    refute(label, "lt", mknote(), {{LT, d, false}}, &gap);
  } else if (r == UNK) {
    Model m;
    if (path_model({}, nullptr, &m)) emit(label, "lt?", mknote(), &m);
  }
}
void H::check_ne(const std::string& label, const S& a, const S& b) {
  LOCK;
  labels[label].evaluated++;
  path_reached.insert(label);
  if (!fn_isfinite(a) || !fn_isfinite(b)) {
    if (!op_eq(a, b)) labels[label].discharged++;
    else refute(label, "ne", "", {});
    return;
  }
  int d = n_sub(nid(a), nid(b));
  if (isc(d)) {
    if (N[d].k != 0) labels[label].discharged++;
    else refute(label, "ne", "", {});
    return;
  }
  Res r = solve({{EQ, d, true}}, check_timeout, nullptr);
  count(label, r);
  if (r == SAT) refute(label, "ne", to_string(a) + " != " + to_string(b), {{EQ, d, true}});
}

// ---------------------------------------------------------------- runner
static HarnessDef* head = nullptr;
void register_harness(HarnessDef* d) {
  d->next = head;
  head = d;
}

static std::string js(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 32) {
      char b[8];
      snprintf(b, 8, "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o + "\"";
}
static std::string jd(double d) {
  char b[64];
  if (!std::isfinite(d)) return "null";
  snprintf(b, 64, "%.17g", d);
  return b;
}
static std::string out_path;
static const char* g_bounds = "";
static void write_out(bool complete, const std::string& crash) {
  std::ofstream o(out_path);
  o << "{\"harness\":" << js(cur_harness) << ",\"shard\":" << shard << ",\"bounds\":" << js(g_bounds)
    << ",\"complete\":" << (complete ? "true" : "false") << ",\"crash\":" << js(crash) << ",\"paths\":" << st.paths
    << ",\"killed\":" << st.killed << ",\"truncated\":" << st.truncated << ",\"exceptions\":" << st.exceptions
    << ",\"witness\":" << st.witness << ",\"queries\":" << st.queries << ",\"sat\":" << st.q_sat << ",\"unsat\":" << st.q_unsat
    << ",\"unknown\":" << st.q_unknown << ",\"branch_decisions\":" << st.branch_queries
    << ",\"branch_unknown\":" << st.branch_unknown << ",\"solver_s\":" << st.solver_s
    << ",\"wall_s\":" << secs(harness_t0) << ",\"terms\":" << N.size() << ",\"pending\":" << worklist.size()
    << ",\n\"labels\":{";
  bool f = true;
  for (auto& [l, s] : labels) {
    o << (f ? "" : ",\n") << js(l) << ":{\"evaluated\":" << s.evaluated << ",\"discharged\":" << s.discharged
      << ",\"trivial\":" << s.trivial << ",\"unknown\":" << s.unknown << ",\"refuted\":" << s.refuted << "}";
    f = false;
  }
  o << "},\n\"reached\":{";
  f = true;
  for (auto& [l, n] : reached) {
    o << (f ? "" : ",") << js(l) << ":" << n;
    f = false;
  }
  o << "},\n\"candidates\":[";
  f = true;
  for (auto& c : cands) {
    o << (f ? "" : ",\n") << "{\"label\":" << js(c.label) << ",\"kind\":" << js(c.kind) << ",\"note\":" << js(c.note)
      << ",\"inputs\":{";
    bool g = true;
    for (auto& [k, v] : c.inputs) {
      o << (g ? "" : ",") << js(k) << ":" << jd(v);
      g = false;
    }
    o << "},\"choices\":{";
    g = true;
    for (auto& [k, v] : c.choices) {
      o << (g ? "" : ",") << js(k) << ":" << v;
      g = false;
    }
    o << "}}";
    f = false;
  }
  o << "]}\n";
  o.flush();
}

static void on_crash(int sig) {
  static int nested = 0;
  if (nested++) _exit(43);
  std::string what = sig == SIGALRM ? "hang" : std::string("signal ") + std::to_string(sig);
  if (sig == SIGALRM && in_solver) {
    nested = 0;
    itimerval it{{0, 0}, {5, 0}};
    setitimer(ITIMER_REAL, &it, nullptr);
    return;
  }
  if (in_solver) _exit(44);
  Model m;
  std::string label = sig == SIGALRM ? "terminates" : "no-crash";
  labels[label].evaluated++;
  bool ok = path_model({}, nullptr, &m);
  emit(label, "crash", what, ok ? &m : nullptr);
  write_out(false, what);
  _exit(42);
}

static int run_harness(HarnessDef* d) {
  cur_harness = d->name;
  g_bounds = d->bounds;
  harness_t0 = clk::now();
  H h;
  worklist.push_back({});
  stack_t ss{};
  ss.ss_size = 1 << 26;
  ss.ss_sp = malloc(ss.ss_size);
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = on_crash;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
  bool complete = true;
  while (!worklist.empty()) {
    if (secs(harness_t0) > harness_budget) {
      complete = false;
      break;
    }
    prefix = std::move(worklist.back());
    worklist.pop_back();
    trace.clear();
    pc.clear();
    known.clear();
    path_choices.clear();
    path_inputs.clear();
    path_reached.clear();
    audit_now.clear();
    path_t0 = clk::now();
    itimerval it{{0, 0}, {20, 0}};
    setitimer(ITIMER_REAL, &it, nullptr);
    bool done = false;
    try {
      d->fn(h);
      done = true;
    } catch (PathKilled&) {
      st.killed++;
    } catch (PathTruncated&) {
      st.truncated++;
    } catch (z3::exception& e) {
      fprintf(stderr, "z3 exception escaped: %s\n", e.msg());
      st.truncated++;
    } catch (std::exception& e) {
      st.exceptions++;
      labels["no-exception"].evaluated++;
      refute("no-exception", "exception", e.what(), {});
    } catch (...) {
      st.exceptions++;
      labels["no-exception"].evaluated++;
      refute("no-exception", "exception", "unknown exception", {});
    }
    if (done) {
      st.paths++;
      audit_flush();
      if (st.witness < 3) {  // reachability witness: the completed path is feasible
        Model m;
        if (pc.empty() || solve({}, feas_timeout, &m, true) == SAT) st.witness++;
      }
      for (auto& l : path_reached) reached[l]++;
    }
  }
  itimerval it{};
  setitimer(ITIMER_REAL, &it, nullptr);
  write_out(complete && st.truncated == 0, "");
  return 0;
}
}  // namespace symx

int main(int argc, char** argv) {
  using namespace symx;
  std::string want;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--list") {
      std::vector<HarnessDef*> v;
      for (auto d = head; d; d = d->next) v.push_back(d);
      for (auto it = v.rbegin(); it != v.rend(); ++it)
        std::cout << (*it)->name << "\t" << (*it)->shards << "\t" << (*it)->thorough_only << "\t" << (*it)->bounds << "\n";
      return 0;
    } else if (a == "--harness") want = nx();
    else if (a == "--shard") shard = std::stoi(nx());
    else if (a == "--out") out_path = nx();
    else if (a == "--budget") harness_budget = std::stod(nx());
    else if (a == "--thorough") g_thorough = true;
    else if (a == "--check-timeout") check_timeout = std::stoi(nx());
    else if (a == "--seed") z3::set_param("smt.random_seed", std::stoi(nx()));
  }
  if (g_thorough) {
    check_timeout *= 4;
    feas_timeout *= 2;
  }
  Z = new z3::context;
  N.reserve(1 << 16);
  for (auto d = head; d; d = d->next)
    if (want == d->name) {
      int r = run_harness(d);
      std::cout.flush();
      _exit(r);
    }
  std::cerr << "no such harness\n";
  return 2;
}
