// U04: sparsity-pattern files, written by Spy directly and by Problem::solve().
// Files go to a scratch directory that each path creates and removes.
#include <unistd.h>

#include <fstream>

#include "solver_spy.hpp"

#include <sleipnir/util/spy.hpp>

using symx::H;
using DM = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
struct Scratch {
  char dir[32] = "/tmp/verif-spy-XXXXXX";
  char old[4096];
  std::vector<std::string> files{"H.spy", "A_e.spy", "A_i.spy", "one.spy"};
  Scratch() {
    if (!mkdtemp(dir) || !getcwd(old, sizeof old) || chdir(dir)) std::abort();
  }
  ~Scratch() {
    for (auto& f : files) unlink((std::string(dir) + "/" + f).c_str());
    if (chdir(old)) std::abort();
    rmdir(dir);
  }
};
struct Entry {
  int row, col;
  S value;
};
using Pattern = std::vector<Entry>;  // in storage order

// Reads the file as tools/spy.py does.
struct Reader {
  H& h;
  std::string data;
  size_t at = 0;
  Reader(H& h_, const std::string& name) : h{h_} {
    std::ifstream f{name, std::ios::binary};
    h.check("the file exists", f.good());
    data.assign(std::istreambuf_iterator<char>{f}, {});
  }
  bool more(size_t n) {
    bool ok = at + n <= data.size();
    h.check("the file is not truncated", ok);
    return ok;
  }
  long i32() {
    if (!more(4)) return -1;
    uint32_t r = 0;
    for (int i = 0; i < 4; ++i) r |= static_cast<uint32_t>(static_cast<unsigned char>(data[at + i])) << (8 * i);
    at += 4;
    return static_cast<int32_t>(r);
  }
  std::string str() {
    long n = i32();
    h.check("text length", n >= 0);
    if (n < 0 || !more(n)) return "";
    at += n;
    return data.substr(at - n, n);
  }
  void header(const std::string& title, const std::string& row, const std::string& col, int rows, int cols) {
    h.check("title", str() == title);
    h.check("row label", str() == row);
    h.check("column label", str() == col);
    h.eq("rows", i32(), rows);
    h.eq("columns", i32(), cols);
  }
  void pattern(const Pattern& p) {
    long n = i32();
    h.eq("number of coordinates", n, static_cast<long>(p.size()));
    for (auto& e : p) {
      h.eq("row", i32(), e.row);
      h.eq("column", i32(), e.col);
      if (!more(1)) return;
      char c = data[at++];
      h.check("sign character", c == '+' || c == '-' || c == '0');
      if (c == '+') h.check_lt("entries marked + are positive", S(0), e.value);
      if (c == '-') h.check_lt("entries marked - are negative", e.value, S(0));
      if (c == '0') h.check_eq("entries marked 0 are zero", e.value, S(0));
      h.reach(std::string("sign ") + c);
    }
  }
  void end() { h.eq("nothing follows", static_cast<long>(data.size() - at), 0); }
};
static SM matrix(H& h, const std::string& nm, int rows, int cols, int mask, bool compressed, Pattern& p, bool fixed = false) {
  SM m(rows, cols);
  if (!compressed) m.reserve(Eigen::VectorXi::Constant(cols, rows + 1));
  for (int j = 0; j < cols; ++j)
    for (int i = 0; i < rows; ++i)
      if (mask >> (j * rows + i) & 1) {
        S v = fixed ? S(i - j) : h.real(nm + std::to_string(i) + std::to_string(j));
        m.insert(i, j) = v;
        p.push_back({i, j, v});
      }
  if (compressed) m.makeCompressed();
  return m;
}
static void file(H& h, int rows, int cols, int mask1, int mask2) {
  Scratch dir;
  static const char* texts[] = {"", "Hessian", "a label with spaces\nand lines", "\xe2\x88\x87"};
  int t = h.choose("text", 4);
  Pattern a, b;
  {
    slp::Spy<S> s{"one.spy", texts[t], texts[(t + 1) % 4], texts[(t + 2) % 4], rows, cols};
    s.add(matrix(h, "a", rows, cols, mask1, h.flip("compressed"), a));
    s.add(matrix(h, "b", rows, cols, mask2, true, b));
  }
  Reader r{h, "one.spy"};
  r.header(texts[t], texts[(t + 1) % 4], texts[(t + 2) % 4], rows, cols);
  r.pattern(a);
  r.pattern(b);
  r.end();
}
HARNESS_SHARDED(u04_file, 4, "one file, two matrices of shapes 1x1, 2x2, 2x1, 1x3, every stored pattern of the first with at most 3 entries, the second dense or empty; all real values, stored zeros included; four header texts; compressed and uncompressed storage") {
  int sh = h.choose("shard", 4);
  static const int d[][2] = {{1, 1}, {2, 2}, {2, 1}, {1, 3}};
  int k = d[sh][0] * d[sh][1];
  int m = h.choose("pattern", 1 << k);
  if (__builtin_popcount(m) > 3) h.assume(false);
  file(h, d[sh][0], d[sh][1], m, h.flip("second") && k < 3 ? (1 << k) - 1 : 0);
}
HARNESS(u04_no_matrix, "a file to which nothing is added; large dimensions") {
  Scratch dir;
  int rows = h.flip("large") ? 70000 : 0;
  { slp::Spy<S> s{"one.spy", "t", std::string(300, 'x'), "", rows, 1 << 30}; }
  Reader r{h, "one.spy"};
  r.header("t", std::string(300, 'x'), "", rows, 1 << 30);
  r.end();
  h.reach("empty");
}
HARNESS(u04_far_entry, "an entry at a row and column above 65535") {
  Scratch dir;
  int at = 70001;
  Pattern p{{at, at - 1, h.real("v")}};
  {
    SM m(at + 1, at + 1);
    m.insert(at, at - 1) = p[0].value;
    slp::Spy<S> s{"one.spy", "t", "r", "c", at + 1, at + 1};
    s.add(m);
  }
  Reader r{h, "one.spy"};
  r.header("t", "r", "c", at + 1, at + 1);
  r.pattern(p);
  r.end();
}
HARNESS_SHARDED(u04_solve, 6, "solving with the spy option: unconstrained, equality- and inequality-constrained problems in 3 variables, 0 to 2 iterations, with or without user callbacks; any sign of two entries of each matrix (inequality-constrained: of the first iteration's)") {
  int sh = h.choose("shard", 6), kind = sh % 3;
  Scratch dir;
  spy.reset();
  Pattern ph[2], pe[2], pi[2];
  int iters = h.choose("iterations", 3);
  int user = 0;
  {
    slp::Problem<S> p;
    auto x = p.decision_variable(3);
    p.minimize(x[0] * x[0] * x[0] + x[1] * x[2]);
    if (kind >= 1) {
      p.subject_to(x[0] * x[1] == S(1));
      p.subject_to(x[1] * x[1] == S(2));
    }
    if (kind == 2) p.subject_to(x[0] * x[2] * x[2] >= S(1));
    if (sh / 3) p.add_callback([&](const Info&) { ++user; });
    auto run = [&](CBs cbs) {
      DV x(3), s(kind == 2 ? 1 : 0), y(kind ? 2 : 0), z(s.size());
      SV g(3);
      for (int k = 0; k < iters; ++k) {
        std::string t = std::to_string(k);
        SM mh = matrix(h, "h" + t, 3, 3, k ? 0x41 : 0x12, true, ph[k], k && kind == 2);
        SM me = matrix(h, "e" + t, kind ? 2 : 0, 3, kind ? (k ? 0x21 : 0x12) : 0, true, pe[k], k && kind == 2);
        SM mi = matrix(h, "i" + t, kind == 2 ? 1 : 0, 3, kind == 2 ? (k ? 4 : 3) : 0, true, pi[k], k && kind == 2);
        for (auto& cb : cbs) h.check("watching does not stop the solve", !cb({k, x, s, y, z, g, mh, me, mi}));
      }
      return slp::ExitStatus::SUCCESS;
    };
    spy.newton = [&](const NWC&, CBs c, const slp::Options&, DV&) { return run(c); };
    spy.sqp = [&](const SQC&, CBs c, const slp::Options&, DV&) { return run(c); };
    spy.ip = [&](const IPC&, CBs c, const slp::Options&, DV&) { return run(c); };
    h.check("status", p.solve(slp::Options{}, true) == slp::ExitStatus::SUCCESS);
    h.eq("solver", spy.kind, kind + 1);
    h.eq("user callbacks still run", user, sh / 3 ? iters : 0);
  }
  auto check = [&](const char* name, const char* title, const char* rowlab, int rows, Pattern* p) {
    Reader r{h, name};
    r.header(title, rowlab, "Decision variables", rows, 3);
    for (int k = 0; k < iters; ++k) r.pattern(p[k]);
    r.end();
  };
  check("H.spy", "Hessian", "Decision variables", 3, ph);
  if (kind >= 1) check("A_e.spy", "Equality constraint Jacobian", "Constraints", 2, pe);
  if (kind == 2) check("A_i.spy", "Inequality constraint Jacobian", "Constraints", 1, pi);
}
