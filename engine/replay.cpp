// Replays solver counterexamples on the real code with real doubles.
#include "harness.hpp"

#include <sys/time.h>
#include <unistd.h>

#include <cstring>
#include <fstream>
#include <iostream>
#include <random>
#include <sstream>

namespace symx {
static HarnessDef* head = nullptr;
void register_harness(HarnessDef* d) {
  d->next = head;
  head = d;
}
static std::map<std::string, double> inputs, used;
static std::map<std::string, int> choices;
static std::mt19937_64 rng;
static double perturb = 0;
static bool fresh = false;
struct Fail {
  std::string label, note;
};
static std::vector<Fail> fails;
static bool g_thorough = false;

S H::real(const std::string& name) {
  auto u = used.find(name);
  if (u != used.end()) return u->second;
  double v;
  auto it = inputs.find(name);
  std::normal_distribution<double> nd;
  if (fresh) v = 2 * nd(rng);
  else {
    v = it == inputs.end() ? (perturb > 0 ? nd(rng) : 1.0) : it->second;
    if (perturb > 0) v += perturb * nd(rng) * (1 + 0.1 * std::fabs(v));
  }
  used[name] = v;
  return v;
}
S H::real(const std::string& name, double lo, double hi) {
  S s = real(name);
  if (s.v < lo) s.v = lo;
  if (s.v > hi) s.v = hi;
  used[name] = s.v;
  return s;
}
int H::choose(const std::string& name, int n) {
  auto it = choices.find(name);
  return it == choices.end() ? 0 : std::min(it->second, n - 1);
}
void H::assume(bool b) {
  if (!b) throw PathKilled{};
}
void H::assume_lt(const S& a, const S& b) { assume(a.v < b.v); }
// (a model of the solver's may lie on the boundary, and is rounded to doubles)
void H::assume_le(const S& a, const S& b) { assume(a.v <= b.v || a.v - b.v <= 1e-13 * (std::fabs(a.v) + std::fabs(b.v))); }
void H::assume_ne(const S& a, const S& b) { assume(a.v != b.v); }
static std::string d2(double a, double b) {
  char x[80];
  snprintf(x, 80, "%.17g vs %.17g", a, b);
  return x;
}
void H::check(const std::string& l, bool c, const std::string& note) {
  if (!c) fails.push_back({l, note});
}
void H::check_eq(const std::string& l, const S& a, const S& b, double tol) {
  bool ok;
  if (std::isnan(a.v) || std::isnan(b.v)) ok = std::isnan(a.v) && std::isnan(b.v);
  else if (std::isinf(a.v) || std::isinf(b.v)) ok = a.v == b.v;
  else ok = std::fabs(a.v - b.v) <= tol * (1 + std::max(std::fabs(a.v), std::fabs(b.v)));
  if (!ok) fails.push_back({l, d2(a.v, b.v)});
}
void H::check_le(const std::string& l, const S& a, const S& b, double tol) {
  bool ok = std::isinf(a.v) || std::isinf(b.v) ? a.v <= b.v
                                              : a.v <= b.v + tol * (1 + std::max(std::fabs(a.v), std::fabs(b.v)));
  if (!ok) fails.push_back({l, d2(a.v, b.v)});
}
void H::check_lt(const std::string& l, const S& a, const S& b, double) {
  if (!(a.v < b.v)) fails.push_back({l, d2(a.v, b.v)});
}
void H::check_ne(const std::string& l, const S& a, const S& b) {
  if (!(a.v != b.v)) fails.push_back({l, d2(a.v, b.v)});
}
void H::reach(const std::string&) {}
bool H::thorough() const { return g_thorough; }
}  // namespace symx

// Exit codes: 0 no failure reproduced, 10 reproduced (prints REPRODUCED), others: crash
int main(int argc, char** argv) {
  using namespace symx;
  std::string want, file, label;
  int tries = 1;
  unsigned long seed = 1;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--harness") want = nx();
    else if (a == "--inputs") file = nx();
    else if (a == "--label") label = nx();
    else if (a == "--tries") tries = std::stoi(nx());
    else if (a == "--seed") seed = std::stoul(nx());
    else if (a == "--thorough") g_thorough = true;
  }
  HarnessDef* d = head;
  while (d && want != d->name) d = d->next;
  if (!d) return 2;
  std::ifstream f(file);
  std::string line;
  while (std::getline(f, line)) {
    if (line.size() < 3 || line[0] == '#') continue;
    char t = line[0];
    size_t sp = line.rfind(' ');
    if (sp < 2) continue;
    std::string n = line.substr(2, sp - 2), v = line.substr(sp + 1);
    if (t == 'r') inputs[n] = std::strtod(v.c_str(), nullptr);
    if (t == 'c') choices[n] = std::stoi(v);
  }
  rng.seed(seed);
  int executed = 0;
  for (int k = 0; k < tries; ++k) {
    perturb = k == 0 ? 0 : (k % 4 == 1 ? 1e-3 : k % 4 == 2 ? 0.1 : k % 4 == 3 ? 0.7 : 0);
    fresh = k > 0 && k % 4 == 0;
    used.clear();
    fails.clear();
    alarm(20);
    H h;
    std::string exc;
    try {
      d->fn(h);
    } catch (PathKilled&) {
      // What failed before an assumption did not hold still failed.
      if (fails.empty()) continue;
    } catch (std::exception& e) {
      exc = e.what();
    } catch (...) {
      exc = "unknown exception";
    }
    ++executed;
    if (!exc.empty()) fails.push_back({"no-exception", exc});
    for (auto& x : fails)
      if (label.empty() || x.label == label) {
        std::cout << "REPRODUCED " << x.label << " : " << x.note << "\n";
        for (auto& [n, v] : used) {
          char b[64];
          snprintf(b, 64, "%.17g", v);
          std::cout << "r " << n << " " << b << "\n";
        }
        for (auto& [n, v] : choices) std::cout << "c " << n << " " << v << "\n";
        return 10;
      }
  }
  std::cout << "NOT-REPRODUCED executed=" << executed << " of " << tries << "\n";
  return 0;
}
