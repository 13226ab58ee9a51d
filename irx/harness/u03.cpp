// U03: function_ref and scope_exit under arbitrary operation sequences.
#include <memory>
#include <sleipnir/util/function_ref.hpp>
#include <sleipnir/util/scope_exit.hpp>
#include <utility>

#include "vx.hpp"
using slp::function_ref;
using slp::scope_exit;

namespace {
uint32_t plain(uint32_t x) { return 3 * x + 7; }
struct Callable {
  uint32_t key;
  mutable uint32_t calls = 0;
  uint32_t operator()(uint32_t x) const {
    ++calls;
    return (x ^ key) + key;
  }
};
using Ref = function_ref<uint32_t(uint32_t)>;
}  // namespace

IRX_HARNESS(u03_function_ref, 13, 0,
            "two references over three callables with any 32-bit keys and a function; any 4 (thorough: 5) of 13 operations: copy/const-copy/move/self assignment, swap, retargeting to an "
            "object, a const object or a function, copies; any argument") {
  Callable c[3] = {{vx_i32("key0") * 1u}, {vx_i32("key1") * 1u}, {vx_i32("key2") * 1u}};
  const Callable& konst = c[2];
  uint32_t calls[3] = {0, 0, 0};
  Ref f{c[0]}, g{c[1]};
  int tf = 0, tg = 1;  // 3: the plain function
  uint32_t x = vx_i32("x");
  auto expected = [&](int t) {
    if (t == 3) return 3 * x + 7;
    ++calls[t];
    return (x ^ c[t].key) + c[t].key;
  };
  for (int step = 0; step < (vx_thorough() ? 5 : 4); ++step) {
    switch (vx_fork(vx_choose("op", 13))) {
      case 0: f = g; tf = tg; break;
      case 1: f = std::as_const(g); tf = tg; break;
      case 2: f = std::move(g); tf = tg; break;
      case 3: { Ref& r = f; f = r; break; }
      case 4: swap(f, g); std::swap(tf, tg); break;
      case 5: f.swap(g); std::swap(tf, tg); break;
      case 6: f = c[1]; tf = 1; break;
      case 7: g = konst; tg = 2; break;
      case 8: f = plain; tf = 3; break;
      case 9: { Ref t{g}; f = t; tf = tg; break; }
      case 10: g = Ref{c[0]}; tg = 0; break;
      case 11: { Ref t = std::move(f); g = std::as_const(t); tg = tf; break; }
      case 12: { f = Ref{plain}; tf = 3; g = f; tg = 3; break; }
    }
    x = vx_i32("arg");
    vx_check(f(x) == expected(tf), "a reference calls the callable it refers to");
    vx_check(g(x) == expected(tg), "a reference calls the callable it refers to");
  }
  for (int i = 0; i < 3; ++i) vx_check(c[i].calls == calls[i], "the callable itself is called, once per call");
  vx_reach("end");
}

namespace {
struct Box {
  uint32_t v;
  int copies = 0;
  explicit Box(uint32_t v) : v{v} {}
  Box(const Box& b) : v{b.v}, copies{b.copies + 1} {}
  Box(Box&& b) noexcept : v{b.v}, copies{b.copies} { b.v = 0; }
};
}  // namespace
IRX_HARNESS(u03_forwarding, 1, 0, "arguments and results by value, reference, rvalue and unique_ptr; any 32-bit values") {
  uint32_t v = vx_i32("v"), w = vx_i32("w");
  auto by_value = [&](Box b) { return b.v + (b.copies ? 1000u : 0u); };
  function_ref<uint32_t(Box)> f{by_value};
  vx_check(f(Box{v}) == v, "an argument by value is moved, not copied");
  auto add = [&](uint32_t& a, uint32_t b) -> uint32_t& {
    a += b;
    return a;
  };
  function_ref<uint32_t&(uint32_t&, uint32_t)> g{add};
  uint32_t a = v;
  uint32_t& r = g(a, w);
  vx_check(&r == &a && a == v + w, "references are passed and returned as such");
  auto sink = [&](std::unique_ptr<uint32_t>&& p) {
    auto q = std::move(p);
    return *q;
  };
  function_ref<uint32_t(std::unique_ptr<uint32_t>&&)> h{sink};
  auto p = std::make_unique<uint32_t>(w);
  vx_check(h(std::move(p)) == w && !p, "rvalues are forwarded");
  uint32_t total = 0;
  auto act = [&](uint32_t d) { total += d; };
  function_ref<void(uint32_t)> k{act};
  k(v);
  k(w);
  k = act;
  k(v);
  vx_check(total == v + w + v, "a void callable's effect is the callable's");
  auto mut = [n = v](uint32_t d) mutable { return n += d; };
  function_ref<uint32_t(uint32_t)> m{mut};
  m(w);
  function_ref<uint32_t(uint32_t)> m2{m};
  vx_check(m2(1) == v + w + 1 && mut(0) == v + w + 1, "copies share the callable's state");
  auto narrow = [&](uint32_t d) -> uint16_t { return static_cast<uint16_t>(d); };
  function_ref<uint32_t(uint32_t)> nr{narrow};
  nr = narrow;
  vx_check(nr(v) == (v & 0xffff), "results are converted");
  vx_check(vx_live_allocations() == 0, "no memory is leaked");
  vx_reach("end");
}

namespace {
struct Error {};
// Counts how often an action runs; owns memory to expose a double release.
auto action(int& count, uint32_t key, uint32_t& seen) {
  return [&count, &seen, p = std::make_unique<uint32_t>(key)] {
    ++count;
    seen = *p;
  };
}
}  // namespace
IRX_HARNESS(u03_scope_exit, 1, 0, "up to 3 moves, release before, between or after them, exit by falling through, return or an exception; any captured value") {
  uint32_t key = vx_i32("key"), seen = 0;
  int count = 0;
  uint32_t moves = vx_fork(vx_choose("moves", 4)), released = vx_fork(vx_choose("release at", 5)), how = vx_fork(vx_choose("exit", 3));
  bool expect = true;
  auto scope = [&] {
    scope_exit a{action(count, key, seen)};
    auto rel = [&](auto& guard, uint32_t at) {
      if (released == at && at <= moves) {
        guard.release();
        expect = false;
      }
    };
    rel(a, 0);
    auto leave = [&] {
      vx_check(count == 0, "the action does not run early");
      if (how == 2) throw Error{};
    };
    if (moves == 0) {
      leave();
      return;
    }
    auto b{std::move(a)};
    vx_check(count == 0, "moving does not run the action");
    rel(b, 1);
    if (moves == 1) {
      leave();
      if (how == 1) return;
      return;
    }
    auto c = std::make_unique<decltype(b)>(std::move(b));
    rel(*c, 2);
    if (moves == 2) {
      leave();
      if (how == 1) {
        c.reset();
        vx_check(count == (expect ? 1 : 0), "the action runs exactly when the owning guard ends");
      }
      return;
    }
    auto d{std::move(*c)};
    c.reset();
    vx_check(count == 0, "ending a moved-from guard does not run the action");
    rel(d, 3);
    leave();
  };
  bool caught = false;
  try {
    scope();
  } catch (const Error&) {
    caught = true;
  }
  vx_check(caught == (how == 2), "exceptions pass through");
  vx_check(count == (expect ? 1 : 0), "the action runs exactly once unless released");
  if (expect) vx_check(seen == key, "the action sees what it captured");
  vx_check(vx_live_allocations() == 0, "no memory is leaked");
  vx_reach(expect ? "ran" : "released");
}
IRX_HARNESS(u03_nesting, 1, 0, "three nested guards, any subset released, any exit") {
  int order[3] = {9, 9, 9}, n = 0;
  uint32_t mask = vx_fork(vx_choose("released", 8));
  bool raise = vx_fork(vx_choose("throw", 2));
  try {
    scope_exit a{[&] { order[n++] = 0; }};
    scope_exit b{[&] { order[n++] = 1; }};
    scope_exit c{[&] { order[n++] = 2; }};
    if (mask & 1) a.release();
    if (mask & 2) b.release();
    if (mask & 4) {
      c.release();
      c.release();
    }
    if (raise) throw Error{};
  } catch (const Error&) {
  }
  int k = 0;
  for (int i = 2; i >= 0; --i)
    if (!(mask >> i & 1)) vx_check(order[k++] == i, "guards run innermost first");
  vx_check(n == k, "each unreleased guard runs once");
  vx_reach("end");
}
