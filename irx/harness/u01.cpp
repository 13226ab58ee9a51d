// U01: IntrusiveSharedPtr and expression nodes: one count per handle, destroyed
// exactly once when the last handle goes.
#include <sleipnir/autodiff/expression.hpp>
#include <sleipnir/util/intrusive_shared_ptr.hpp>
#include <utility>

#include "vx.hpp"
using slp::IntrusiveSharedPtr;

// Stand-in for src/util/pool.cpp (a thread-local pool of 16384-block chunks):
// the same class with two blocks per chunk.
namespace {
slp::PoolResource* the_pool = nullptr;
}
slp::PoolResource& slp::global_pool_resource() { return *the_pool; }

namespace {
int destroyed[3];
struct Node;
void inc_ref_count(Node* n);
void dec_ref_count(Node* n);
struct Node {
  uint32_t ref_count = 0;
  uint32_t id;
  IntrusiveSharedPtr<Node> child;
  explicit Node(uint32_t id) : id{id} {}
  virtual ~Node() { ++destroyed[id]; }
};
struct Derived final : Node {
  using Node::Node;
};
void inc_ref_count(Node* n) { ++n->ref_count; }
void dec_ref_count(Node* n) {
  if (--n->ref_count == 0) delete n;
}
using Ptr = IntrusiveSharedPtr<Node>;
using DPtr = IntrusiveSharedPtr<Derived>;

struct World {
  Node* node[3];
  uint32_t ext[3];  // references held by somebody else
  Ptr a, b;
  DPtr d;
  bool alive(int i) const { return !destroyed[i]; }
  uint32_t handles(int i) const {
    uint32_t n = (a.get() == node[i]) + (b.get() == node[i]) + (static_cast<Node*>(d.get()) == node[i]);
    for (int k = 0; k < 3; ++k) n += alive(k) && node[k]->child.get() == node[i];
    return n;
  }
  void audit() const {
    for (int i = 0; i < 3; ++i) {
      vx_check(destroyed[i] <= 1, "an object is destroyed at most once");
      uint32_t n = handles(i) + ext[i];
      if (destroyed[i]) {
        vx_check(n == 0, "an object is destroyed only when no handle is left");
      } else {
        vx_check(n != 0, "an object is destroyed as soon as no handle is left");
        vx_check(node[i]->ref_count == n, "one count per handle");
      }
    }
  }
};
}  // namespace

namespace {
constexpr uint32_t OPS = 24;
// Runs `steps` operations; free: from every initial arrangement.
void histories(int steps, bool free) {
  for (int& k : destroyed) k = 0;
  {
    World w;
    uint32_t op = vx_fork(vx_choose("op", OPS));
    Derived* dn = new Derived{2};
    w.node[0] = new Node{0};
    w.node[1] = new Node{1};
    w.node[2] = dn;
    const char* names[] = {"outside references 0", "outside references 1", "outside references 2"};
    for (int i = 0; i < 3; ++i) {
      w.ext[i] = vx_i32(names[i]);
      vx_assume(w.ext[i] < 0xfffffff0u);
      w.node[i]->ref_count = w.ext[i];
    }
    // initial arrangement; node 0 is reachable at least through a
    w.a = Ptr{w.node[0]};
    switch (free ? vx_fork(vx_choose("b", 4)) : 2) {
      case 0: break;
      case 1: w.b = Ptr{w.node[0]}; break;
      case 2: w.b = Ptr{w.node[1]}; break;
      case 3: w.b = Ptr{w.node[2]}; break;
    }
    uint32_t links = free ? vx_fork(vx_choose("links", 4)) : 3;
    if (links & 1) w.node[0]->child = Ptr{w.node[1]};
    if (links & 2) w.node[1]->child = Ptr{w.node[2]};
    w.d = DPtr{dn};
    vx_check(w.node[2]->ref_count - w.ext[2] == w.handles(2), "one count per handle");
    if (w.handles(1) == 0) vx_assume(w.ext[1] != 0);  // somebody owns node 1
    w.audit();
    for (int step = 0;; ++step) {
      // what the handles held before
      Node *a = w.a.get(), *b = w.b.get();
      Derived* d = w.d.get();
      Node* ac = a ? a->child.get() : nullptr;
      Node* bc = b ? b->child.get() : nullptr;
      auto now = [&](Node* na, Node* nb, Derived* nd) {
        vx_check(w.a.get() == na && w.b.get() == nb && w.d.get() == nd, "a handle refers to what was assigned to it");
      };
      switch (op) {
        case 0: w.a = w.b; break;
        case 1: { Ptr& r = w.a; w.a = r; break; }
        case 2: w.a = std::move(w.b); break;
        case 3: { Ptr& r = w.a; w.a = std::move(r); break; }
        case 4: std::swap(w.a, w.b); break;
        case 5: w.a = nullptr; break;
        case 6: w.b = Ptr{}; break;
        case 7: if (w.a) w.a = w.a->child; break;
        case 8: if (w.a) w.a = std::move(w.a->child); break;
        case 9: if (w.b) w.a = w.b->child; break;
        case 10: if (w.b) w.b = Ptr{w.b.get()}; break;
        case 11: { Ptr t{w.a}; w.b = t; break; }
        case 12: { Ptr t{std::move(w.a)}; vx_check(w.a == nullptr, "moving out empties the handle"); w.b = std::move(t); break; }
        case 13: w.a = w.d; break;
        case 14: w.b = std::move(w.d); break;
        case 15: { Ptr t{w.d}; w.a = t; break; }
        case 16: { Ptr t{std::move(w.d)}; vx_check(!w.d, "moving out empties the handle"); w.b = t; break; }
        case 17: w.d = nullptr; break;
        case 18: if (w.a && w.b && w.a->id < w.b->id) w.a->child = w.b; break;
        case 19: if (w.a && w.b && w.a->id < w.b->id) w.a->child = std::move(w.b); break;
        case 20: if (w.a) w.a->child = nullptr; break;
        case 21: { DPtr t = w.d; DPtr& r = t; w.d = r; w.d = std::move(t); break; }
        case 22: {  // comparisons
          vx_check((w.a == w.b) == (w.a.get() == w.b.get()) && (w.a != w.b) == !(w.a == w.b), "comparison is by identity");
          vx_check((w.a == nullptr) == !w.a.get() && (nullptr != w.a) == bool(w.a) && (w.b != nullptr) == bool(w.b) && (nullptr == w.b) == !w.b, "comparison with null");
          if (w.a) vx_check(&*w.a == w.a.get() && w.a.operator->() == w.a.get(), "dereferencing yields the object");
          break;
        }
        case 23: {  // a copy keeps the object alive while the others go
          Ptr t = w.a;
          Node* n = t.get();
          w.a = nullptr;
          if (n) vx_check(!destroyed[n->id], "a copy keeps the object alive");
          w.a = t;
          break;
        }
      }
      switch (op) {
        case 0: now(b, b, d); break;
        case 1: case 3: case 10: case 21: case 22: case 23: now(a, b, d); break;
        case 2: now(b, a == b ? w.b.get() : nullptr, d); break;  // (moving between handles of one object may keep both)
        case 4: now(b, a, d); break;
        case 5: now(nullptr, b, d); break;
        case 6: now(a, nullptr, d); break;
        case 7: case 8: now(a ? ac : nullptr, b, d); break;
        case 9: now(b ? bc : a, b, d); break;
        case 11: now(a, a, d); break;
        case 12: now(nullptr, a, d); break;
        case 13: case 15: now(d, b, d); break;
        case 14: now(a, d, b == d ? w.d.get() : nullptr); break;
        case 16: now(a, d, nullptr); break;
        case 17: now(a, b, nullptr); break;
        case 18: now(a, b, d); if (a && b && a->id < b->id) vx_check(w.a->child.get() == b, "a handle refers to what was assigned to it"); break;
        case 19: if (a && b && a->id < b->id) { now(a, ac == b ? w.b.get() : nullptr, d); vx_check(w.a->child.get() == b, "a handle refers to what was assigned to it"); } break;
        case 20: now(a, b, d); if (a) vx_check(!w.a->child, "a handle refers to what was assigned to it"); break;
      }
      w.audit();
      if (step == steps - 1) break;
      op = vx_fork(vx_choose("op", OPS));
    }
    w.a = nullptr;
    w.b = nullptr;
    w.d = nullptr;
    w.audit();
    // the outside references go
    for (int i = 0; i < 3; ++i)
      if (!destroyed[i]) {
        while (!destroyed[i] && w.ext[i] > 0) {
          // all but one at once
          w.node[i]->ref_count -= w.ext[i] - 1;
          w.ext[i] = 0;
          dec_ref_count(w.node[i]);
        }
      }
  }
  for (int i = 0; i < 3; ++i) vx_check(destroyed[i] == 1, "an object is destroyed exactly once");
  vx_check(vx_live_allocations() == 0, "no memory is leaked");
  vx_reach("end");
}
}  // namespace

IRX_HARNESS(u01_step, 24, 0,
            "3 objects (one of a derived type) with any number (0..2^32-17) of outside references each, handles a, b, d and child links in every acyclic initial arrangement; any one of 24 operations, "
            "then everything is released; the checked invariant (count = handles) is the one assumed initially, so it carries over to longer histories") {
  histories(1, true);
}
IRX_HARNESS(u01_pairs, 24, 0, "as u01_step from the arrangement a->0, b->1, d->2, 0->1->2; any 2 operations") { histories(2, false); }
IRX_HARNESS(u01_histories, 24, 1, "as u01_step; any 2 operations from every arrangement") { histories(2, true); }
IRX_HARNESS(u01_triples, 24, 1, "as u01_pairs; any 3 operations") { histories(3, false); }

namespace {
template <typename F>
void with_pool(F f) {
  {
    slp::PoolResource pool{2};
    the_pool = &pool;
    f();
    vx_check(pool.blocks_in_use() == 0, "every expression returned its block");
    the_pool = nullptr;
  }
  vx_check(vx_live_allocations() == 0, "no memory is leaked");
}
using Expr = slp::detail::Expression<double>;
using EPtr = slp::detail::ExpressionPtr<double>;
EPtr variable(double v) { return slp::detail::make_expression_ptr<slp::detail::DecisionVariableExpression<double>>(v); }
}  // namespace

IRX_HARNESS(u01_expressions, 6, 0,
            "expression graphs of 2 variables and 2 (thorough: 3) operations, each any of 6 operations over any operands (shared subexpressions); any number of outside references to any one node; roots "
            "released in any order") {
  with_pool([] {
    EPtr n[5] = {variable(2.0), variable(3.0), nullptr, nullptr, nullptr};
    const int N = vx_thorough() ? 5 : 4;
    for (int k = 2; k < N; ++k) {
      uint32_t op = vx_fork(vx_choose("op", 6));
      // the operands: the previous node and any earlier one
      const EPtr& l = n[k - 1];
      const EPtr& r = k == 3 ? n[vx_fork(vx_choose("operand", k))] : n[0];
      switch (op) {
        case 0: n[k] = l * r; break;
        case 1: n[k] = l + r; break;
        case 2: n[k] = -l; break;
        case 3: n[k] = l / r; break;
        case 4: n[k] = slp::detail::make_expression_ptr<slp::detail::SinExpression<double>>(l); break;
        case 5: n[k] = l + slp::detail::constant_ptr(0.0); break;  // pruned to l
      }
    }
    EPtr held = n[vx_fork(vx_choose("held", N))];
    Expr* node = held.get();
    uint32_t before = node->ref_count;
    EPtr copy = held, moved = std::move(copy);
    vx_check(node->ref_count == before + 1 && copy == nullptr, "one count per handle");
    moved = nullptr;
    uint32_t outside = vx_i32("outside references");
    vx_assume(outside < 0xffffff00u);
    node->ref_count += outside;
    uint32_t first = vx_fork(vx_choose("order", 3));
    static const int order[3][5] = {{0, 1, 2, 3, 4}, {4, 3, 2, 1, 0}, {2, 4, 0, 3, 1}};
    for (int i : order[first]) n[i] = nullptr;
    vx_check(node->ref_count == outside + 1, "a held node keeps exactly its holders' counts");
    vx_check(node->val == node->val, "a held node stays readable");
    held = nullptr;
    if (outside > 0) {
      node->ref_count -= outside - 1;
      EPtr last{node};  // the outside holder lets go
      node->ref_count -= 1;
      vx_check(node->ref_count == 1, "one count per handle");
    }
    vx_reach("end");
  });
}
IRX_HARNESS(u01_chain, 1, 0, "a chain of 12 shared operations, released from the root; adjoint expression links set; destroyed without recursion") {
  with_pool([] {
    EPtr x = variable(1.5), root = x;
    for (int i = 0; i < 12; ++i) {
      root = root * x;
      root->adjoint_expr = x + root->args[0];
    }
    EPtr middle = root->args[0]->args[0];
    vx_check(x->ref_count > 12, "shared operands are counted");
    root = nullptr;
    vx_check(middle->ref_count == 1 && middle->args[1] == x, "a held subexpression survives its root");
    // remaining handles: x, middle's subtree
    middle = nullptr;
    vx_check(x->ref_count == 1, "every other reference to the variable is gone");
    vx_reach("end");
  });
}
