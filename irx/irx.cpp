// irx: symbolic executor for LLVM IR produced by clang from the real sources.
//
// Integers are bit-vector terms (Z3); addresses of objects are concrete, their
// sizes may be symbolic; every load, store and free is checked against the live
// objects. Branches on symbolic data are decided by the solver and both
// feasible sides explored; vx_check() asks the solver for a counterexample over
// all inputs of the path.
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DerivedTypes.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/ADT/StringExtras.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <unistd.h>
#include <z3++.h>

#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>

using u64 = uint64_t;
using std::string;
using std::vector;
namespace L = llvm;

static z3::context zc;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---- values ---------------------------------------------------------------
static u64 mask(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
struct Val {
  unsigned w = 0;
  u64 c = 0;
  std::optional<z3::expr> e;  // set iff symbolic
  bool conc() const { return !e; }
  z3::expr x() const { return e ? *e : zc.bv_val(static_cast<uint64_t>(c), w); }
};
static Val C(unsigned w, u64 c) { return {w, c & mask(w), std::nullopt}; }
static Val mk(const z3::expr& e) {
  z3::expr s = e.simplify();
  unsigned w = s.get_sort().bv_size();
  u64 c;
  if (w <= 64 && s.is_numeral_u64(c)) return C(w, c);
  return {w, 0, s};
}
static int64_t sx(const Val& v) { return v.w >= 64 ? static_cast<int64_t>(v.c) : static_cast<int64_t>(v.c << (64 - v.w)) >> (64 - v.w); }
struct V {
  Val s;
  vector<V> agg;
  bool is_agg = false;
  V() = default;
  V(Val v) : s{std::move(v)} {}
};

// ---- paths ----------------------------------------------------------------
struct Killed {};
struct Rejected {};  // an expected assertion fired
struct Stop {};  // the path ends here (violation recorded)
struct Unsupported {
  string what;
};
struct IrException {
  u64 ptr;
};
struct Input {
  string name;
  unsigned w;
  z3::expr e;
};
struct Violation {
  string label, kind, note;
  vector<std::pair<string, u64>> inputs;
};
struct Stat {
  long evaluated = 0, discharged = 0, unknown = 0, refuted = 0;
};
static struct {
  long paths = 0, killed = 0, truncated = 0, queries = 0, sat = 0, unsat = 0, unknown = 0, forks = 0, steps = 0, pending = 0;
  double solver_s = 0;
} st;
static std::map<string, Stat> labels;
static std::map<string, long> reached;
static std::set<string> path_reached, functions;
static vector<Violation> violations;
static vector<vector<u64>> worklist;
static vector<u64> trace;
static size_t pos;
static std::unique_ptr<z3::solver> solver;
static vector<Input> inputs;
static std::map<unsigned, u64> choices;  // inputs with values 0..n-1 not constrained otherwise
static double deadline;
static int shard = -1;
static bool thorough = false, expect_assert = false, sharded = false;
static long path_steps;

// Wide products of symbolic terms are an uninterpreted commutative function
// for branch decisions and the first attempt at a check; `products` holds their
// exact definitions, used before any refutation is believed.
static vector<z3::expr> products;
static z3::expr product(z3::expr x, z3::expr y) {
  unsigned w = x.get_sort().bv_size();
  x = x.simplify();
  y = y.simplify();
  if (x.is_numeral() || y.is_numeral()) return x * y;
  if (x.id() > y.id()) std::swap(x, y);
  z3::func_decl f = zc.function(("product" + std::to_string(w)).c_str(), zc.bv_sort(w), zc.bv_sort(w), zc.bv_sort(w));
  z3::expr p = f(x, y);
  for (auto& d : products)
    if (z3::eq(d.arg(0), p)) return p;
  products.push_back(p == x * y);
  return p;
}
static z3::check_result exact(const z3::expr* e) {
  ++st.queries;
  double t = now();
  z3::expr_vector a(zc);
  if (e) a.push_back(*e);
  for (auto& d : products) a.push_back(d);
  z3::check_result r = solver->check(a);
  st.solver_s += now() - t;
  (r == z3::sat ? st.sat : r == z3::unsat ? st.unsat : st.unknown)++;
  return r;
}
static z3::check_result ask(const z3::expr& e) {
  ++st.queries;
  double t = now();
  z3::expr_vector a(zc);
  a.push_back(e);
  z3::check_result r = solver->check(a);
  st.solver_s += now() - t;
  (r == z3::sat ? st.sat : r == z3::unsat ? st.unsat : st.unknown)++;
  return r;
}
// A decision among alternatives; each alternative is a condition.
static u64 decide(const vector<std::pair<u64, z3::expr>>& alts) {
  if (pos < trace.size()) {
    u64 k = trace[pos++];
    for (auto& [v, e] : alts)
      if (v == k) {
        solver->add(e);
        return k;
      }
    throw Unsupported{"replayed decision not offered"};
  }
  vector<u64> ok;
  for (auto& [v, e] : alts)
    if (ask(e) != z3::unsat) ok.push_back(v);
  if (ok.empty()) throw Killed{};
  st.forks += ok.size() > 1;
  for (size_t i = 1; i < ok.size(); ++i) {
    vector<u64> t(trace.begin(), trace.begin() + pos);
    t.push_back(ok[i]);
    worklist.push_back(std::move(t));
  }
  trace.resize(pos);
  trace.push_back(ok[0]);
  ++pos;
  for (auto& [v, e] : alts)
    if (v == ok[0]) solver->add(e);
  return ok[0];
}
// Conditions the path implies (hash-consed, kept alive so that ids stay unique).
// `entailed` comes from branches only: decisions must not depend on checks,
// which are skipped while a trace is replayed.
static std::set<unsigned> entailed, proved;
static vector<z3::expr> kept;
static void entail(std::set<unsigned>& s, const z3::expr& e) {
  if (s.insert(e.id()).second) kept.push_back(e);
}
static bool branch(const Val& b) {
  if (b.conc()) return b.c & 1;
  z3::expr t = (b.x() == zc.bv_val(1, 1)).simplify(), f = (!t).simplify();
  if (entailed.count(t.id())) return true;
  if (entailed.count(f.id())) return false;
  bool r = decide({{1, t}, {0, f}});
  entail(entailed, r ? t : f);
  return r;
}
static void record(const string& label, const string& kind, const string& note, const z3::model* m) {
  labels[label].refuted++;
  Violation v{label, kind, note, {}};
  for (auto& i : inputs) {
    u64 c = 0;
    if (m) m->eval(i.e, true).is_numeral_u64(c);
    v.inputs.push_back({i.name, c});
  }
  int same = 0;
  for (auto& o : violations) same += o.label == label;
  if (same < 8) violations.push_back(v);
}
[[noreturn]] static void fail(const string& label, const string& kind, const string& note) {
  labels[label].evaluated++;
  // any values satisfying the path condition are a counterexample
  z3::check_result r = exact(nullptr);
  if (r == z3::unsat) throw Killed{};
  if (r == z3::sat) {
    z3::model m = solver->get_model();
    record(label, kind, note, &m);
  } else {
    labels[label].unknown++;
  }
  throw Stop{};
}
static void check(const string& label, const z3::expr& cond, const string& kind = "check", const string& note = "") {
  if (pos < trace.size()) return;  // decided on the path this one branched from
  Stat& s = labels[label];
  s.evaluated++;
  z3::expr c = cond.simplify();
  if (c.is_true() || entailed.count(c.id()) || proved.count(c.id())) {
    s.discharged++;
    return;
  }
  z3::expr nc = !c;
  z3::check_result r = ask(nc);
  if (r != z3::unsat && !products.empty()) r = exact(&nc);
  if (r == z3::unsat) {
    s.discharged++;
    entail(proved, c);
    return;
  }
  if (r == z3::unknown) {
    s.unknown++;
    return;
  }
  z3::model m = solver->get_model();
  record(label, kind, note, &m);
  if (ask(c) != z3::sat) throw Stop{};
  solver->add(c);
}
static u64 concretize(const Val& v, const char* what) {
  if (v.conc()) return v.c;
  for (int n = 0; n < 4096; ++n) {
    u64 k;
    if (pos < trace.size()) {
      // trace: value taken (odd entry marks "not this value")
      k = trace[pos];
      u64 take = trace[pos + 1];
      pos += 2;
      z3::expr eq = v.x() == zc.bv_val(static_cast<uint64_t>(k), v.w);
      solver->add(take ? eq : !eq);
      if (take) return k;
      continue;
    }
    ++st.queries;
    if (solver->check() != z3::sat) throw Killed{};
    z3::model m = solver->get_model();
    if (!m.eval(v.x(), true).is_numeral_u64(k)) throw Unsupported{what};
    z3::expr eq = v.x() == zc.bv_val(static_cast<uint64_t>(k), v.w);
    if (ask(!eq) != z3::unsat) {
      vector<u64> t(trace.begin(), trace.begin() + pos);
      t.push_back(k);
      t.push_back(0);
      worklist.push_back(t);
    }
    trace.resize(pos);
    trace.push_back(k);
    trace.push_back(1);
    pos += 2;
    solver->add(eq);
    return k;
  }
  throw Unsupported{string("too many values for ") + what};
}

// ---- memory ---------------------------------------------------------------
struct Byte {
  uint8_t kind = 0;  // 0 uninitialised, 1 concrete, 2 symbolic
  uint8_t c = 0;
  std::shared_ptr<z3::expr> e;
};
struct Obj {
  u64 base = 0;
  Val size;
  bool live = true;
  char kind = 'h';  // heap, stack, global, function
  bool array = false;
  vector<Byte> bytes;
};
static std::map<u64, Obj> mem;
static std::map<u64, Obj> mem0;  // globals as initialised
static u64 next_addr, next_addr0 = 0x10000;
static std::map<u64, L::Function*> fn_at;
static std::unordered_map<const L::GlobalValue*, u64> gaddr;
static long uninit_n;
static long live_heap;

static u64 alloc(const Val& size, char kind) {
  u64 base = next_addr;
  u64 span = size.conc() ? (size.c + 64 + 15) / 16 * 16 : (1ull << 33);
  next_addr += span;
  Obj o;
  o.base = base;
  o.size = size;
  o.kind = kind;
  mem[base] = std::move(o);
  if (kind == 'h') ++live_heap;
  return base;
}
static Obj* object_at(u64 a) {
  auto it = mem.upper_bound(a);
  if (it == mem.begin()) return nullptr;
  --it;
  return &it->second;
}
static string hex(u64 v) {
  char b[32];
  snprintf(b, sizeof b, "0x%llx", static_cast<unsigned long long>(v));
  return b;
}
static Obj& access(u64 a, u64 n, const char* what) {
  Obj* o = a < 4096 ? nullptr : object_at(a);
  if (!o || o->kind == 'f') fail("memory is accessed only inside live objects", "crash", string(what) + " at invalid address " + hex(a));
  if (!o->live) fail("memory is accessed only inside live objects", "crash", string(what) + " of " + std::to_string(n) + " bytes after the object's lifetime");
  u64 off = a - o->base;
  if (o->size.conc()) {
    if (off + n > o->size.c) fail("memory is accessed only inside live objects", "crash", string(what) + " out of bounds");
  } else {
    check("memory is accessed only inside live objects", z3::ule(zc.bv_val(static_cast<uint64_t>(off + n), 64), o->size.x()), "crash", string(what) + " out of bounds");
  }
  if (o->bytes.size() < off + n) o->bytes.resize(off + n);
  return *o;
}
static void store_bytes(u64 a, const Val& v, unsigned n) {
  Obj& o = access(a, n, "write");
  u64 off = a - o.base;
  if (v.conc()) {
    for (unsigned i = 0; i < n; ++i) o.bytes[off + i] = {1, static_cast<uint8_t>(i < 8 ? v.c >> (8 * i) : 0), nullptr};
    return;
  }
  z3::expr e = v.x();
  if (v.w < 8 * n) e = z3::zext(e, 8 * n - v.w);
  for (unsigned i = 0; i < n; ++i) {
    z3::expr b = e.extract(8 * i + 7, 8 * i).simplify();
    u64 c;
    if (b.is_numeral_u64(c)) o.bytes[off + i] = {1, static_cast<uint8_t>(c), nullptr};
    else o.bytes[off + i] = {2, 0, std::make_shared<z3::expr>(b)};
  }
}
static Val load_bytes(u64 a, unsigned n, unsigned w) {
  Obj& o = access(a, n, "read");
  u64 off = a - o.base;
  bool conc = true;
  u64 c = 0;
  for (unsigned i = 0; i < n; ++i) {
    Byte& b = o.bytes[off + i];
    if (b.kind == 0) {  // any value
      b.kind = 2;
      b.e = std::make_shared<z3::expr>(zc.bv_const(("uninit" + std::to_string(uninit_n++)).c_str(), 8));
    }
    if (b.kind == 1) c |= i < 8 ? static_cast<u64>(b.c) << (8 * i) : 0;
    else conc = false;
  }
  if (conc) return C(w, c);
  z3::expr_vector parts(zc);
  for (unsigned i = n; i-- > 0;) {
    Byte& b = o.bytes[off + i];
    parts.push_back(b.kind == 1 ? zc.bv_val(static_cast<unsigned>(b.c), 8) : *b.e);
  }
  z3::expr e = parts.size() == 1 ? parts[0] : z3::concat(parts);
  if (w < 8 * n) e = e.extract(w - 1, 0);
  return mk(e);
}

// ---- the interpreter -------------------------------------------------------
static std::unique_ptr<L::Module> M;
static const L::DataLayout* DL;

static unsigned width(L::Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  string s;
  L::raw_string_ostream os(s);
  t->print(os);
  throw Unsupported{"type " + os.str()};
}
static bool aggregate(L::Type* t) { return t->isStructTy() || t->isArrayTy() || L::isa<L::FixedVectorType>(t); }
static unsigned agg_n(L::Type* t) {
  if (auto* s = L::dyn_cast<L::StructType>(t)) return s->getNumElements();
  if (auto* a = L::dyn_cast<L::ArrayType>(t)) return a->getNumElements();
  return L::cast<L::FixedVectorType>(t)->getNumElements();
}
static L::Type* agg_t(L::Type* t, unsigned i) {
  if (auto* s = L::dyn_cast<L::StructType>(t)) return s->getElementType(i);
  if (auto* a = L::dyn_cast<L::ArrayType>(t)) return a->getElementType();
  return L::cast<L::FixedVectorType>(t)->getElementType();
}
static u64 agg_off(L::Type* t, unsigned i) {
  if (auto* s = L::dyn_cast<L::StructType>(t)) return DL->getStructLayout(s)->getElementOffset(i);
  return DL->getTypeAllocSize(agg_t(t, i)) * i;
}
static V zero(L::Type* t) {
  if (!aggregate(t)) return V{C(width(t), 0)};
  V v;
  v.is_agg = true;
  for (unsigned i = 0; i < agg_n(t); ++i) v.agg.push_back(zero(agg_t(t, i)));
  return v;
}
static void store(u64 a, const V& v, L::Type* t) {
  if (aggregate(t)) {
    for (unsigned i = 0; i < agg_n(t); ++i) store(a + agg_off(t, i), v.agg[i], agg_t(t, i));
    return;
  }
  store_bytes(a, v.s, DL->getTypeStoreSize(t));
}
static V load(u64 a, L::Type* t) {
  if (aggregate(t)) {
    V v;
    v.is_agg = true;
    for (unsigned i = 0; i < agg_n(t); ++i) v.agg.push_back(load(a + agg_off(t, i), agg_t(t, i)));
    return v;
  }
  return V{load_bytes(a, DL->getTypeStoreSize(t), width(t))};
}
struct Frame {
  std::unordered_map<const L::Value*, V> regs;
  vector<u64> allocas;
};
static V eval(const L::Value* v, Frame& f);
static V constant(const L::Constant* c) {
  L::Type* t = c->getType();
  if (auto* i = L::dyn_cast<L::ConstantInt>(c)) {
    if (i->getBitWidth() > 64) return V{mk(zc.bv_val(L::toString(i->getValue(), 10, false).c_str(), i->getBitWidth()))};
    return V{C(i->getBitWidth(), i->getZExtValue())};
  }
  if (L::isa<L::ConstantPointerNull>(c)) return V{C(64, 0)};
  if (auto* fp = L::dyn_cast<L::ConstantFP>(c)) return V{C(width(t), fp->getValueAPF().bitcastToAPInt().getZExtValue())};
  if (auto* g = L::dyn_cast<L::GlobalValue>(c)) {
    auto it = gaddr.find(g);
    if (it == gaddr.end()) throw Unsupported{"global " + g->getName().str()};
    return V{C(64, it->second)};
  }
  if (L::isa<L::UndefValue>(c) || L::isa<L::ConstantAggregateZero>(c)) return zero(t);
  if (auto* d = L::dyn_cast<L::ConstantDataSequential>(c)) {
    V v;
    v.is_agg = true;
    for (unsigned i = 0; i < d->getNumElements(); ++i) v.agg.push_back(constant(d->getElementAsConstant(i)));
    return v;
  }
  if (auto* a = L::dyn_cast<L::ConstantAggregate>(c)) {
    V v;
    v.is_agg = true;
    for (unsigned i = 0; i < a->getNumOperands(); ++i) v.agg.push_back(constant(a->getOperand(i)));
    return v;
  }
  if (auto* e = L::dyn_cast<L::ConstantExpr>(c)) {
    if (e->getOpcode() == L::Instruction::GetElementPtr) {
      L::APInt off(64, 0);
      auto* g = L::cast<L::GEPOperator>(e);
      if (!g->accumulateConstantOffset(*DL, off)) throw Unsupported{"constant gep"};
      return V{C(64, constant(L::cast<L::Constant>(g->getPointerOperand())).s.c + off.getSExtValue())};
    }
    if (e->getOpcode() == L::Instruction::PtrToInt || e->getOpcode() == L::Instruction::IntToPtr || e->getOpcode() == L::Instruction::BitCast) {
      V v = constant(e->getOperand(0));
      return V{C(width(t), v.s.c)};
    }
    if (e->getOpcode() == L::Instruction::Sub || e->getOpcode() == L::Instruction::Add) {
      u64 a = constant(e->getOperand(0)).s.c, b = constant(e->getOperand(1)).s.c;
      return V{C(width(t), e->getOpcode() == L::Instruction::Sub ? a - b : a + b)};
    }
    if (e->getOpcode() == L::Instruction::Trunc) return V{C(width(t), constant(e->getOperand(0)).s.c)};
  }
  string s;
  L::raw_string_ostream os(s);
  c->print(os);
  throw Unsupported{"constant " + os.str()};
}
static V eval(const L::Value* v, Frame& f) {
  if (auto* c = L::dyn_cast<L::Constant>(v)) return constant(c);
  auto it = f.regs.find(v);
  if (it == f.regs.end()) {
    if (v->getType()->isMetadataTy()) return V{};
    string s;
    L::raw_string_ostream os(s);
    v->print(os);
    throw Unsupported{"value " + os.str()};
  }
  return it->second;
}
static long div_n;
static double fp(const Val& v) {
  if (!v.conc()) throw Unsupported{"symbolic floating point"};
  if (v.w == 32) {
    float r;
    uint32_t c = static_cast<uint32_t>(v.c);
    memcpy(&r, &c, 4);
    return r;
  }
  double r;
  memcpy(&r, &v.c, 8);
  return r;
}
static Val fpv(double d, unsigned w) {
  u64 c = 0;
  if (w == 32) {
    float g = static_cast<float>(d);
    memcpy(&c, &g, 4);
  } else {
    memcpy(&c, &d, 8);
  }
  return C(w, c);
}
static Val binop(unsigned op, const Val& a, const Val& b) {
  unsigned w = a.w;
  using I = L::Instruction;
  if (a.conc() && b.conc() && w <= 64) {
    switch (op) {
      case I::Add: return C(w, a.c + b.c);
      case I::Sub: return C(w, a.c - b.c);
      case I::Mul: return C(w, a.c * b.c);
      case I::And: return C(w, a.c & b.c);
      case I::Or: return C(w, a.c | b.c);
      case I::Xor: return C(w, a.c ^ b.c);
      case I::Shl: return C(w, b.c >= w ? 0 : a.c << b.c);
      case I::LShr: return C(w, b.c >= w ? 0 : a.c >> b.c);
      case I::AShr: return C(w, static_cast<u64>(sx(a) >> std::min<u64>(b.c, 63)));
      case I::FAdd: return fpv(fp(a) + fp(b), w);
      case I::FSub: return fpv(fp(a) - fp(b), w);
      case I::FMul: return fpv(fp(a) * fp(b), w);
      case I::FDiv: return fpv(fp(a) / fp(b), w);
    }
    if (b.c == 0) fail("no division by zero", "crash", "division by zero");
    switch (op) {
      case I::UDiv: return C(w, a.c / b.c);
      case I::URem: return C(w, a.c % b.c);
      case I::SDiv: return sx(b) == -1 ? C(w, -a.c) : C(w, static_cast<u64>(sx(a) / sx(b)));
      case I::SRem: return sx(b) == -1 ? C(w, 0) : C(w, static_cast<u64>(sx(a) % sx(b)));
    }
    throw Unsupported{"binary operator"};
  }
  z3::expr x = a.x(), y = b.x();
  switch (op) {
    case I::Add: return mk(x + y);
    case I::Sub: return mk(x - y);
    case I::Mul: return w >= 64 ? mk(product(x, y)) : mk(x * y);
    case I::And: return mk(x & y);
    case I::Or: return mk(x | y);
    case I::Xor: return mk(x ^ y);
    case I::Shl: return mk(z3::shl(x, y));
    case I::LShr: return mk(z3::lshr(x, y));
    case I::AShr: return mk(z3::ashr(x, y));
  }
  if (op == I::UDiv || op == I::SDiv || op == I::URem || op == I::SRem) {
    check("no division by zero", y != zc.bv_val(0, w), "crash", "division by zero");
    bool sg = op == I::SDiv || op == I::SRem;
    if (w > 32 || (b.conc())) {
      switch (op) {
        case I::UDiv: return mk(z3::udiv(x, y));
        case I::URem: return mk(z3::urem(x, y));
        case I::SDiv: return mk(x / y);
        default: return mk(z3::srem(x, y));
      }
    }
    // Quotient and remainder by their defining relation in twice the width,
    // which later products can reuse.
    string n = std::to_string(div_n++);
    z3::expr q = zc.bv_const(("quot" + n).c_str(), w), r = zc.bv_const(("rem" + n).c_str(), w);
    auto wide = [&](const z3::expr& e) { return sg ? z3::sext(e, w) : z3::zext(e, w); };
    z3::expr X = wide(x), Y = wide(y), Q = wide(q), R = wide(r), Z = zc.bv_val(0, 2 * w);
    if (!sg || ask(!(x >= zc.bv_val(0, w) && y > zc.bv_val(0, w))) == z3::unsat) {
      // both non-negative as signed numbers or unsigned
      solver->add(product(Q, Y) + R == X);
      solver->add(z3::ult(R, Y) && z3::ule(R, X) && z3::ule(Q, X) && z3::ule(X - R, X));
    } else {
      // INT_MIN / -1 does not occur (checked by the overflow sanitizer)
      solver->add(z3::implies(!(x == (zc.bv_val(1, w) << static_cast<int>(w - 1)) && y == zc.bv_val(-1, w)), product(Q, Y) + R == X));
      z3::expr aR = z3::ite(R < Z, -R, R), aY = z3::ite(Y < Z, -Y, Y);
      solver->add(aR < aY);
      // consequences, spelled out for the solver
      z3::expr aX = z3::ite(X < Z, -X, X), aQ = z3::ite(Q < Z, -Q, Q);
      solver->add(aQ <= aX && aR <= aX);
      solver->add(R == Z || (R < Z) == (X < Z));
      solver->add(Q == Z || (Q < Z) == ((X < Z) != (Y < Z)));
    }
    return mk(op == I::UDiv || op == I::SDiv ? q : r);
  }
  throw Unsupported{"symbolic binary operator"};
}
static Val b1(const z3::expr& e) {
  z3::expr s = e.simplify();
  if (s.is_true()) return C(1, 1);
  if (s.is_false()) return C(1, 0);
  return {1, 0, z3::ite(s, zc.bv_val(1, 1), zc.bv_val(0, 1))};
}
static Val icmp(L::CmpInst::Predicate p, const Val& a, const Val& b) {
  using P = L::CmpInst;
  if (a.conc() && b.conc() && a.w <= 64) {
    switch (p) {
      case P::ICMP_EQ: return C(1, a.c == b.c);
      case P::ICMP_NE: return C(1, a.c != b.c);
      case P::ICMP_ULT: return C(1, a.c < b.c);
      case P::ICMP_ULE: return C(1, a.c <= b.c);
      case P::ICMP_UGT: return C(1, a.c > b.c);
      case P::ICMP_UGE: return C(1, a.c >= b.c);
      case P::ICMP_SLT: return C(1, sx(a) < sx(b));
      case P::ICMP_SLE: return C(1, sx(a) <= sx(b));
      case P::ICMP_SGT: return C(1, sx(a) > sx(b));
      case P::ICMP_SGE: return C(1, sx(a) >= sx(b));
      default: break;
    }
  }
  z3::expr x = a.x(), y = b.x();
  switch (p) {
    case P::ICMP_EQ: return b1(x == y);
    case P::ICMP_NE: return b1(x != y);
    case P::ICMP_ULT: return b1(z3::ult(x, y));
    case P::ICMP_ULE: return b1(z3::ule(x, y));
    case P::ICMP_UGT: return b1(z3::ugt(x, y));
    case P::ICMP_UGE: return b1(z3::uge(x, y));
    case P::ICMP_SLT: return b1(x < y);
    case P::ICMP_SLE: return b1(x <= y);
    case P::ICMP_SGT: return b1(x > y);
    case P::ICMP_SGE: return b1(x >= y);
    default: throw Unsupported{"icmp"};
  }
}
static Val fcmp(L::CmpInst::Predicate p, double a, double b) {
  using P = L::CmpInst;
  bool un = std::isnan(a) || std::isnan(b);
  switch (p) {
    case P::FCMP_FALSE: return C(1, 0);
    case P::FCMP_TRUE: return C(1, 1);
    case P::FCMP_OEQ: return C(1, !un && a == b);
    case P::FCMP_ONE: return C(1, !un && a != b);
    case P::FCMP_OLT: return C(1, !un && a < b);
    case P::FCMP_OLE: return C(1, !un && a <= b);
    case P::FCMP_OGT: return C(1, !un && a > b);
    case P::FCMP_OGE: return C(1, !un && a >= b);
    case P::FCMP_ORD: return C(1, !un);
    case P::FCMP_UNO: return C(1, un);
    case P::FCMP_UEQ: return C(1, un || a == b);
    case P::FCMP_UNE: return C(1, un || a != b);
    case P::FCMP_ULT: return C(1, un || a < b);
    case P::FCMP_ULE: return C(1, un || a <= b);
    case P::FCMP_UGT: return C(1, un || a > b);
    case P::FCMP_UGE: return C(1, un || a >= b);
    default: throw Unsupported{"fcmp"};
  }
}
static Val ite(const Val& c, const Val& a, const Val& b) {
  if (c.conc()) return c.c & 1 ? a : b;
  return mk(z3::ite(c.x() == zc.bv_val(1, 1), a.x(), b.x()));
}
static V select(const Val& c, const V& a, const V& b) {
  if (c.conc()) return c.c & 1 ? a : b;
  if (!a.is_agg) return V{ite(c, a.s, b.s)};
  V r;
  r.is_agg = true;
  for (size_t i = 0; i < a.agg.size(); ++i) r.agg.push_back(select(c, a.agg[i], b.agg[i]));
  return r;
}
static string cstr(u64 a) {
  string r;
  for (;; ++a) {
    Val v = load_bytes(a, 1, 8);
    if (!v.conc() || !v.c) return r;
    r += static_cast<char>(v.c);
  }
}
static Val input(const string& name, unsigned w) {
  string n = name;
  for (int k = 2;; ++k) {
    bool dup = false;
    for (auto& i : inputs) dup = dup || i.name == n;
    if (!dup) break;
    n = name + "#" + std::to_string(k);
  }
  z3::expr e = zc.bv_const(n.c_str(), w);
  inputs.push_back({n, w, e});
  return {w, 0, e};
}
static void copy_mem(u64 d, u64 s, u64 n) {
  if (!n) return;
  Obj& so = access(s, n, "read");
  vector<Byte> tmp(so.bytes.begin() + (s - so.base), so.bytes.begin() + (s - so.base + n));
  Obj& o = access(d, n, "write");
  std::copy(tmp.begin(), tmp.end(), o.bytes.begin() + (d - o.base));
}
static void release(u64 p, bool array, const char* what) {
  (void)array;
  if (!p) return;
  Obj* o = object_at(p);
  if (!o || o->base != p || o->kind != 'h') fail("only allocated memory is freed", "crash", string(what) + " of an address that was not allocated");
  if (!o->live) fail("memory is freed once", "crash", string(what) + " of memory already freed");
  o->live = false;
  --live_heap;
}
static u64 exn_live;
static int depth;
static V call(L::Function* fn, vector<V> args);

static V external(L::Function* fn, const L::CallBase& cb, vector<V>& a) {
  string n = fn->getName().str();
  L::Type* rt = fn->getReturnType();
  auto ptr = [&](int i) { return concretize(a[i].s, "pointer"); };
  if (auto id = fn->getIntrinsicID()) {
    auto ov = [&](auto f, auto noov) {
      V r;
      r.is_agg = true;
      unsigned w = a[0].s.w;
      (void)w;
      z3::expr x = a[0].s.x(), y = a[1].s.x();
      r.agg.push_back(V{f()});
      r.agg.push_back(V{b1(!noov(x, y))});
      return r;
    };
    switch (id) {
      case L::Intrinsic::memcpy:
      case L::Intrinsic::memmove: {
        u64 len = concretize(a[2].s, "length");
        if (len) copy_mem(ptr(0), ptr(1), len);
        return {};
      }
      case L::Intrinsic::memset: {
        u64 len = concretize(a[2].s, "length"), d = len ? ptr(0) : 0;
        for (u64 i = 0; i < len; ++i) store_bytes(d + i, a[1].s, 1);
        return {};
      }
      case L::Intrinsic::lifetime_start:
      case L::Intrinsic::lifetime_end: {
        if (Obj* o = object_at(ptr(1)); o && o->kind == 's') {
          o->live = id == L::Intrinsic::lifetime_start;
          o->bytes.clear();
        }
        return {};
      }
      case L::Intrinsic::assume:
      case L::Intrinsic::experimental_noalias_scope_decl:
      case L::Intrinsic::dbg_declare:
      case L::Intrinsic::dbg_value: return {};
      case L::Intrinsic::expect: return a[0];
      case L::Intrinsic::is_constant: return V{C(1, 0)};
      case L::Intrinsic::launder_invariant_group:
      case L::Intrinsic::strip_invariant_group:
      case L::Intrinsic::threadlocal_address: return a[0];
      case L::Intrinsic::umin: return V{ite(icmp(L::CmpInst::ICMP_ULT, a[0].s, a[1].s), a[0].s, a[1].s)};
      case L::Intrinsic::umax: return V{ite(icmp(L::CmpInst::ICMP_UGT, a[0].s, a[1].s), a[0].s, a[1].s)};
      case L::Intrinsic::smin: return V{ite(icmp(L::CmpInst::ICMP_SLT, a[0].s, a[1].s), a[0].s, a[1].s)};
      case L::Intrinsic::smax: return V{ite(icmp(L::CmpInst::ICMP_SGT, a[0].s, a[1].s), a[0].s, a[1].s)};
      case L::Intrinsic::abs: return V{ite(icmp(L::CmpInst::ICMP_SLT, a[0].s, C(a[0].s.w, 0)), binop(L::Instruction::Sub, C(a[0].s.w, 0), a[0].s), a[0].s)};
      case L::Intrinsic::usub_sat: return V{ite(icmp(L::CmpInst::ICMP_UGT, a[0].s, a[1].s), binop(L::Instruction::Sub, a[0].s, a[1].s), C(a[0].s.w, 0))};
      case L::Intrinsic::sadd_with_overflow:
        return ov([&] { return binop(L::Instruction::Add, a[0].s, a[1].s); },
                  [](const z3::expr& x, const z3::expr& y) { return z3::bvadd_no_overflow(x, y, true) && z3::bvadd_no_underflow(x, y); });
      case L::Intrinsic::ssub_with_overflow:
        return ov([&] { return binop(L::Instruction::Sub, a[0].s, a[1].s); },
                  [](const z3::expr& x, const z3::expr& y) { return z3::bvsub_no_overflow(x, y) && z3::bvsub_no_underflow(x, y, true); });
      case L::Intrinsic::smul_with_overflow:
        return ov([&] { return binop(L::Instruction::Mul, a[0].s, a[1].s); },
                  [](const z3::expr& x, const z3::expr& y) { return z3::bvmul_no_overflow(x, y, true) && z3::bvmul_no_underflow(x, y); });
      case L::Intrinsic::uadd_with_overflow:
        return ov([&] { return binop(L::Instruction::Add, a[0].s, a[1].s); },
                  [](const z3::expr& x, const z3::expr& y) { return z3::bvadd_no_overflow(x, y, false); });
      case L::Intrinsic::usub_with_overflow:
        return ov([&] { return binop(L::Instruction::Sub, a[0].s, a[1].s); },
                  [](const z3::expr& x, const z3::expr& y) { return z3::uge(x, y); });
      case L::Intrinsic::umul_with_overflow:
        return ov([&] { return binop(L::Instruction::Mul, a[0].s, a[1].s); },
                  [](const z3::expr& x, const z3::expr& y) { return z3::bvmul_no_overflow(x, y, false); });
      case L::Intrinsic::ubsantrap: fail("no undefined arithmetic", "crash", "undefined behaviour (sanitizer kind " + std::to_string(a[0].s.c) + ")");
      case L::Intrinsic::trap: fail("no trap", "crash", "trap");
      case L::Intrinsic::eh_typeid_for: return V{C(32, 1)};
      case L::Intrinsic::objectsize: return V{C(width(rt), ~0ull)};
      case L::Intrinsic::load_relative: {
        u64 b = ptr(0);
        return V{C(64, b + static_cast<u64>(sx(load_bytes(b + concretize(a[1].s, "offset"), 4, 32))))};
      }
      case L::Intrinsic::fabs: return V{fpv(std::fabs(fp(a[0].s)), a[0].s.w)};
      default: throw Unsupported{"intrinsic " + n};
    }
  }
  // Harness interface
  if (n == "vx_i32") return V{input(cstr(ptr(0)), 32)};
  if (n == "vx_u64") return V{input(cstr(ptr(0)), 64)};
  if (n == "vx_choose") {
    Val v = input(cstr(ptr(0)), 32);
    solver->add(z3::ult(v.x(), a[1].s.x()));
    if (shard >= 0 && !sharded) {
      sharded = true;
      solver->add(v.x() == zc.bv_val(shard, 32));
      return V{C(32, shard)};
    }
    if (a[1].s.conc() && a[1].s.c > 0) choices[v.e->id()] = a[1].s.c;
    return V{v};
  }
  if (n == "vx_fork" && !a[0].s.conc() && choices.count(a[0].s.e->id())) {
    // an unconstrained choice: every value is possible
    z3::expr e = *a[0].s.e;
    u64 k = 0, top = choices[e.id()];
    choices.erase(e.id());
    if (pos < trace.size()) {
      k = trace[pos++];
    } else {
      trace.resize(pos);
      for (u64 v = top; --v > 0;) {
        vector<u64> t = trace;
        t.push_back(v);
        worklist.push_back(std::move(t));
      }
      st.forks += top > 1;
      trace.push_back(0);
      ++pos;
    }
    solver->add(e == zc.bv_val(static_cast<uint64_t>(k), 32));
    return V{C(32, k)};
  }
  if (n == "vx_fork") return V{C(32, concretize(a[0].s, "forked value"))};
  if (n == "vx_thorough") return V{C(1, thorough)};
  if (n == "vx_assume") {
    if (a[0].s.conc()) {
      if (!(a[0].s.c & 1)) throw Killed{};
      return {};
    }
    z3::expr c = a[0].s.x() == zc.bv_val(1, 1);
    if (ask(c) == z3::unsat) throw Killed{};
    solver->add(c);
    return {};
  }
  if (n == "vx_check") {
    check(cstr(ptr(1)), a[0].s.x() == zc.bv_val(1, 1));
    return {};
  }
  if (n == "vx_expect_assert") {
    expect_assert = true;
    return {};
  }
  if (n == "vx_reach") {
    path_reached.insert(cstr(ptr(0)));
    return {};
  }
  if (n == "vx_live_allocations") return V{C(64, live_heap)};
  if (n == "vx_check_block") {  // (p, n): inside one live heap object
    ++labels["block inside live memory"].evaluated;
    z3::expr p = a[0].s.x(), len = a[1].s.x();
    u64 v;
    if (a[0].s.conc()) {
      v = a[0].s.c;
    } else {
      ++st.queries;
      if (solver->check() != z3::sat) throw Killed{};
      if (!solver->get_model().eval(p, true).is_numeral_u64(v)) throw Unsupported{"block"};
    }
    Obj* o = object_at(v);
    --labels["block inside live memory"].evaluated;
    if (!o || !o->live || o->kind != 'h') fail("block inside live memory", "check", "the block is not in live heap memory");
    z3::expr base = zc.bv_val(static_cast<uint64_t>(o->base), 64);
    check("block inside live memory", z3::uge(p, base) && z3::ule(p - base, o->size.x()) && z3::ule(len, o->size.x() - (p - base)));
    return {};
  }
  // The C and C++ runtime
  if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t") return V{C(64, alloc(a[0].s, 'h'))};
  if (n.rfind("_ZdlPv", 0) == 0 || n.rfind("_ZdaPv", 0) == 0 || n == "free") {
    release(ptr(0), n[2] == 'a', "free");
    return {};
  }
  if (n == "__assert_fail" && expect_assert) {
    Stat& s = labels["misuse is rejected by an assertion"];
    s.evaluated++;
    s.discharged++;
    path_reached.insert("assertion");
    throw Rejected{};
  }
  if (n == "__assert_fail") fail("no assertion fails", "crash", "assertion " + cstr(ptr(0)));
  if (n == "abort" || n == "_ZSt9terminatev" || n == "__cxa_pure_virtual") fail("no abort", "crash", n);
  if (n == "__cxa_allocate_exception") return V{C(64, alloc(C(64, 64), 'x'))};
  if (n == "__cxa_free_exception" || n == "__cxa_end_catch" || n == "__cxa_atexit" || n == "__cxa_thread_atexit" || n == "__cxa_guard_release") return zero(rt->isVoidTy() ? L::Type::getInt32Ty(M->getContext()) : rt);
  if (n == "__cxa_guard_acquire") return V{C(32, 1)};
  if (n == "__cxa_begin_catch") return a[0];
  if (n == "__cxa_throw") throw IrException{a[0].s.c};
  if (n == "__cxa_rethrow") throw IrException{exn_live};
  if (n.rfind("_ZSt20__throw_", 0) == 0 || n.rfind("_ZSt17__throw_", 0) == 0 || n.rfind("_ZSt19__throw_", 0) == 0 || n.rfind("_ZSt28__throw_", 0) == 0 || n.rfind("_ZSt24__throw_", 0) == 0) throw IrException{0};
  if (n == "_ZNSt12length_errorC1EPKc" || n == "_ZNSt12length_errorD1Ev" || n == "_ZNSt12out_of_rangeC1EPKc" || n == "_ZNSt9bad_allocD1Ev") return {};
  if (n == "memcmp" || n == "bcmp") {
    u64 len = concretize(a[2].s, "length"), p = ptr(0), q = ptr(1);
    for (u64 i = 0; i < len; ++i) {
      u64 x = concretize(load_bytes(p + i, 1, 8), "byte"), y = concretize(load_bytes(q + i, 1, 8), "byte");
      if (x != y) return V{C(32, x < y ? -1 : 1)};
    }
    return V{C(32, 0)};
  }
  if (n == "memcpy" || n == "memmove") {
    copy_mem(ptr(0), ptr(1), concretize(a[2].s, "length"));
    return a[0];
  }
  if (n == "strlen") return V{C(64, cstr(ptr(0)).size())};
  (void)cb;
  throw Unsupported{"external function " + n};
}

static V run_block_call(const L::CallBase& cb, Frame& f) {
  L::Value* callee = cb.getCalledOperand();
  L::Function* fn = L::dyn_cast<L::Function>(callee);
  if (!fn) {
    if (L::isa<L::InlineAsm>(callee)) {
      // empty asm statements are optimisation barriers
      if (L::cast<L::InlineAsm>(callee)->getAsmString().empty()) return {};
      throw Unsupported{"inline assembly"};
    }
    u64 p = concretize(eval(callee, f).s, "function pointer");
    auto it = fn_at.find(p);
    if (it == fn_at.end()) fail("only functions are called", "crash", "call through invalid pointer " + hex(p));
    fn = it->second;
  }
  vector<V> args;
  for (auto& a : cb.args()) {
    if (a->getType()->isMetadataTy()) args.push_back({});
    else args.push_back(eval(a, f));
  }
  if (fn->isDeclaration()) return external(fn, cb, args);
  return call(fn, std::move(args));
}
static V call(L::Function* fn, vector<V> args) {
  if (++depth > 400) fail("recursion is bounded", "crash", "call depth above 400 in " + fn->getName().str());
  functions.insert(fn->getName().str());
  struct Guard {
    Frame& f;
    ~Guard() {
      --depth;
      for (u64 a : f.allocas) mem.erase(a);
    }
  };
  Frame f;
  Guard guard{f};
  unsigned k = 0;
  for (auto& a : fn->args()) {
    if (a.hasByValAttr()) {  // the callee gets its own copy
      L::Type* t = a.getParamByValType();
      u64 n = DL->getTypeAllocSize(t), p = alloc(C(64, n), 's');
      f.allocas.push_back(p);
      copy_mem(p, args[k].s.c, n);
      f.regs[&a] = V{C(64, p)};
    } else {
      f.regs[&a] = args[k];
    }
    ++k;
  }
  const L::BasicBlock *bb = &fn->getEntryBlock(), *prev = nullptr;
  for (;;) {
    const L::BasicBlock* next = nullptr;
    // phis first, simultaneously
    vector<std::pair<const L::Value*, V>> phis;
    for (auto& i : *bb) {
      auto* p = L::dyn_cast<L::PHINode>(&i);
      if (!p) break;
      phis.push_back({p, eval(p->getIncomingValueForBlock(prev), f)});
    }
    for (auto& [p, v] : phis) f.regs[p] = std::move(v);
    for (auto& i : *bb) {
      if (L::isa<L::PHINode>(i)) continue;
      ++st.steps;
      if (++path_steps > 3000000) fail("the code terminates within the step bound", "hang", "step bound exceeded");
      if ((path_steps & 1023) == 0 && now() > deadline) throw Unsupported{"budget"};
      using I = L::Instruction;
      if (auto* b = L::dyn_cast<L::BinaryOperator>(&i)) {
        V x = eval(b->getOperand(0), f), y = eval(b->getOperand(1), f);
        if (x.is_agg) {
          V r;
          r.is_agg = true;
          for (size_t q = 0; q < x.agg.size(); ++q) r.agg.push_back(V{binop(b->getOpcode(), x.agg[q].s, y.agg[q].s)});
          f.regs[&i] = r;
        } else {
          f.regs[&i] = V{binop(b->getOpcode(), x.s, y.s)};
        }
        continue;
      }
      switch (i.getOpcode()) {
        case I::Alloca: {
          auto& al = L::cast<L::AllocaInst>(i);
          u64 cnt = concretize(eval(al.getArraySize(), f).s, "alloca size");
          u64 p = alloc(C(64, DL->getTypeAllocSize(al.getAllocatedType()) * cnt), 's');
          f.allocas.push_back(p);
          f.regs[&i] = V{C(64, p)};
          break;
        }
        case I::Load: {
          auto& l = L::cast<L::LoadInst>(i);
          f.regs[&i] = load(concretize(eval(l.getPointerOperand(), f).s, "address"), l.getType());
          break;
        }
        case I::Store: {
          auto& s = L::cast<L::StoreInst>(i);
          store(concretize(eval(s.getPointerOperand(), f).s, "address"), eval(s.getValueOperand(), f), s.getValueOperand()->getType());
          break;
        }
        case I::GetElementPtr: {
          auto& g = L::cast<L::GetElementPtrInst>(i);
          Val p = eval(g.getPointerOperand(), f).s;
          for (auto it = L::gep_type_begin(g); it != L::gep_type_end(g); ++it) {
            Val ix = eval(it.getOperand(), f).s;
            if (auto* s = it.getStructTypeOrNull()) {
              p = binop(I::Add, p, C(64, DL->getStructLayout(s)->getElementOffset(ix.c)));
            } else {
              u64 sz = DL->getTypeAllocSize(it.getIndexedType());
              if (ix.w < 64) ix = ix.conc() ? C(64, static_cast<u64>(sx(ix))) : mk(z3::sext(ix.x(), 64 - ix.w));
              p = binop(I::Add, p, binop(I::Mul, ix, C(64, sz)));
            }
          }
          f.regs[&i] = V{p};
          break;
        }
        case I::ICmp: {
          auto& c = L::cast<L::ICmpInst>(i);
          V x = eval(c.getOperand(0), f), y = eval(c.getOperand(1), f);
          if (x.is_agg) throw Unsupported{"vector icmp"};
          f.regs[&i] = V{icmp(c.getPredicate(), x.s, y.s)};
          break;
        }
        case I::FCmp: {
          auto& c = L::cast<L::FCmpInst>(i);
          f.regs[&i] = V{fcmp(c.getPredicate(), fp(eval(c.getOperand(0), f).s), fp(eval(c.getOperand(1), f).s))};
          break;
        }
        case I::FNeg: {
          Val v = eval(i.getOperand(0), f).s;
          f.regs[&i] = V{fpv(-fp(v), v.w)};
          break;
        }
        case I::Select: {
          V c = eval(i.getOperand(0), f);
          if (c.is_agg) throw Unsupported{"vector select"};
          f.regs[&i] = select(c.s, eval(i.getOperand(1), f), eval(i.getOperand(2), f));
          break;
        }
        case I::ZExt:
        case I::SExt:
        case I::Trunc:
        case I::PtrToInt:
        case I::IntToPtr:
        case I::BitCast:
        case I::Freeze: {
          V v = eval(i.getOperand(0), f);
          if (i.getOpcode() == I::Freeze) {
            f.regs[&i] = v;
            break;
          }
          if (v.is_agg) {
            if (i.getType() == i.getOperand(0)->getType()) {
              f.regs[&i] = v;
              break;
            }
            throw Unsupported{"vector cast"};
          }
          unsigned w = width(i.getType());
          Val s = v.s;
          if (w == s.w) f.regs[&i] = V{s};
          else if (w < s.w) f.regs[&i] = V{s.conc() ? C(w, s.c) : mk(s.x().extract(w - 1, 0))};
          else if (i.getOpcode() == I::SExt) f.regs[&i] = V{s.conc() && w <= 64 ? C(w, static_cast<u64>(sx(s))) : mk(z3::sext(s.x(), w - s.w))};
          else f.regs[&i] = V{s.conc() && w <= 64 ? C(w, s.c) : mk(z3::zext(s.x(), w - s.w))};
          break;
        }
        case I::SIToFP:
        case I::UIToFP: {
          Val v = eval(i.getOperand(0), f).s;
          if (!v.conc()) throw Unsupported{"symbolic integer to floating point"};
          f.regs[&i] = V{fpv(i.getOpcode() == I::SIToFP ? static_cast<double>(sx(v)) : static_cast<double>(v.c), width(i.getType()))};
          break;
        }
        case I::FPToSI: f.regs[&i] = V{C(width(i.getType()), static_cast<u64>(static_cast<int64_t>(fp(eval(i.getOperand(0), f).s))))}; break;
        case I::FPExt:
        case I::FPTrunc: f.regs[&i] = V{fpv(fp(eval(i.getOperand(0), f).s), width(i.getType()))}; break;
        case I::ExtractValue: {
          auto& e = L::cast<L::ExtractValueInst>(i);
          V v = eval(e.getAggregateOperand(), f);
          for (unsigned q : e.indices()) v = V(v.agg[q]);
          f.regs[&i] = v;
          break;
        }
        case I::InsertValue: {
          auto& e = L::cast<L::InsertValueInst>(i);
          V v = eval(e.getAggregateOperand(), f);
          V* p = &v;
          for (unsigned q : e.indices()) p = &p->agg[q];
          *p = eval(e.getInsertedValueOperand(), f);
          f.regs[&i] = v;
          break;
        }
        case I::ExtractElement: {
          V v = eval(i.getOperand(0), f);
          f.regs[&i] = v.agg.at(concretize(eval(i.getOperand(1), f).s, "index"));
          break;
        }
        case I::InsertElement: {
          V v = eval(i.getOperand(0), f);
          v.agg.at(concretize(eval(i.getOperand(2), f).s, "index")) = eval(i.getOperand(1), f);
          f.regs[&i] = v;
          break;
        }
        case I::ShuffleVector: {
          auto& s = L::cast<L::ShuffleVectorInst>(i);
          V x = eval(s.getOperand(0), f), y = eval(s.getOperand(1), f), r;
          r.is_agg = true;
          for (int q : s.getShuffleMask()) {
            if (q < 0) q = 0;
            r.agg.push_back(q < static_cast<int>(x.agg.size()) ? x.agg[q] : y.agg[q - x.agg.size()]);
          }
          f.regs[&i] = r;
          break;
        }
        case I::Br: {
          auto& b = L::cast<L::BranchInst>(i);
          next = b.isUnconditional() || branch(eval(b.getCondition(), f).s) ? b.getSuccessor(0) : b.getSuccessor(1);
          break;
        }
        case I::Switch: {
          auto& s = L::cast<L::SwitchInst>(i);
          Val v = eval(s.getCondition(), f).s;
          if (v.conc()) {
            next = s.getDefaultDest();
            for (auto& c : s.cases())
              if (c.getCaseValue()->getZExtValue() == v.c) next = c.getCaseSuccessor();
          } else {
            vector<std::pair<u64, z3::expr>> alts;
            z3::expr none = zc.bool_val(true);
            u64 k2 = 0;
            for (auto& c : s.cases()) {
              z3::expr eq = v.x() == zc.bv_val(static_cast<uint64_t>(c.getCaseValue()->getZExtValue()), v.w);
              alts.push_back({k2++, eq});
              none = none && !eq;
            }
            alts.push_back({k2, none});
            u64 d = decide(alts);
            if (d == k2) next = s.getDefaultDest();
            else {
              u64 q = 0;
              for (auto& c : s.cases())
                if (q++ == d) next = c.getCaseSuccessor();
            }
          }
          break;
        }
        case I::Ret: {
          auto& r = L::cast<L::ReturnInst>(i);
          return r.getReturnValue() ? eval(r.getReturnValue(), f) : V{};
        }
        case I::Call: {
          V r = run_block_call(L::cast<L::CallBase>(i), f);
          if (!i.getType()->isVoidTy()) f.regs[&i] = std::move(r);
          break;
        }
        case I::Invoke: {
          auto& in = L::cast<L::InvokeInst>(i);
          try {
            V r = run_block_call(in, f);
            if (!i.getType()->isVoidTy()) f.regs[&i] = std::move(r);
            next = in.getNormalDest();
          } catch (IrException& e) {
            exn_live = e.ptr;
            next = in.getUnwindDest();
          }
          break;
        }
        case I::LandingPad: {
          V r;
          r.is_agg = true;
          r.agg.push_back(V{C(64, exn_live)});
          r.agg.push_back(V{C(32, L::cast<L::LandingPadInst>(i).getNumClauses() ? 1 : 0)});
          f.regs[&i] = r;
          break;
        }
        case I::Resume: throw IrException{exn_live};
        case I::Unreachable: fail("no undefined behaviour", "crash", "unreachable code reached in " + fn->getName().str());
        case I::Fence: break;
        default: throw Unsupported{string("instruction ") + i.getOpcodeName()};
      }
      if (next) break;
    }
    prev = bb;
    bb = next;
  }
}

// ---- driver ---------------------------------------------------------------
static void setup() {
  next_addr = next_addr0;
  mem.clear();
  for (auto& g : M->globals()) {
    u64 n = g.isDeclaration() ? 256 : DL->getTypeAllocSize(g.getValueType()).getFixedValue();
    gaddr[&g] = alloc(C(64, n), 'g');
  }
  for (auto& fn : *M) {
    u64 p = alloc(C(64, 16), 'f');
    gaddr[&fn] = p;
    fn_at[p] = &fn;
  }
  for (auto& a : M->aliases()) {
    auto* t = a.getAliaseeObject();
    gaddr[&a] = gaddr[t];
    if (auto* fn = L::dyn_cast<L::Function>(t)) fn_at[gaddr[t]] = const_cast<L::Function*>(fn);
  }
  for (auto& g : M->globals()) {
    if (g.isDeclaration() || !g.hasInitializer()) continue;
    if (g.getName().starts_with("llvm.")) continue;
    try {
      store(gaddr[&g], constant(g.getInitializer()), g.getValueType());
    } catch (Unsupported&) {
      mem[gaddr[&g]].live = false;  // complain only when used
    }
  }
  mem0 = mem;
  next_addr0 = next_addr;
}
static string js(const string& s) {
  string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') r += '\\';
    if (c == '\n') r += "\\n";
    else r += c;
  }
  return r + "\"";
}
int main(int argc, char** argv) {
  string file, harness, out;
  double budget = 200;
  bool list = false;
  for (int i = 1; i < argc; ++i) {
    string a = argv[i];
    if (a == "--list") list = true;
    else if (a == "--harness") harness = argv[++i];
    else if (a == "--out") out = argv[++i];
    else if (a == "--budget") budget = atof(argv[++i]);
    else if (a == "--shard") shard = atoi(argv[++i]);
    else if (a == "--thorough") thorough = true;
    else file = a;
  }
  L::LLVMContext ctx;
  L::SMDiagnostic diag;
  M = L::parseIRFile(file, diag, ctx);
  if (!M) {
    diag.print("irx", L::errs());
    return 2;
  }
  DL = &M->getDataLayout();
  if (list) {
    for (auto& g : M->globals())
      if (g.getName().starts_with("irx_meta_") && g.hasInitializer())
        printf("%s\t%s\n", g.getName().substr(9).str().c_str(), L::cast<L::ConstantDataSequential>(g.getInitializer())->getAsCString().str().c_str());
    fflush(stdout);
    _exit(0);
  }
  setup();
  L::Function* entry = M->getFunction("irx_run_" + harness);
  if (!entry) return 2;
  double t0 = now();
  deadline = t0 + budget;
  string error;
  worklist.push_back({});
  while (!worklist.empty()) {
    if (now() > deadline) break;
    trace = std::move(worklist.back());
    worklist.pop_back();
    pos = 0;
    mem = mem0;
    next_addr = next_addr0;
    inputs.clear();
    path_reached.clear();
    expect_assert = sharded = false;
    products.clear();
    choices.clear();
    entailed.clear();
    proved.clear();
    kept.clear();
    uninit_n = div_n = live_heap = depth = path_steps = 0;
    solver = std::make_unique<z3::solver>(z3::tactic(zc, "smt").mk_solver());
    z3::params p(zc);
    p.set("timeout", 60000u);
    solver->set(p);
    try {
      try {
        call(entry, {});
        if (expect_assert) fail("misuse is rejected by an assertion", "check", "no assertion failed");
      } catch (Rejected&) {
      }
      ++st.paths;
      for (auto& l : path_reached) reached[l]++;
    } catch (Killed&) {
      ++st.killed;
    } catch (Stop&) {
      ++st.paths;
    } catch (IrException&) {
      if (expect_assert) {  // rejected by an exception
        ++st.paths;
        continue;
      }
      try {
        fail("no exception escapes", "crash", "uncaught exception");
      } catch (Stop&) {
      }
    } catch (Unsupported& u) {
      ++st.truncated;
      if (u.what != "budget" && error.empty()) error = u.what;
    } catch (z3::exception& e) {
      ++st.truncated;
      if (error.empty()) error = e.msg();
    }
  }
  st.pending = worklist.size();
  std::ofstream o(out);
  o << "{\"harness\":" << js(harness) << ",\"shard\":" << shard << ",\"paths\":" << st.paths << ",\"killed\":" << st.killed << ",\"truncated\":" << st.truncated
    << ",\"queries\":" << st.queries << ",\"sat\":" << st.sat << ",\"unsat\":" << st.unsat << ",\"unknown\":" << st.unknown << ",\"branch_decisions\":" << st.forks
    << ",\"steps\":" << st.steps << ",\"solver_s\":" << st.solver_s << ",\"wall_s\":" << now() - t0 << ",\"pending\":" << st.pending << ",\"error\":" << js(error)
    << ",\"complete\":" << (st.pending == 0 && st.truncated == 0 ? "true" : "false") << ",\n\"labels\":{";
  bool first = true;
  for (auto& [l, s] : labels) {
    o << (first ? "" : ",") << js(l) << ":{\"evaluated\":" << s.evaluated << ",\"discharged\":" << s.discharged << ",\"trivial\":0,\"unknown\":" << s.unknown << ",\"refuted\":" << s.refuted << "}";
    first = false;
  }
  o << "},\n\"reached\":{";
  first = true;
  for (auto& [l, n] : reached) {
    o << (first ? "" : ",") << js(l) << ":" << n;
    first = false;
  }
  o << "},\n\"functions\":[";
  first = true;
  for (auto& l : functions) {
    o << (first ? "" : ",") << js(l);
    first = false;
  }
  o << "],\n\"candidates\":[";
  first = true;
  for (auto& v : violations) {
    o << (first ? "" : ",\n") << "{\"label\":" << js(v.label) << ",\"kind\":" << js(v.kind) << ",\"note\":" << js(v.note) << ",\"inputs\":[";
    bool g = true;
    for (auto& [n, c] : v.inputs) {
      o << (g ? "" : ",") << "[" << js(n) << "," << c << "]";
      g = false;
    }
    o << "]}";
    first = false;
  }
  o << "]}\n";
  o.close();
  fflush(stdout);
  _exit(0);
}
