// U02: PoolResource hands out disjoint, large enough blocks and reuses them.
#include <sleipnir/util/pool.hpp>
#include <utility>

#include "vx.hpp"
using slp::PoolResource;

namespace {
struct Live {
  std::byte* p;
  uint64_t n;
};
struct Pool {
  PoolResource pool;
  Live live[6];
  int n = 0;
  // per size class: blocks in use, most in use at once, different blocks seen
  uint64_t size[2];
  std::byte* seen[2][6];
  int seen_n[2] = {0, 0}, used[2] = {0, 0}, most[2] = {0, 0};
  int chunk;

  Pool(int chunk, uint64_t a, uint64_t b) : pool(chunk), size{a, b}, chunk{chunk} {}
  int cls(int k) const { return size[k] == size[0] ? 0 : 1; }
  void take(int k) {
    auto p = static_cast<std::byte*>(pool.allocate(size[k]));
    vx_check_block(p, size[k]);
    for (int i = 0; i < n; ++i)
      vx_check(p + size[k] <= live[i].p || live[i].p + live[i].n <= p, "live blocks do not overlap");
    live[n++] = {p, size[k]};
    int c = cls(k);
    if (++used[c] > most[c]) most[c] = used[c];
    bool known = false;
    for (int i = 0; i < seen_n[c]; ++i) known = known || seen[c][i] == p;
    if (!known) seen[c][seen_n[c]++] = p;
    vx_check(seen_n[c] <= (most[c] + chunk - 1) / chunk * chunk, "freed blocks are reused");
    audit();
  }
  void give(int i) {
    pool.deallocate(live[i].p, live[i].n);
    --used[live[i].n == size[0] ? 0 : 1];
    live[i] = live[--n];
    audit();
  }
  void audit() const { vx_check(pool.blocks_in_use() == static_cast<uint64_t>(n), "blocks in use are counted"); }
};
void run(int steps) {
  uint64_t a = vx_u64("size a"), b = vx_u64("size b");
  int chunk = 1 + vx_fork(vx_choose("blocks per chunk", 3));
  vx_assume(a >= 1 && a <= 1 << 20);
  vx_assume(b >= 1 && b <= 1 << 20);
  {
    Pool s(chunk, a, b);
    for (int k = 0; k < steps; ++k) {
      // take a, take b, give back any live block
      uint32_t op = vx_fork(vx_choose("op", 2 + s.n));
      if (op < 2) s.take(op);
      else s.give(op - 2);
    }
    if (vx_fork(vx_choose("moved", 2))) {
      PoolResource q = std::move(s.pool);
      vx_check(q.blocks_in_use() == static_cast<uint64_t>(s.n), "a moved pool keeps its blocks");
      s.pool = std::move(q);
      s.audit();
      if (s.n < 6) s.take(0);
    }
    while (s.n) s.give(0);
    vx_check(s.pool.is_equal(s.pool), "a pool equals itself");
    vx_reach("end");
  }
  vx_check(vx_live_allocations() == 0, "destroying the pool returns all its memory");
}
}  // namespace
IRX_HARNESS(u02_history, 3, 0, "two block sizes, any of 1..2^20 bytes (equal or not), 1..3 blocks per chunk; any 4 allocations and frees, then optionally a move of the pool, then all frees") { run(4); }
IRX_HARNESS(u02_long, 3, 1, "as u02_history with 6 operations") { run(6); }

namespace {
slp::PoolResource* current;
}
slp::PoolResource& slp::global_pool_resource() { return *current; }
namespace {
struct Small {
  uint64_t a, b;
};
struct alignas(16) Big {
  uint64_t v[8];
};
}  // namespace
IRX_HARNESS(u02_typed, 1, 0, "allocators for two types over one pool, any contents, writes to every live object, up to 3 objects of each, frees in any order") {
  {
    PoolResource pool{2};
    current = &pool;
    auto sa = slp::global_pool_allocator<Small>();
    auto ba = slp::global_pool_allocator<Big>();
    Small* s[3];
    Big* b[3];
    uint64_t v = vx_u64("value");
    for (int i = 0; i < 3; ++i) {
      s[i] = sa.allocate(sizeof(Small));
      b[i] = ba.allocate(sizeof(Big));
      vx_check(reinterpret_cast<uintptr_t>(s[i]) % alignof(Small) == 0 && reinterpret_cast<uintptr_t>(b[i]) % alignof(Big) == 0, "blocks are aligned");
      *s[i] = {v + i, v - i};
      for (int k = 0; k < 8; ++k) b[i]->v[k] = v * 8 + i + k;
    }
    auto intact = [&](int i) {
      if (s[i]) vx_check(s[i]->a == v + i && s[i]->b == v - i, "objects do not disturb each other");
      if (b[i])
        for (int k = 0; k < 8; ++k) vx_check(b[i]->v[k] == v * 8 + i + k, "objects do not disturb each other");
    };
    for (int i = 0; i < 3; ++i) intact(i);
    uint32_t first = vx_fork(vx_choose("free", 3)), second = vx_fork(vx_choose("free big", 3));
    sa.deallocate(s[first], sizeof(Small));
    ba.deallocate(b[second], sizeof(Big));
    vx_check(pool.blocks_in_use() == 4, "blocks in use are counted");
    auto* ns = sa.allocate(sizeof(Small));
    auto* nb = ba.allocate(sizeof(Big));
    s[first] = nullptr;
    b[second] = nullptr;
    *ns = {1, 2};
    for (auto& x : nb->v) x = 3;
    for (int i = 0; i < 3; ++i) intact(i);
    vx_check(pool.blocks_in_use() == 6, "blocks in use are counted");
    vx_reach("end");
  }
  vx_check(vx_live_allocations() == 0, "destroying the pool returns all its memory");
}
