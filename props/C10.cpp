//@ sources: @core
//@ entry: h_vat reach=end
//@ entry: h_vat2 reach=end
//@ entry: h_reuse reach=end
//@ entry: h_fail reach=end
//@ entry: h_end reach=end
//@ entry: h_move reach=end
//@ entry: h_pot reach=end
//@ entry: h_flow reach=end
//@ entry: h_sync reach=end
//@ entry: h_vat5 reach=end tier=thorough timeout=900
//@ bounds: every history of 5-6 allocations and frees (thorough: 7) with sizes 0..3, then any order of freeing; 4 blocks freed in any order and 4 allocated again; allocation failing at any point
//@ assume: block contents are arbitrary bytes
//@ outside: larger sizes and longer histories; GPU memory
#include "op.h"
#include <core/hard_memory.h>
#include <core/memory.h>
#include <memory/flow.h>
#include <core/sync/sync_controller.h>
#include <global/hard_allocator.h>
#include <global/hard_converter.h>
#include "memory/orz/vat.h"
// the memory behind the pool keeps account of what it handed out
static std::map<void *, size_t> live; static int fails = -1, allocs = 0;
static void *under(size_t n) { SX_ASSERT(n > 0, "no allocation of nothing"); if (fails >= 0 && fails-- == 0) throw OutOfMemoryException(MemoryDevice("toy", 3), n); void *p = ::malloc(n); live[p] = n; allocs++; return p; }
static void drop(void *p) { if (!p) return; SX_ASSERT(live.count(p), "released once, and only what was allocated"); live.erase(p); ::free(p); }
static Pot::allocator ator() { return [](size_t n) { return std::shared_ptr<void>(under(n), drop); }; }
static void *t_new(int id, size_t n) { SX_ASSERT(id == 3, "device id"); return under(n); }
static void t_del(int id, void *p) { SX_ASSERT(id == 3, "device id"); drop(p); }
static void *t_re(int, size_t, void *, size_t) { SX_ASSERT(false, "not needed"); return nullptr; }
static void conv(int, void *d, int, const void *s, size_t n) { std::memcpy(d, s, n); }
static MemoryDevice toy() { static bool r = false; if (!r) { r = true; HardAllocator::RegisterV3("toy", t_new, t_del, t_re); HardConverter::Register("toy", "toy", conv); HardConverter::Register("toy", "cpu", conv); HardConverter::Register("cpu", "toy", conv); } fails = -1; allocs = 0; return MemoryDevice("toy", 3); }
struct Use { void *p; size_t n; std::vector<uint8_t> b; };
// what a client may rely on: blocks in use are disjoint, big enough and keep their bytes; free blocks are reused
struct Pool { Vat v; std::vector<Use> u; bool dead = false; Pool() : v(ator()) { allocs = 0; fails = -1; }
    bool used(void *p) { for (auto &x : u) if (x.p == p) return true; return false; }
    void alloc(size_t n) { size_t best = 0; int had = allocs; for (auto &x : live) if (!used(x.first) && x.second >= n && (!best || x.second < best)) best = x.second; void *p = v.malloc(n); if (n == 0) { SX_ASSERT(p == nullptr, "nothing for nothing"); return; } SX_ASSERT(p && !used(p) && live.count(p) && live[p] >= n, "a block of its own, big enough"); if (best) SX_ASSERT(allocs == had && live[p] == best, "the smallest free block that fits is used again"); Use x{p, n, std::vector<uint8_t>(n)}; for (size_t i = 0; i < n; ++i) ((uint8_t *) p)[i] = x.b[i] = sx_u8("byte"); u.push_back(x); check(); }
    void free(int i) { Use x = u[i]; v.free(x.p); u.erase(u.begin() + i); if (dead) SX_ASSERT(!live.count(x.p), "a deprecated pool keeps nothing"); SX_ASSERT(throws([&]() { v.free(x.p); }), "freed twice"); check(); }
    void check() { size_t sum = 0; for (auto &x : live) sum += x.second; SX_ASSERT(v.summary() == sum, "the summary counts all memory held"); for (auto &x : u) { SX_ASSERT(live.count(x.p) && live[x.p] >= x.n, "blocks in use stay allocated"); for (size_t i = 0; i < x.n; ++i) SX_ASSERT(((uint8_t *) x.p)[i] == x.b[i], "blocks in use keep their content"); } } };
static void vat(int steps, int first) { { Pool q; for (int k = 0; k < steps; ++k) { int n = first && k == 0 ? 1 : (int) sx_choose(3 + (int) q.u.size(), "op"); if (n < 3) q.alloc((size_t) n + 1); else q.free(n - 3); }
        int e = (int) sx_choose(4, "end"); size_t used = 0; for (auto &x : q.u) used += live[x.p];
        if (e == 0) { q.v.clean(); q.check(); SX_ASSERT(q.v.summary() == used, "cleaning releases what is free"); q.alloc(1); }
        if (e == 1) { q.v.deprecated(); q.dead = true; q.check(); SX_ASSERT(q.v.summary() == used, "deprecating releases what is free"); q.alloc(2); while (!q.u.empty()) q.free(0); SX_ASSERT(live.empty(), "a deprecated pool keeps nothing"); }
        if (e == 2) { q.v.reset(); q.u.clear(); q.check(); q.alloc(2); q.alloc(1); }
        if (e == 3) { q.v.dispose(); q.u.clear(); q.check(); SX_ASSERT(live.empty(), "disposed"); q.alloc(1); } uint8_t z; SX_ASSERT(throws([&]() { q.v.free(&z); }), "not of this pool"); q.v.free(nullptr); q.alloc(0); }
    SX_ASSERT(live.empty(), "everything is released"); sx_reach("end"); }
SX_ENTRY h_vat() { vat(5, 0); }
SX_ENTRY h_vat2() { vat(6, 1); }
SX_ENTRY h_vat5() { vat(7, 0); }
// blocks of different sizes freed in any order are all used again
SX_ENTRY h_reuse() { { Pool q; int N = SXT(4, 5); for (int i = 0; i < N; ++i) q.alloc((size_t) i + 1); int had = allocs; for (int i = 0; i < N; ++i) q.free((int) sx_choose(N - i, "free")); for (int i = 0; i < N; ++i) q.alloc((size_t) N - i); SX_ASSERT(allocs == had, "no new memory is needed"); while (!q.u.empty()) q.free(0); size_t sum = q.v.summary(); for (int k = 0; k < 2; ++k) q.alloc((size_t) sx_pick(1, N, "n")); SX_ASSERT(allocs == had || q.v.summary() > 0, "memory"); SX_ASSERT(q.v.summary() <= sum + N, "memory does not grow without need"); } SX_ASSERT(live.empty(), "everything is released"); sx_reach("end"); }
SX_ENTRY h_fail() { { Pool q; int steps = SXT(3, 4); for (int k = 0; k < steps; ++k) { int n = (int) sx_choose(3 + (int) q.u.size(), "op"); if (n < 3) q.alloc((size_t) n + 1); else q.free(n - 3); } fails = 0; size_t n = (size_t) sx_pick(1, 4, "n"); void *p = nullptr; size_t best = 0; for (auto &x : live) if (!q.used(x.first) && x.second >= n) best = 1; bool t = throws([&]() { p = q.v.malloc(n); }); SX_ASSERT(t == !best, "failing is reported exactly when new memory is needed"); if (p) { q.v.free(p); } fails = -1; q.check(); q.alloc(n); q.alloc(n); while (!q.u.empty()) q.free(0); } SX_ASSERT(live.empty(), "everything is released"); sx_reach("end"); }
// memories outlive their controller
SX_ENTRY h_end() { MemoryDevice d = toy(); { std::unique_ptr<VatMemoryController> c(new VatMemoryController(d)); std::vector<Memory> m; std::vector<std::vector<uint8_t>> b; auto add = [&](size_t n) { m.push_back(c->alloc(n)); b.push_back(std::vector<uint8_t>(n)); for (size_t i = 0; i < n; ++i) m.back().data<uint8_t>()[i] = b.back()[i] = sx_u8("byte"); }; auto ok = [&]() { size_t sum = 0; for (auto &x : live) sum += x.second; if (c) SX_ASSERT(c->summary() == sum, "summary"); for (size_t k = 0; k < m.size(); ++k) { SX_ASSERT(m[k].device() == d && m[k].size() == b[k].size(), "size"); for (size_t i = 0; i < b[k].size(); ++i) SX_ASSERT(m[k].data<uint8_t>()[i] == b[k][i], "content kept"); } };
        for (int k = 0; k < SXT(3, 4); ++k) { int n = (int) sx_choose(3 + (int) m.size(), "op"); if (n < 3) add((size_t) n); else { m.erase(m.begin() + (n - 3)); b.erase(b.begin() + (n - 3)); } ok(); if (!c) break; }
        size_t use = 0; for (auto &x : b) use += !x.empty(); c.reset(); ok(); SX_ASSERT(live.size() == use, "only what is in use is kept"); while (!m.empty()) { int i = (int) sx_choose((int) m.size(), "drop"); m.erase(m.begin() + i); b.erase(b.begin() + i); ok(); use = 0; for (auto &x : b) use += !x.empty(); SX_ASSERT(live.size() == use, "released with its last user"); } }
    SX_ASSERT(live.empty(), "everything is released"); sx_reach("end"); }
SX_ENTRY h_move() { { Pool q; q.alloc(2); q.alloc(1); if (sx_choose(2, "freed")) q.free(0); bool dep = sx_choose(2, "deprecated"); if (dep) q.v.deprecated(); Vat w; int k = (int) sx_choose(3, "how"); if (k == 0) w.swap(q.v); else if (k == 1) w = std::move(q.v); else { Vat t(std::move(q.v)); w = std::move(t); } for (auto &x : q.u) { for (size_t i = 0; i < x.n; ++i) SX_ASSERT(((uint8_t *) x.p)[i] == x.b[i], "content kept"); } void *p = w.malloc(3); SX_ASSERT(p && live.count(p) && live[p] == 3, "the moved pool uses its own memory"); SX_ASSERT(throws([&]() { q.v.free(p); }), "not of this pool"); w.free(p); SX_ASSERT(dep == !live.count(p), "the moved pool keeps or releases as before"); for (auto &x : q.u) w.free(x.p); } SX_ASSERT(live.empty(), "everything is released"); sx_reach("end"); }
SX_ENTRY h_pot() { fails = -1; { Pot p(ator()); std::vector<uint8_t> b; size_t cap = 0; for (int k = 0; k < SXT(3, 4); ++k) { size_t n = (size_t) sx_pick(0, 3, "n"); bool keep = sx_choose(2, "keep"); if (k && sx_choose(2, "dispose")) { p.dispose(); b.clear(); cap = 0; SX_ASSERT(live.empty() && p.capacity() == 0, "disposed"); } bool grow = n > cap; void *q = keep ? p.relloc(n) : p.malloc(n); if (grow) cap = n; SX_ASSERT(q == p.data() && p.size() == n && p.capacity() == cap && live.size() == (cap ? 1u : 0u), "one block that only grows"); if (!keep && grow) b.clear(); b.resize(std::max(b.size(), n)); size_t old = b.size(); (void) old; for (size_t i = 0; i < n; ++i) if (keep && k && i < b.size() && b[i]) SX_ASSERT(((uint8_t *) q)[i] == b[i], "content kept"); for (size_t i = 0; i < n; ++i) { uint8_t v = sx_u8("byte"); sx_assume(v); ((uint8_t *) q)[i] = b[i] = v; } Pot c = p; SX_ASSERT(c.data() == p.data() && c.capacity() == p.capacity(), "a copy shares the block"); } } SX_ASSERT(live.empty(), "everything is released"); { Pot p; uint8_t *x = p.calloc<uint8_t>(3); x[2] = 1; x = p.calloc<uint8_t>(9, true); SX_ASSERT(x[2] == 1, "default memory"); } sx_reach("end"); }
// the CPU pool used by the workbench
SX_ENTRY h_flow() { Dev dev; { VatMemoryController c{MemoryDevice(CPU)}; std::vector<Tensor> t; std::vector<std::vector<int>> v; for (int k = 0; k < SXT(4, 5); ++k) { int n = (int) sx_choose(2 + (int) t.size(), "op"); if (n < 2) { Shape s{n + 1}; size_t z = (size_t) n + 1; Tensor x(c.alloc(4 * z), Tensor::Prototype(INT32, s)); std::vector<int> w(z); for (size_t i = 0; i < z; ++i) x.data<int>()[i] = w[i] = sx_i32("value"); t.push_back(x); v.push_back(w); } else { t.erase(t.begin() + (n - 2)); v.erase(v.begin() + (n - 2)); } for (size_t i = 0; i < t.size(); ++i) for (size_t j = 0; j < v[i].size(); ++j) SX_ASSERT(t[i].data<int>()[j] == v[i][j], "tensors of one pool do not share memory"); } } sx_reach("end"); }
// pools of several devices
SX_ENTRY h_sync() { MemoryDevice d = toy(); Dev dev; typedef HypeSyncMemoryController<FlowMemoryController> C; { auto c = C::Make(d, sx_choose(2, "lock")); std::vector<SyncMemory> m; std::vector<std::vector<uint8_t>> b; std::vector<bool> cpu; for (int k = 0; k < 3; ++k) { size_t n = (size_t) sx_pick(1, 2, "n"); bool x = sx_choose(2, "device"); SyncMemory s = x ? c->alloc(MemoryDevice(CPU), n) : sx_choose(2, "default") ? c->alloc(n) : c->alloc(d, n); SX_ASSERT(s.size() == n && s.device() == (x ? MemoryDevice(CPU) : d), "allocated on the device asked for"); std::vector<uint8_t> w(n); for (size_t i = 0; i < n; ++i) s.data<uint8_t>()[i] = w[i] = sx_u8("byte"); if (sx_choose(2, "keep")) { m.push_back(s); b.push_back(w); } }
        auto e = c->clone(); SyncMemory other = e->alloc(2); other.data<uint8_t>()[0] = 9; other.data<uint8_t>()[1] = 9; if (sx_choose(2, "drop")) c.reset(); for (size_t k = 0; k < m.size(); ++k) { SyncMemory y = m[k].view(MemoryDevice(CPU)), z = m[k].view(d); SX_ASSERT(y.device() == MemoryDevice(CPU) && z.device() == d, "views"); for (size_t i = 0; i < b[k].size(); ++i) SX_ASSERT(m[k].data<uint8_t>()[i] == b[k][i] && y.data<uint8_t>()[i] == b[k][i] && z.data<uint8_t>()[i] == b[k][i], "content on every device"); } }
    SX_ASSERT(live.empty(), "everything is released"); sx_reach("end"); }
