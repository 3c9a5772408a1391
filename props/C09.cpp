//@ sources: @core
//@ entry: h_hard reach=end
//@ entry: h_fail reach=end
//@ entry: h_borrow reach=end
//@ entry: h_v2 reach=end
//@ entry: h_cpu reach=end
//@ entry: h_memory reach=end
//@ entry: h_dtor reach=end
//@ entry: h_copy reach=ok,bad
//@ entry: h_fill reach=end
//@ entry: h_registry reach=end
//@ entry: h_hard3 reach=end tier=thorough timeout=900
//@ bounds: 2 blocks and every sequence of 3 operations (thorough: 4) with sizes 0..3; allocation failing at any point; up to 3 memories sharing a block; copies and fills of up to 6 bytes with patterns of up to 7
//@ assume: block contents are arbitrary bytes; the registered device functions honour their contract
//@ outside: GPU memory; larger sizes
#include "op.h"
#include <core/hard_memory.h>
#include <core/memory.h>
#include <core/controller.h>
#include <global/hard_allocator.h>
#include <global/hard_converter.h>
#include <global/memory_device.h>
// an allocator that keeps account of what it handed out, and may be told to fail
static std::map<void *, size_t> live; static int fails = -1, allocs = 0;   // fails: number of allocations until one fails
static void *t_new(int id, size_t n) { SX_ASSERT(id == 3, "device id passed on"); SX_ASSERT(n > 0, "no allocation of nothing"); if (fails >= 0 && fails-- == 0) throw OutOfMemoryException(MemoryDevice("toy", id), n); void *p = ::malloc(n); live[p] = n; allocs++; return p; }
static void t_del(int id, void *p) { SX_ASSERT(id == 3, "device id passed on"); if (!p) return; SX_ASSERT(live.count(p), "freed once, and only what was allocated"); live.erase(p); ::free(p); }
static void *t_re(int id, size_t n, void *p, size_t old) { SX_ASSERT(live.count(p) && live[p] == old, "reallocation of a live block of its size"); void *q = t_new(id, n); std::memcpy(q, p, std::min(n, old)); t_del(id, p); return q; }
static void conv(int, void *d, int, const void *s, size_t n) { std::memcpy(d, s, n); }
static MemoryDevice toy() { static bool r = false; if (!r) { r = true; HardAllocator::RegisterV3("toy", t_new, t_del, t_re); HardConverter::Register("toy", "toy", conv); HardConverter::Register("toy", "cpu", conv); HardConverter::Register("cpu", "toy", conv); } return MemoryDevice("toy", 3); }
typedef std::vector<uint8_t> Bytes;
static void fill(HardMemory &m, Bytes &b) { for (size_t i = 0; i < b.size(); ++i) m.data<uint8_t>()[i] = b[i] = sx_u8("byte"); }
static void check(const HardMemory &m, const Bytes &b) { SX_ASSERT(m.capacity() == b.size(), "capacity"); SX_ASSERT((m.data() != nullptr) == !b.empty(), "a block has memory exactly when it has capacity"); SX_ASSERT(b.empty() || (live.count((void *) m.data()) && live[(void *) m.data()] >= b.size()), "the block's memory is its own"); for (size_t i = 0; i < b.size(); ++i) SX_ASSERT(m.data<uint8_t>()[i] == b[i], "content kept"); }
static void hard(int steps) {
    fails = -1; MemoryDevice d = toy(); size_t n0 = (size_t) sx_pick(0, 2, "size");
    { std::unique_ptr<HardMemory> m[2] = {std::unique_ptr<HardMemory>(new HardMemory(d, n0)), std::unique_ptr<HardMemory>(new HardMemory(d))}; Bytes b[2]; b[0].resize(n0); fill(*m[0], b[0]); bool own[2] = {true, true};
      for (int k = 0; k < steps; ++k) { int i = (int) sx_choose(2, "block"), j = 1 - i; 
        switch (sx_choose(7, "op")) {
            case 0: { size_t n = (size_t) sx_pick(0, 3, "n"); if (!own[i]) { SX_ASSERT(throws([&]() { m[i]->resize(n); }), "a moved-from block cannot be resized"); break; } bool same = n == b[i].size(); m[i]->resize(n); b[i].resize(n); if (!same) fill(*m[i], b[i]); break; }
            case 1: { size_t n = (size_t) sx_pick(0, 3, "n"); if (!own[i]) { SX_ASSERT(throws([&]() { m[i]->expect(n); }), "a moved-from block cannot grow"); break; } size_t o = b[i].size(); m[i]->expect(n); if (n > o) { b[i].resize(n); SX_ASSERT(m[i]->capacity() == n, "grown"); for (size_t q = o; q < n; ++q) m[i]->data<uint8_t>()[q] = b[i][q] = sx_u8("byte"); } break; }
            case 2: { size_t n = (size_t) sx_pick(0, 3, "n"); if (!own[i]) { SX_ASSERT(throws([&]() { m[i]->shrink(n); }), "a moved-from block cannot shrink"); break; } m[i]->shrink(n); if (n < b[i].size()) b[i].resize(n); break; }
            case 3: m[i]->dispose(); b[i].clear(); break;
            case 4: if (sx_choose(2, "free function")) swap(*m[i], *m[j]); else m[i]->swap(*m[j]); std::swap(b[0], b[1]); std::swap(own[0], own[1]); break;
            case 5: *m[i] = std::move(*m[j]); b[i] = b[j]; b[j].clear(); own[i] = own[j]; own[j] = false; break;
            case 6: { m[j].reset(new HardMemory(std::move(*m[i]))); b[j] = b[i]; b[i].clear(); own[j] = own[i]; own[i] = false; break; } }
        check(*m[0], b[0]); check(*m[1], b[1]); SX_ASSERT(live.size() == (size_t) !b[0].empty() + !b[1].empty(), "nothing else is kept allocated"); } }
    SX_ASSERT(live.empty(), "everything is freed"); sx_reach("end"); }
SX_ENTRY h_hard() { hard(3); }
SX_ENTRY h_hard3() { hard(4); }
// an allocation that fails is reported and leaves the block usable, nothing is freed twice
SX_ENTRY h_fail() { MemoryDevice d = toy(); fails = -1; size_t n = (size_t) sx_pick(0, 2, "size"), k = (size_t) sx_pick(1, 4, "new size"); int how = (int) sx_choose(4, "op"); { HardMemory m(d, n); Bytes b(n); fill(m, b); fails = 0; bool t = false;
        if (how == 0) { t = throws([&]() { m.resize(k); }); if (t) { SX_ASSERT(m.capacity() == 0 && m.data() == nullptr, "a failed resize leaves an empty block"); b.clear(); } }
        if (how == 1) { t = throws([&]() { m.expect(k); }); if (t) check(m, b); }
        if (how == 2) { t = throws([&]() { m.shrink(k); }); if (t) check(m, b); }
        if (how == 3) { t = throws([&]() { HardMemory x(d, k); }); SX_ASSERT(t, "a failed construction is reported"); check(m, b); }
        bool need = how == 0 ? k != n : how == 1 ? k > n : how == 2 ? k < n : true; SX_ASSERT(t == need, "the failure is reported"); fails = -1; check(m, b); m.expect(3); SX_ASSERT(m.capacity() >= 3 && m.data(), "usable afterwards"); for (size_t i = 0; i < b.size(); ++i) SX_ASSERT(m.data<uint8_t>()[i] == b[i], "content kept"); if (sx_choose(2, "dispose")) m.dispose(); }
    SX_ASSERT(live.empty(), "everything is freed"); sx_reach("end"); }
SX_ENTRY h_borrow() { fails = -1; uint8_t buf[4]; Bytes b(4); for (int i = 0; i < 4; ++i) buf[i] = b[i] = sx_u8("byte"); { HardMemory m(MemoryDevice(CPU), buf, 4); size_t n = (size_t) sx_pick(0, 5, "n"); switch (sx_choose(4, "op")) { case 0: SX_ASSERT(throws([&]() { m.resize(n); }), "borrowed"); break; case 1: SX_ASSERT(throws([&]() { m.expect(n); }), "borrowed"); break; case 2: SX_ASSERT(throws([&]() { m.shrink(n); }), "borrowed"); break; case 3: m.dispose(); SX_ASSERT(m.data() == nullptr && m.capacity() == 0, "disposed"); break; } }
    { Memory m(MemoryDevice(CPU), buf, 3), c = m, w = c.weak(); SX_ASSERT(m.data() == buf && c.data() == buf && w.data() == buf && w.size() == 3 && w.device() == MemoryDevice(CPU), "borrowed memory is used in place"); }
    for (int i = 0; i < 4; ++i) SX_ASSERT(buf[i] == b[i], "borrowed memory is neither changed nor freed"); sx_reach("end"); }
// allocators made of new and delete keep the content when growing
SX_ENTRY h_v2() { toy(); fails = -1; HardConverter::Register("two", "two", conv); HardAllocator::RegisterV2("two", t_new, t_del); MemoryDevice d("two", 3); size_t n = (size_t) sx_pick(1, 3, "n"), k = (size_t) sx_pick(1, 5, "k"); { HardMemory m(d, n); Bytes b(n); fill(m, b); m.expect(k); if (k > n) b.resize(k); SX_ASSERT(m.capacity() == std::max(n, k), "capacity"); for (size_t i = 0; i < n; ++i) SX_ASSERT(m.data<uint8_t>()[i] == b[i], "content kept"); for (size_t i = n; i < k; ++i) m.data<uint8_t>()[i] = b[i] = 7; size_t s = (size_t) sx_pick(1, 5, "s"); m.shrink(s); for (size_t i = 0; i < std::min(s, b.size()); ++i) SX_ASSERT(m.data<uint8_t>()[i] == b[i], "content kept"); SX_ASSERT(live.size() == 1, "one block"); } SX_ASSERT(live.empty(), "everything is freed"); sx_reach("end"); }
// the CPU's own allocator
SX_ENTRY h_cpu() { Dev dev; MemoryDevice d(CPU); size_t n = (size_t) sx_pick(0, 3, "n"), k = (size_t) sx_pick(0, 4, "k"); HardMemory m(d, n); Bytes b(n); fill(m, b); int op = (int) sx_choose(3, "op"); size_t w = n; if (op == 0) { m.expect(k); w = std::max(n, k); } else if (op == 1) { m.shrink(k); w = std::min(n, k); } else { m.resize(k); w = k; } SX_ASSERT(m.capacity() == w && (m.data() != nullptr) == (w > 0), "capacity"); if (op < 2) for (size_t i = 0; i < std::min(n, w); ++i) SX_ASSERT(m.data<uint8_t>()[i] == b[i], "content kept"); for (size_t i = 0; i < w; ++i) m.data<uint8_t>()[i] = 1; DynamicMemoryController c(d); Memory x = c.alloc(k), y = c.alloc(k); SX_ASSERT(x.size() == k && y.size() == k && (k == 0 || x.data() != y.data()), "separate memory"); for (size_t i = 0; i < k; ++i) { x.data<uint8_t>()[i] = 1; y.data<uint8_t>()[i] = 2; } for (size_t i = 0; i < k; ++i) SX_ASSERT(x.data<uint8_t>()[i] == 1, "separate memory"); sx_reach("end"); }
// memories are windows into a shared block that lives as long as any of them
SX_ENTRY h_memory() { MemoryDevice d = toy(); fails = -1; { std::unique_ptr<Memory> m[3]; Bytes b(4); size_t sz = (size_t) sx_pick(0, 4, "size"), sh = (size_t) sx_pick(0, 4 - (int) sz, "shift"); { HardMemory::shared h = std::make_shared<HardMemory>(d, 4); fill(*h, b); if (sx_choose(2, "move")) m[0].reset(new Memory(std::move(h), sz, sh)); else m[0].reset(new Memory(h, sz, sh)); }
        auto ok = [&](const Memory &x) { SX_ASSERT(x.size() == sz && x.device() == d, "window"); for (size_t i = 0; i < sz; ++i) SX_ASSERT(x.data<uint8_t>()[i] == b[sh + i], "window content"); };
        int n = 1; for (int k = 0; k < 3; ++k) { switch (sx_choose(5, "op")) { case 0: if (n < 3) { for (auto &x : m) if (!x) { for (auto &y : m) if (y) { x.reset(new Memory(*y)); break; } n++; break; } } break; case 1: { if (n > 1) { for (auto &x : m) if (x) { x.reset(); n--; break; } } break; } case 2: for (auto &x : m) if (x) { Memory t(std::move(*x)); ok(t); *x = std::move(t); break; } break; case 3: for (auto &x : m) if (x) { Memory t(d, 2); t.data<uint8_t>()[0] = 1; swap(*x, t); ok(t); SX_ASSERT(x->size() == 2 && x->data<uint8_t>()[0] == 1, "swapped"); x->swap(t); break; } break; case 4: for (auto &x : m) if (x) { Memory t(d, 1); t = *x; ok(t); SX_ASSERT(t.use_count() == n + 1, "uses counted"); Memory w = t.weak(); ok(w); SX_ASSERT(t.use_count() == n + 1, "weak memory is no use"); break; } break; }
          for (auto &x : m) if (x) { ok(*x); SX_ASSERT(x->use_count() == n, "uses counted"); } SX_ASSERT(live.size() == 1, "one block"); if (sz) { uint8_t v = sx_u8("write"); for (auto &x : m) if (x) { x->data<uint8_t>()[0] = v; break; } b[sh] = v; } } }
    SX_ASSERT(live.empty(), "everything is freed"); { HardMemory::shared h = std::make_shared<HardMemory>(d, 3); Memory a(h), c(std::move(h)); SX_ASSERT(a.size() == 3 && c.size() == 3 && a.data() == c.data(), "the whole block"); Memory e, z((size_t) 2); SX_ASSERT(e.size() == 0 && z.size() == 2 && z.device().type() == CPU, "default device"); } SX_ASSERT(live.empty(), "everything is freed"); sx_reach("end"); }
SX_ENTRY h_dtor() { MemoryDevice d = toy(); fails = -1; int n = 0; int arg = 5; { Memory m(d, 2); bool v = sx_choose(2, "with data"); if (v) m.destructor([&](void *p) { SX_ASSERT(p == &arg, "data passed on"); n++; }, &arg); else m.destructor([&]() { n++; }); Memory a = m; int k = sx_pick(0, 2, "op"); if (k == 0) { Memory b = std::move(a); } if (k == 1) a = Memory(d, 1); if (k == 2) { Memory w = m.weak(); a = w; } SX_ASSERT(n == 0 && m.use_count() == 1, "not while in use"); { Memory q; q = std::move(m); SX_ASSERT(n == 0, "not while in use"); } SX_ASSERT(n == 1, "told when the last user is gone"); } SX_ASSERT(n == 1 && live.empty(), "told once"); sx_reach("end"); }
SX_ENTRY h_copy() { Dev dev; MemoryDevice d = toy(); fails = -1; size_t a = (size_t) sx_pick(0, 4, "dst"), b = (size_t) sx_pick(0, 4, "src"), n = (size_t) sx_pick(0, 5, "n"); bool x = sx_choose(2, "dst device"), y = sx_choose(2, "src device"); int how = (int) sx_choose(3, "how"); { Memory m(x ? d : MemoryDevice(CPU), a), s(y ? d : MemoryDevice(CPU), b); Bytes o(a), v(b); for (size_t i = 0; i < a; ++i) m.data<uint8_t>()[i] = o[i] = sx_u8("old"); for (size_t i = 0; i < b; ++i) s.data<uint8_t>()[i] = v[i] = sx_u8("new"); size_t k = how == 0 ? n : b; bool bad = how != 2 && (k > a || k > b); bool t = throws([&]() { if (how == 0) ts::memcpy(m, s, n); else if (how == 1) ts::memcpy(m, s); else { k = ts::memcpy(m.data(), m.device(), a, s.data(), s.device(), b); SX_ASSERT(k == std::min(a, b), "copies what fits"); } }); SX_ASSERT(t == bad, "copies that do not fit are rejected"); if (t) k = 0; for (size_t i = 0; i < a; ++i) SX_ASSERT(m.data<uint8_t>()[i] == (i < k ? v[i] : o[i]), "exactly the bytes asked for are copied"); for (size_t i = 0; i < b; ++i) SX_ASSERT(s.data<uint8_t>()[i] == v[i], "the source stays"); sx_reach(t ? "bad" : "ok"); } SX_ASSERT(live.empty(), "everything is freed"); }
// filling repeats the pattern
SX_ENTRY h_fill() { Dev dev; MemoryDevice d = toy(); fails = -1; size_t a = (size_t) sx_pick(0, SXT(7, 12), "dst"), b = (size_t) sx_pick(0, SXT(7, 13), "src"); bool x = sx_choose(2, "dst device"); { Memory m(x ? d : MemoryDevice(CPU), a), s(MemoryDevice(CPU), b); Bytes v(b); for (size_t i = 0; i < b; ++i) s.data<uint8_t>()[i] = v[i] = sx_u8("pattern"); bool t = throws([&]() { ts::memset(m.data(), m.device(), a, s.data(), s.device(), b); }); SX_ASSERT(t == (b == 0 && a > 0), "an empty pattern is rejected"); if (!t) for (size_t i = 0; i < a; ++i) SX_ASSERT(m.data<uint8_t>()[i] == v[i % b], "the pattern repeats"); } sx_reach("end"); }
SX_ENTRY h_registry() { Dev dev; toy(); fails = -1; SX_ASSERT(HardAllocator::Query("nobody") == nullptr && HardConverter::Query("nobody", "cpu") == nullptr && HardConverter::Query("cpu", "nobody") == nullptr, "unknown devices have no functions"); MemoryDevice u("nobody", 0); SX_ASSERT(throws([&]() { HardMemory m(u); }) && throws([&]() { HardMemory m(u, 3); }) && throws([&]() { Memory m(u, 3); }) && throws([&]() { DynamicMemoryController c(u); }), "no memory on unknown devices"); uint8_t q[2] = {1, 2}; Memory b(u, q, 2), c(MemoryDevice(CPU), 2); SX_ASSERT(throws([&]() { ts::memcpy(b, c); }) && throws([&]() { ts::memcpy(c, b, 1); }) && q[0] == 1 && q[1] == 2, "no copying from or to unknown devices");
    SX_ASSERT(throws([&]() { ComputingMemory::Query(DeviceType("nobody")); }), "unknown computing device"); ComputingMemory::Register("chip", "toy"); SX_ASSERT(ComputingMemory::Query(Device("chip", 4)) == MemoryDevice("toy", 4) && ComputingMemory::Query(DeviceType("chip")) == DeviceType("toy"), "memory device of a computing device"); SX_ASSERT(HardAllocator::AllKeys().count("toy") && HardAllocator::AllKeys().count("cpu"), "registered names"); sx_reach("end"); }
