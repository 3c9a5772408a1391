//@ sources: @runtime !src/runtime/inside/thread_pool.cpp !src/runtime/inside/parallel.cpp !src/module/io/fstream.cpp src/kernels/cpu/cast.cpp src/backend/base/base_cast_v2.cpp src/kernels/cpu/math_cpu.cpp
//@ entry: h_mem reach=end
//@ entry: h_mem2 reach=end
//@ entry: h_broad reach=end
//@ entry: h_basic reach=end
//@ entry: h_tensor reach=end
//@ entry: h_pack reach=end
//@ entry: h_ctrl reach=end
//@ entry: h_clone reach=end
//@ entry: h_store reach=end
//@ entry: h_fail reach=end
//@ entry: h_mem4 reach=end tier=thorough timeout=900
//@ bounds: three devices (the CPU and two others), up to four views, every sequence of 3 operations (thorough: 4); memories of 0..2 bytes, tensors of up to 3 fields
//@ assume: contents are arbitrary; the other devices are host memory reached only through registered allocators and converters
//@ stub: thread pool (only created, nothing runs on it in this build), CPU feature detection
//@ outside: real GPU memory; views of another device made before a broadcast (documented as disabled by it); threads (see C17)
#include "bench.h"
#include <core/sync/sync_memory.h>
#include <core/sync/sync_controller.h>
#include <global/hard_allocator.h>
#include <global/hard_converter.h>
#include <global/memory_device.h>
#include <memory/flow.h>
#include <runtime/workbench.h>
typedef std::vector<uint8_t> Bytes;
// two more devices; their memory is only moved by their own functions, which keep account
static std::map<void *, std::pair<int, size_t>> live; static int copies = 0, fails = -1;
static void *t_new(int id, size_t n) { if (fails >= 0 && fails-- == 0) throw OutOfMemoryException(MemoryDevice("toy", id), n); void *p = ::malloc(n); live[p] = std::make_pair(id, n); return p; }
static void t_del(int id, void *p) { if (!p) return; SX_ASSERT(live.count(p) && live[p].first == id, "freed once, by its own device"); live.erase(p); ::free(p); }
static void *t_re(int id, size_t n, void *p, size_t old) { void *q = t_new(id, n); std::memcpy(q, p, std::min(n, old)); t_del(id, p); return q; }
static void owns(int id, const void *p, size_t n) { if (n) SX_ASSERT(live.count((void *) p) && live[(void *) p].first == id && live[(void *) p].second >= n, "a device function gets its own memory"); }
static void tt(int di, void *d, int si, const void *s, size_t n) { owns(di, d, n); owns(si, s, n); copies++; std::memcpy(d, s, n); }
static void tc(int di, void *d, int si, const void *s, size_t n) { owns(si, s, n); SX_ASSERT(!live.count(d) && di == 0, "to the CPU"); copies++; std::memcpy(d, s, n); }
static void ct(int di, void *d, int si, const void *s, size_t n) { owns(di, d, n); SX_ASSERT(!live.count((void *) s) && si == 0, "from the CPU"); copies++; std::memcpy(d, s, n); }
static MemoryDevice dev(int k) { static bool r = false; if (!r) { r = true; HardAllocator::RegisterV3("toy", t_new, t_del, t_re); HardConverter::Register("toy", "toy", tt); HardConverter::Register("cpu", "toy", tc); HardConverter::Register("toy", "cpu", ct); } fails = -1; return k ? MemoryDevice("toy", k) : MemoryDevice(CPU, 0); }
// a view: its memory, the device it is for, and which block it belongs to (copies of a view share its block)
struct V { std::unique_ptr<SyncMemory> m; int k, blk; };
static void run(int steps, int n0, size_t sz) { dev(0); { std::vector<V> v; std::map<int, Bytes> val; int blocks = 1; 
    { V a; a.k = n0; a.blk = 0; a.m.reset(new SyncMemory(dev(n0), sz, sx_choose(2, "lock"))); Bytes b(sz); for (size_t i = 0; i < sz; ++i) a.m->data<uint8_t>()[i] = b[i] = sx_u8("byte"); val[n0] = b; v.push_back(std::move(a)); }
    auto check = [&]() { for (auto &x : v) { SX_ASSERT(x.m->device() == dev(x.k) && x.m->size() == sz, "device and size of a view"); Memory w = x.m->weak_memory(); SX_ASSERT(w.device() == dev(x.k) && w.size() == sz && w.data() == x.m->data(), "the memory behind a view"); if (sz) owns(x.k, nullptr, 0); for (size_t i = 0; i < sz; ++i) SX_ASSERT(x.m->data<uint8_t>()[i] == val[x.k][i], "a view shows its device's bytes"); if (x.k && sz) owns(x.k, x.m->data(), sz); }
        for (auto &x : v) for (auto &y : v) if (sz) SX_ASSERT((x.m->data() == y.m->data()) == (x.k == y.k), "views of one device share its memory, of different devices do not"); size_t n = 0; for (auto &p : val) if (p.first && sz) n++; SX_ASSERT(live.size() == n, "one copy per device"); };
    check();
    for (int s = 0; s < steps; ++s) { int i = (int) sx_choose((int) v.size(), "view"); int c0 = copies;
        switch (sx_choose(5, "op")) {
            case 0: { int k = (int) sx_choose(3, "device"); if (v.size() >= 4) break; bool has = val.count(k); V w; w.k = k; w.blk = blocks++; w.m.reset(new SyncMemory(v[i].m->view(dev(k)))); if (!has) { val[k] = val[v[i].k]; } SX_ASSERT(copies - c0 == (v[i].k || k ? !has : copies - c0), "copied once, when first viewed on a device"); v.push_back(std::move(w)); break; }
            case 1: for (size_t q = 0; q < sz; ++q) v[i].m->data<uint8_t>()[q] = val[v[i].k][q] = sx_u8("written"); break;
            case 2: { v[i].m->broadcast(); Bytes b = val[v[i].k]; int k = v[i].k, blk = v[i].blk; std::vector<V> keep; for (auto &x : v) if (x.blk == blk) keep.push_back(std::move(x)); v.swap(keep); val.clear(); val[k] = b; break; }
            case 3: { if (v.size() >= 4) break; V w; w.k = v[i].k; w.blk = v[i].blk; w.m.reset(new SyncMemory(*v[i].m)); if (sx_choose(2, "move")) { SyncMemory t(std::move(*w.m)); *w.m = std::move(t); } v.push_back(std::move(w)); break; }
            case 4: if (v.size() > 1) { if (sx_choose(2, "swap")) { int j = (i + 1) % (int) v.size(); v[i].m->swap(*v[j].m); std::swap(v[i].k, v[j].k); std::swap(v[i].blk, v[j].blk); } else v.erase(v.begin() + i); } break; }
        check(); } }
    SX_ASSERT(live.empty(), "nothing is kept after the last view"); sx_reach("end"); }
SX_ENTRY h_mem() { run(3, 0, 1); }
SX_ENTRY h_mem2() { run(3, 1, 1); }
SX_ENTRY h_mem4() { run(4, (int) sx_choose(2, "first"), 1); }
// after a broadcast every device sees the value written before it
SX_ENTRY h_broad() { dev(0); { int a = (int) sx_choose(3, "first"), b = (int) sx_choose(3, "second"), c = (int) sx_choose(3, "third"); size_t sz = (size_t) sx_pick(1, 2, "size"); SyncMemory m(dev(a), sz); for (size_t i = 0; i < sz; ++i) m.data<uint8_t>()[i] = sx_u8("byte"); Bytes x(sz); { SyncMemory v = m.view(dev(b)); SyncMemory w = v.view(dev(c)); SX_ASSERT(std::memcmp(w.data(), m.data(), sz) == 0, "viewed through another view"); }
    for (size_t i = 0; i < sz; ++i) m.data<uint8_t>()[i] = x[i] = sx_u8("written"); m.broadcast(); SyncMemory w = m.view(dev(c)); for (size_t i = 0; i < sz; ++i) SX_ASSERT(w.data<uint8_t>()[i] == x[i], "seen on other devices after the broadcast"); SyncMemory u = w.view(dev(b)); for (size_t i = 0; i < sz; ++i) SX_ASSERT(u.data<uint8_t>()[i] == x[i], "and through them"); } SX_ASSERT(live.empty(), "freed"); sx_reach("end"); }
SX_ENTRY h_basic() { dev(0); { int k = (int) sx_choose(3, "device"); Memory m(dev(k), 2); for (int i = 0; i < 2; ++i) m.data<uint8_t>()[i] = sx_u8("byte"); SyncMemory s(m, sx_choose(2, "lock")); SX_ASSERT(s.data() == m.data() && s.size() == 2 && s.device() == dev(k), "wraps the memory in place"); s.data<uint8_t>()[1] = 9; SX_ASSERT(m.data<uint8_t>()[1] == 9, "shared"); const SyncMemory &c = s; SX_ASSERT(c.data<uint8_t>()[1] == 9 && c.data() == m.data(), "const access"); SyncMemory e; SX_ASSERT(e.size() == 0, "empty"); SyncMemory z((size_t) 3), y(std::make_shared<HardMemory>(dev(k), 4), 2, 1); SX_ASSERT(z.size() == 3 && z.device().type() == CPU && y.size() == 2 && y.device() == dev(k), "constructors"); HardMemory::shared h = std::make_shared<HardMemory>(dev(k), 4); SyncMemory w(h), q(h, 1, 3), l(h, 2, 1, true), p(h, false); SX_ASSERT(w.size() == 4 && w.data() == h->data() && q.size() == 1 && q.data<char>() == h->data<char>() + 3 && l.size() == 2 && l.data<char>() == h->data<char>() + 1 && p.size() == 4, "windows"); SyncMemory g(std::move(h)); SX_ASSERT(g.data() == w.data(), "moved block"); } SX_ASSERT(live.empty(), "freed"); sx_reach("end"); }
// tensors seen on a device, with every field
SX_ENTRY h_pack() { dev(0); { int k = (int) sx_choose(3, "device"), f = sx_pick(1, 3, "fields"), b = (int) sx_choose(3, "back"); std::vector<Tensor> fs; std::vector<std::vector<int32_t>> v; for (int i = 0; i < f; ++i) { v.push_back(symv<int32_t>(i == 1 ? 0 : 2, "x")); fs.push_back(mk<int32_t>({i == 1 ? 0 : 1, 2}, v.back())); } if (sx_choose(2, "field on a device") && f > 2) fs[2] = fs[2].view(dev(2)); Tensor x = Tensor::Pack(fs); Tensor y = x.view(dev(k)); SX_ASSERT((int) y.fields_count() == f, "all fields"); 
    for (int i = 0; i < f; ++i) { Tensor t = y.field(i); SX_ASSERT(t.device() == dev(k), "each field is on the device"); want<int32_t>(t, {i == 1 ? 0 : 1, 2}, v[i], "viewed field"); } Tensor z = y.view(dev(b)); for (int i = 0; i < f; ++i) { SX_ASSERT(z.field(i).device() == dev(b), "on the device"); want<int32_t>(z.field(i), {i == 1 ? 0 : 1, 2}, v[i], "viewed twice"); }
    for (int i = 0; i < f; ++i) for (size_t q = 0; q < v[i].size(); ++q) y.field(i).data<int32_t>()[q] = v[i][q] = sx_i32("written"); y.broadcast(); Tensor w = y.view(dev(b)); for (int i = 0; i < f; ++i) want<int32_t>(w.field(i), {i == 1 ? 0 : 1, 2}, v[i], "written and broadcast"); } SX_ASSERT(live.empty(), "freed"); sx_reach("end"); }
SX_ENTRY h_tensor() { Dev d; dev(0); { Workbench bench(ComputingDevice(CPU, 0)); bench.device().memory_device = dev((int) sx_choose(3, "computing device")); MemoryDevice md = bench.device().memory_device; ctx::bind<Workbench> bind(bench); std::vector<int32_t> v = symv<int32_t>(2, "x"); Tensor x = sx_choose(2, "in flow") ? Tensor(Tensor::InFlow::DEVICE, INT32, {2}) : Tensor(Tensor::InFlow::HOST, INT32, {2}); for (int i = 0; i < 2; ++i) x.data<int32_t>()[i] = v[i]; Tensor h = x.view(Tensor::InFlow::HOST), c = x.view(Tensor::InFlow::DEVICE); SX_ASSERT(h.device() == dev(0) && c.device() == md, "host and device views"); want<int32_t>(h, {2}, v, "host view"); want<int32_t>(c, {2}, v, "device view"); Tensor o(Tensor::InFlow::DEVICE, INT32, {1}, dev(2)), g(Tensor::InFlow::HOST, INT32, {1}, dev(2)); SX_ASSERT(o.device() == dev(2) && g.device() == dev(0), "a given device, or the host"); Tensor p(Tensor::InFlow::DEVICE, INT32, {1}); SX_ASSERT(p.device() == md, "the bound device"); } sx_reach("end"); }
SX_ENTRY h_ctrl() { dev(0); { int a = (int) sx_choose(3, "default device"), b = (int) sx_choose(3, "device"), c = (int) sx_choose(3, "view"); SyncMemoryController::shared s = sx_choose(2, "flow") ? (SyncMemoryController::shared) HypeSyncMemoryController<FlowMemoryController>::Make(dev(a), true) : (SyncMemoryController::shared) DynamicSyncMemoryController::Make(dev(a)); Tensor x(s, INT16, {3}), y(s, INT16, {3}, dev(b)), e(s, Tensor::Prototype()); SX_ASSERT(x.device() == dev(a) && y.device() == dev(b), "where memory is allocated"); std::vector<int16_t> v = symv<int16_t>(3, "x"), w = symv<int16_t>(3, "y"); for (int i = 0; i < 3; ++i) { x.data<int16_t>()[i] = v[i]; y.data<int16_t>()[i] = w[i]; } Tensor vx = x.view(dev(c)), vy = y.view(dev(c)); if (sx_choose(2, "drop the controller")) s.reset(); x = Tensor(); want<int16_t>(vx, {3}, v, "a view outlives the tensor"); want<int16_t>(vy, {3}, w, "views"); want<int16_t>(y, {3}, w, "kept"); Tensor z = vx.view(dev(b)); want<int16_t>(z, {3}, v, "viewed again"); } SX_ASSERT(live.empty(), "freed"); sx_reach("end"); }
SX_ENTRY h_clone() { dev(0); { int a = (int) sx_choose(3, "device"), b = (int) sx_choose(3, "to"), how = (int) sx_choose(4, "how"); int f = sx_pick(1, 2, "fields"); std::vector<Tensor> fs; std::vector<std::vector<uint8_t>> v; for (int i = 0; i < f; ++i) { v.push_back(symv<uint8_t>(2, "x")); Tensor t(dev(a), UINT8, {2}); for (int q = 0; q < 2; ++q) t.data<uint8_t>()[q] = v[i][q]; fs.push_back(t); } Tensor x = Tensor::Pack(fs), y; MemoryDevice to = dev(b); 
    if (how == 0) { y = x.clone(); to = dev(a); } if (how == 1) y = x.clone(MemoryController::shared(new DynamicMemoryController(dev(b)))); if (how == 2) y = x.clone((SyncMemoryController::shared) DynamicSyncMemoryController::Make(dev(b))); if (how == 3) y = x.clone((SyncMemoryController::shared) DynamicSyncMemoryController::Make(dev((b + 1) % 3)), dev(b));
    SX_ASSERT((int) y.fields_count() == f, "fields"); for (int i = 0; i < f; ++i) { SX_ASSERT(y.field(i).device() == to, "cloned onto the asked device"); want<uint8_t>(y.field(i), {2}, v[i], "clone"); x.field(i).data<uint8_t>()[0] = 1; y.field(i).data<uint8_t>()[1] = 2; SX_ASSERT(y.field(i).data<uint8_t>()[0] == v[i][0] && x.field(i).data<uint8_t>()[1] == v[i][1], "clones are independent"); } } SX_ASSERT(live.empty(), "freed"); sx_reach("end"); }
// stored from any device, loaded on the CPU
struct MemW : StreamWriter { Bytes b; uint64_t write(const void *p, uint64_t n) override { b.insert(b.end(), (const uint8_t *) p, (const uint8_t *) p + n); return n; } };
struct MemR : StreamReader { Bytes b; size_t at = 0; uint64_t read(void *p, uint64_t n) override { size_t k = std::min<size_t>(n, b.size() - at); std::memcpy(p, b.data() + at, k); at += k; return k; } };
SX_ENTRY h_store() { dev(0); { int a = (int) sx_choose(3, "device"); std::vector<int16_t> v = symv<int16_t>(2, "x"); Tensor x(dev(a), INT16, {2}); for (int i = 0; i < 2; ++i) x.data<int16_t>()[i] = v[i]; MemW w; x.serialize(w); MemR r; r.b = w.b; Tensor y; y.externalize(r); SX_ASSERT(y.device() == dev(0), "loaded on the host"); want<int16_t>(y, {2}, v, "loaded"); want<int16_t>(x, {2}, v, "kept"); } SX_ASSERT(live.empty(), "freed"); sx_reach("end"); }
// a device that runs out of memory is reported, and nothing changes
SX_ENTRY h_fail() { dev(0); { int a = (int) sx_choose(2, "device"), k = (int) sx_choose(2, "lock"); SyncMemory m(dev(a), 2, k); Bytes b(2); for (int i = 0; i < 2; ++i) m.data<uint8_t>()[i] = b[i] = sx_u8("byte"); fails = 0; SX_ASSERT(throws([&]() { m.view(MemoryDevice("toy", 2)); }), "running out of memory is reported"); fails = -1; for (int i = 0; i < 2; ++i) SX_ASSERT(m.data<uint8_t>()[i] == b[i], "kept"); SyncMemory v = m.view(dev(2)); for (int i = 0; i < 2; ++i) SX_ASSERT(v.data<uint8_t>()[i] == b[i], "viewed afterwards"); SX_ASSERT(throws([&]() { m.view(MemoryDevice("none", 0)); }), "an unknown device is reported"); for (int i = 0; i < 2; ++i) SX_ASSERT(m.data<uint8_t>()[i] == b[i], "kept"); } SX_ASSERT(live.empty(), "freed"); sx_reach("end"); }
