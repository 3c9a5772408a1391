//@ sources: @runtime !src/runtime/inside/thread_pool.cpp !src/runtime/inside/parallel.cpp !src/module/io/fstream.cpp src/kernels/cpu/cast.cpp src/backend/base/base_cast_v2.cpp src/kernels/cpu/math_cpu.cpp src/runtime/image_filter.cpp src/module/loaders/open.cpp src/global/module_loader_factory.cpp src/api/common.cpp src/api/errno.cpp src/api/tensor.cpp src/api/module.cpp src/api/operator.cpp src/api/program.cpp src/api/workbench.cpp src/api/image_filter.cpp src/api/intime.cpp
//@ entry: h_tensor reach=end
//@ entry: h_flow reach=end
//@ entry: h_shape reach=ok,bad
//@ entry: h_slice reach=ok,bad
//@ entry: h_pack reach=end
//@ entry: h_cast reach=end
//@ entry: h_null reach=end
//@ entry: h_null2 reach=end
//@ entry: h_null3 reach=end
//@ entry: h_message reach=end
//@ entry: h_module reach=ok,bad
//@ entry: h_bench reach=end
//@ entry: h_bench_bad reach=end
//@ entry: h_throw reach=end
//@ entry: h_plugin reach=end
//@ entry: h_plugin_bad reach=end
//@ entry: h_infer reach=ok,bad
//@ bounds: tensors of 0-2 dims with sizes 0..3 and every element type, arbitrary bytes; indices -3..4; every function with every argument null; modules of one to two operators; operators and plugins failing at every stage with every kind of standard exception
//@ assume: pointers that are not null are valid; exceptions of plugins derive from std::exception
//@ outside: files (same code behind the reader); GPU; exceptions of other types; freeing an object twice
//@ stub: ThreadPool (nothing is scheduled on it), CPU feature detection (all present)
#include "bench.h"
#include <core/tensor_builder.h>
#include <runtime/runtime.h>
#include <api/common.h>
#include <api/tensor.h>
#include <api/module.h>
#include <api/operator.h>
#include <api/program.h>
#include <api/workbench.h>
#include <api/image_filter.h>
#include <api/intime.h>
#include <api/declare_tensor.h>
#include <api/declare_module.h>
#include <api/declare_program.h>
#include <api/declare_workbench.h>
#include <module/io/sstream.h>
#include <thread>
#include <stdexcept>
static const char *msg() { const char *m = ts_last_error_message(); SX_ASSERT(m != nullptr, "there is a message"); return m; }
template <typename F> static auto call(F f) -> decltype(f()) { try { return f(); } catch (...) { SX_ASSERT(false, "no exception leaves a C function"); } return decltype(f())(); }
template <typename F> static void ok(F f, const char *what) { auto r = call(f); SX_ASSERT(bool(r), what); SX_ASSERT(msg()[0] == 0, "no message after success"); }
template <typename F> static void fails(F f) { ts_set_error_message("before"); auto r = call(f); SX_ASSERT(!r, "failure is returned"); SX_ASSERT(msg()[0] != 0, "a failure has a message"); SX_ASSERT(std::string(msg()) != "before", "it is the message of this failure"); }
static void same(const ts_Tensor *a, const Tensor &b) { SX_ASSERT(a != nullptr, "a tensor is returned"); auto &t = **a; SX_ASSERT(t.fields_count() == b.fields_count(), "fields"); for (size_t f = 0; f < b.fields_count(); ++f) { Tensor x = t.field(f), y = b.field(f); SX_ASSERT(x.dtype() == y.dtype(), "type"); SX_ASSERT(ints(x.sizes()) == ints(y.sizes()), "shape"); size_t n = x.proto().type_bytes() * x.count(); auto p = x.data<uint8_t>(), q = y.data<uint8_t>(); for (size_t i = 0; i < n; ++i) SX_ASSERT(p[i] == q[i], "data"); } }
// the C function gives the tensor the library gives, or fails when it fails
template <typename C, typename L> static bool agree(C c, L l) { Tensor w; bool bad = false; try { w = l(); } catch (const std::exception &) { bad = true; } if (bad) { fails([&]() { return c(); }); return false; } ts_Tensor *r = call(c); same(r, w); SX_ASSERT(msg()[0] == 0, "no message after success"); ts_free_Tensor(r); return true; }
static ts_Tensor *wrap(const Tensor &t) { return new ts_Tensor(t); }
static const ts_DTYPE DT[] = {TS_INT8, TS_UINT8, TS_INT16, TS_UINT16, TS_INT32, TS_UINT32, TS_INT64, TS_UINT64, TS_FLOAT32, TS_FLOAT64, TS_CHAR8};
static std::vector<uint8_t> bytes(size_t n) { std::vector<uint8_t> v(n); for (auto &b : v) b = sx_u8("byte"); return v; }
SX_ENTRY h_tensor() { Dev d; ts_DTYPE dt = DT[sx_pick(0, 10, "type")]; Ints s = pick_shape(sx_pick(0, 2, "dims"), 0, 2); size_t n = prod(s) * type_bytes(DTYPE(dt)); auto v = bytes(n); bool data = sx_pick(0, 1, "data"), nul = s.empty() && sx_pick(0, 1, "null shape"); ts_set_error_message("old");
    ts_Tensor *t = call([&]() { return ts_new_Tensor(nul ? nullptr : s.data(), nul ? 5 : (int) s.size(), dt, data ? (n ? v.data() : (void *) &n) : nullptr); }); SX_ASSERT(t != nullptr && msg()[0] == 0, "made"); SX_ASSERT(ts_Tensor_dtype(t) == dt && ts_Tensor_shape_size(t) == (int) s.size(), "type and dims"); for (size_t i = 0; i < s.size(); ++i) SX_ASSERT(ts_Tensor_shape(t)[i] == s[i], "shape");
    SX_ASSERT(!ts_Tensor_packed(t) && ts_Tensor_fields_count(t) == 1, "one field"); auto p = (uint8_t *) ts_Tensor_data(t); if (!data) { for (size_t i = 0; i < n; ++i) p[i] = v[i]; } for (size_t i = 0; i < n; ++i) SX_ASSERT(p[i] == v[i], "data");
    ts_Tensor *c = call([&]() { return ts_Tensor_clone(t); }); same(c, **t); if (n) { ((uint8_t *) ts_Tensor_data(c))[0] = 7; SX_ASSERT(p[0] == v[0], "a clone has its own data"); } ok([&]() { return ts_Tensor_sync_cpu(t); }, "synced"); p = (uint8_t *) ts_Tensor_data(t); for (size_t i = 0; i < n; ++i) SX_ASSERT(p[i] == v[i], "same data"); ts_free_Tensor(t); ts_free_Tensor(c); ts_free_Tensor(nullptr); sx_reach("end"); }
SX_ENTRY h_flow() { Dev d;  { Tensor h = tensor::from<int32_t>(1); ts_Tensor *z = wrap(h); fails([&]() { return ts_new_Tensor_in_flow(TS_HOST, nullptr, 0, TS_INT32, nullptr); }); ts_free_Tensor(z); } Workbench wb(ComputingDevice(CPU, 0)); ctx::bind<Workbench> bwb(wb); ts_DTYPE dt = DT[sx_pick(0, 10, "type")]; Ints s = pick_shape(sx_pick(0, 2, "dims"), 1, 2); size_t n = prod(s) * type_bytes(DTYPE(dt)); auto v = bytes(n); ts_Tensor *t = call([&]() { return ts_new_Tensor_in_flow(TS_HOST, s.data(), (int) s.size(), dt, v.data()); }); SX_ASSERT(t != nullptr && msg()[0] == 0, "made"); auto p = (uint8_t *) ts_Tensor_data(t); for (size_t i = 0; i < n; ++i) SX_ASSERT(p[i] == v[i], "data"); ts_Tensor *w = call([&]() { return ts_Tensor_view_in_flow(t, TS_HOST); }); same(w, **t); ts_free_Tensor(t); ts_free_Tensor(w); fails([&]() { return ts_Tensor_view_in_flow(nullptr, TS_HOST); }); sx_reach("end"); }
SX_ENTRY h_shape() { Dev d; Ints s = pick_shape(sx_pick(0, 2, "dims"), 1, 3), r; int n = sx_pick(0, 2, "new dims"); for (int i = 0; i < n; ++i) r.push_back(sx_pick(-2, 4, "size")); Tensor x = symt<int16_t>(s, "x"); ts_Tensor *t = wrap(x); bool good = agree([&]() { return ts_Tensor_reshape(t, r.data(), n); }, [&]() { return x.reshape(shp(r)); }); sx_reach(good ? "ok" : "bad"); ts_free_Tensor(t); }
SX_ENTRY h_slice() { Dev d; Ints s = pick_shape(sx_pick(0, 2, "dims"), 1, 3); Tensor x = symt<int16_t>(s, "x"); ts_Tensor *t = wrap(x); int i = sx_pick(-4, 4, "i"), j = sx_pick(-4, 4, "j"); bool good = sx_pick(0, 1, "range") ? agree([&]() { return ts_Tensor_slice_v2(t, i, j); }, [&]() { return x.slice(i, j); }) : agree([&]() { return ts_Tensor_slice(t, i); }, [&]() { return x.slice(i); }); sx_reach(good ? "ok" : "bad"); ts_free_Tensor(t); }
SX_ENTRY h_pack() { Dev d; int n = sx_pick(0, 3, "fields"); std::vector<Tensor> f; std::vector<ts_Tensor *> c; for (int i = 0; i < n; ++i) { f.push_back(i & 1 ? symt<int8_t>({2}, "b") : symt<int32_t>({}, "a")); c.push_back(wrap(f.back())); } int nul = sx_pick(-1, n - 1, "null"); ts_Tensor *keep = nullptr; if (nul >= 0) { keep = c[nul]; c[nul] = nullptr; ts_Tensor *none = nullptr; fails([&]() { return ts_Tensor_pack(c.data(), n); }); (void) none; ts_free_Tensor(keep); sx_reach("end"); return; }
    ts_Tensor *none = nullptr; ts_Tensor *p = call([&]() { return ts_Tensor_pack(n ? c.data() : &none, n); }); SX_ASSERT(p != nullptr && msg()[0] == 0, "packed"); if (n) { SX_ASSERT(ts_Tensor_fields_count(p) == n && bool(ts_Tensor_packed(p)) == (n > 1), "fields"); int k = sx_pick(-4, 4, "field"); Tensor w = **p; agree([&]() { return ts_Tensor_field(p, k); }, [&]() { return w.field(k); }); if (k >= -n && k < n) { ts_Tensor *g = ts_Tensor_field(p, k); same(g, f[k < 0 ? k + n : k]); ts_free_Tensor(g); } } ts_free_Tensor(p); for (auto t : c) ts_free_Tensor(t); sx_reach("end"); }
SX_ENTRY h_cast() { Dev d; int a = sx_pick(0, 10, "from"), b = sx_pick(0, 10, "to"); Tensor x(DTYPE(DT[a]), shp({2})); size_t n = 2 * x.proto().type_bytes(); for (size_t i = 0; i < n; ++i) x.data<uint8_t>()[i] = (uint8_t) (i % 2 ? 0 : 3); ts_Tensor *t = wrap(x); agree([&]() { return ts_Tensor_cast(t, DT[b]); }, [&]() { return tensor::cast(DTYPE(DT[b]), x); }); ts_free_Tensor(t); sx_reach("end"); }
// every required argument given as null is refused
static ts_Device CPU0 = {"cpu", 0};
static uint64_t rd0(void *, char *, uint64_t) { return 0; } static void rw0(void *) {}
SX_ENTRY h_null() { Dev d; Tensor x = tensor::from<int32_t>(1); ts_Tensor *t = wrap(x), *z = nullptr, *ts[1] = {t}; int32_t sh[1] = {1}; (void) sh; const ts_Tensor *cz[1] = {nullptr}; char buf[4] = {0}; (void) cz;
#define F(e) fails([&]() { return e; });
    switch (sx_pick(0, 31, "function")) { case 0: F(ts_Tensor_shape(z)) break; case 1: F(ts_Tensor_shape_size(z)) break; case 2: F(ts_Tensor_dtype(z)) break; case 3: F(ts_Tensor_data(z)) break; case 4: F(ts_Tensor_clone(z)) break; case 5: F(ts_Tensor_sync_cpu(z)) break; case 6: F(ts_Tensor_cast(z, TS_INT8)) break; case 7: F(ts_Tensor_reshape(z, sh, 1)) break; case 8: F(ts_Tensor_field(z, 0)) break; case 9: F(ts_Tensor_packed(z)) break; case 10: F(ts_Tensor_fields_count(z)) break; case 11: F(ts_Tensor_pack(nullptr, 1)) break; case 12: F(ts_Tensor_slice(z, 0)) break; case 13: F(ts_Tensor_slice_v2(z, 0, 1)) break; case 14: F(ts_Tensor_save(nullptr, t)) break; case 15: F(ts_Tensor_save("x", nullptr)) break; case 16: F(ts_Tensor_load(nullptr)) break;
        case 17: F(ts_intime_transpose(z, sh, 1)) F(ts_intime_transpose(t, nullptr, 1)) break; case 18: F(ts_intime_sigmoid(z)) break; case 19: F(ts_intime_gather(z, t, 0)) F(ts_intime_gather(t, z, 0)) break; case 20: F(ts_intime_concat(nullptr, 1, 0)) F(ts_intime_concat(cz, 1, 0)) break; case 21: F(ts_intime_softmax(z, 0, 1)) break; case 22: F(ts_intime_pad(z, t, 0)) F(ts_intime_pad(t, z, 0)) break; case 23: F(ts_intime_cast(z, TS_INT8)) break; case 24: F(ts_intime_resize2d(z, t, 0)) F(ts_intime_resize2d(t, z, 0)) break; case 25: F(ts_intime_affine_sample2d(z, t, t, 0, 0, 0)) F(ts_intime_affine_sample2d(t, z, t, 0, 0, 0)) F(ts_intime_affine_sample2d(t, t, z, 0, 0, 0)) break; case 26: F(ts_intime_affine_on_sample2d(z, t, t, 0, 0)) F(ts_intime_affine_on_sample2d(t, z, t, 0, 0)) F(ts_intime_affine_on_sample2d(t, t, z, 0, 0)) break; case 27: F(ts_intime_memcpy(z, buf, 0, t, buf, 0, 1)) F(ts_intime_memcpy(t, buf, 0, z, buf, 0, 1)) break; case 28: F(ts_intime_matmul(z, t, 0)) F(ts_intime_matmul(t, z, 0)) break; case 29: F(ts_new_Tensor(sh, 1, TS_VOID, buf)) break; case 30: F(ts_Tensor_shape_size(z)) break; default: F(ts_Tensor_view_in_flow(z, TS_HOST)) break; }
    ts_free_Tensor(t); (void) ts; sx_reach("end"); }
SX_ENTRY h_null2() { Mod q; q.build(1, 0, 1, 1); q.os = {1}; q.outs = {q.g().v[1]}; q.order(); q.m = Module::Load(q.g().g, q.outs); ts_Module *m = new ts_Module(q.m), *mz = nullptr; ts_Workbench *b = ts_new_Workbench(sx_pick(0, 1, "device") ? &CPU0 : nullptr), *z = nullptr; SX_ASSERT(b != nullptr && msg()[0] == 0, "made"); ts_Tensor *t = wrap(tensor::from<int32_t>(1)); ts_Program *p = ts_Workbench_compile(b, m), *pz = nullptr; SX_ASSERT(p != nullptr, "compiled"); int o = 0; const char *nn[1] = {"n0"};
    switch (sx_pick(0, 38, "function")) { case 0: F(ts_Module_Load(nullptr, TS_BINARY)) break; case 1: F(ts_Module_LoadFromStream(nullptr, rd0, TS_BINARY)) break; case 2: F(ts_Module_LoadFromStream(&o, nullptr, TS_BINARY)) break; case 3: F(ts_Module_LoadV2(nullptr, "", 0, TS_BINARY)) break; case 4: F(ts_Module_LoadV2("x", nullptr, 0, TS_BINARY)) break; case 5: F(ts_Module_LoadFromStreamV2(nullptr, rd0, rw0, nullptr, 0, TS_BINARY)) break; case 6: F(ts_Module_LoadFromStreamV2(&o, nullptr, rw0, nullptr, 0, TS_BINARY)) break; case 7: F(ts_Module_LoadFromStreamV2(&o, rd0, nullptr, nullptr, 0, TS_BINARY)) break; case 8: case 9: case 10: case 11: F(ts_Module_Fusion(mz, 0, m, 0)) break; case 12: F(ts_Module_Fusion(m, 0, mz, 0)) break;
        case 13: F(ts_Workbench_Load(mz, &CPU0)) break; case 14: F(ts_Workbench_Load(m, nullptr)) break; case 15: F(ts_Workbench_clone(z)) break; case 16: F(ts_Workbench_input(z, 0, t)) break; case 17: F(ts_Workbench_input(b, 0, nullptr)) break; case 18: F(ts_Workbench_input_by_name(z, "p0", t)) F(ts_Workbench_input_by_name(b, nullptr, t)) F(ts_Workbench_input_by_name(b, "p0", nullptr)) break; case 19: F(ts_Workbench_run(z)) break; case 20: F(ts_Workbench_output(z, 0, t)) F(ts_Workbench_output(b, 0, nullptr)) break; case 21: F(ts_Workbench_output_by_name(z, "n0", t)) F(ts_Workbench_output_by_name(b, nullptr, t)) F(ts_Workbench_output_by_name(b, "n0", nullptr)) break; case 22: F(ts_Workbench_set_computing_thread_number(z, 1)) break; case 23: F(ts_Workbench_bind_filter(z, 0, nullptr)) F(ts_Workbench_bind_filter(b, 0, nullptr)) break; case 24: F(ts_Workbench_bind_filter_by_name(z, "p0", nullptr)) F(ts_Workbench_bind_filter_by_name(b, nullptr, nullptr)) F(ts_Workbench_bind_filter_by_name(b, "p0", nullptr)) break; case 25: F(ts_Workbench_setup(z, p)) F(ts_Workbench_setup(b, pz)) break; case 26: F(ts_Workbench_setup_context(z)) F(ts_Workbench_setup_device(z)) F(ts_Workbench_setup_runtime(z)) break; case 27: F(ts_Workbench_compile(z, m)) F(ts_Workbench_compile(b, mz)) break; case 28: F(ts_Workbench_input_count(z)) F(ts_Workbench_output_count(z)) break; case 29: F(ts_Workbench_Load_v2(mz, &CPU0, "")) F(ts_Workbench_Load_v2(m, nullptr, "")) F(ts_Workbench_Load_v2(m, &CPU0, nullptr)) break; case 30: F(ts_Workbench_compile_v2(z, m, "")) F(ts_Workbench_compile_v2(b, mz, "")) F(ts_Workbench_compile_v2(b, m, nullptr)) break; case 31: F(ts_Workbench_run_hook(z, nn, 1)) F(ts_Workbench_run_hook(b, nullptr, 1)) break; case 32: F(ts_Workbench_set_operator_param(z, "n0", "a", t)) F(ts_Workbench_set_operator_param(b, nullptr, "a", t)) F(ts_Workbench_set_operator_param(b, "n0", nullptr, t)) F(ts_Workbench_set_operator_param(b, "n0", "a", nullptr)) break; case 33: F(ts_Workbench_summary(z)) break; case 34: F(ts_Workbench_set_cpu_mode(z, TS_CPU_BALANCE)) break;
        case 35: F(ts_Program_Compile(mz, &CPU0)) F(ts_Program_Compile(m, nullptr)) break; case 36: F(ts_Program_clone(pz)) F(ts_Program_input_count(pz)) F(ts_Program_output_count(pz)) break; case 37: F(ts_Program_Compile_v2(mz, &CPU0, "")) F(ts_Program_Compile_v2(m, nullptr, "")) F(ts_Program_Compile_v2(m, &CPU0, nullptr)) break; default: F(ts_Program_set_operator_param(pz, "n0", "a", t)) F(ts_Program_set_operator_param(p, nullptr, "a", t)) F(ts_Program_set_operator_param(p, "n0", nullptr, t)) F(ts_Program_set_operator_param(p, "n0", "a", nullptr)) break; }
    call([&]() { ts_free_Program(p); ts_free_Workbench(b); ts_free_Module(m); ts_free_Tensor(t); ts_free_Program(nullptr); ts_free_Workbench(nullptr); ts_free_Module(nullptr); return 0; }); sx_reach("end"); }
SX_ENTRY h_null3() { ts_ImageFilter *z = nullptr; float f[1] = {1}; int32_t s[1] = {0}; ts_Tensor *t = wrap(tensor::from<int32_t>(1));
    switch (sx_pick(0, 22, "function")) { case 0: F(ts_ImageFilter_clear(z)) break; case 1: F(ts_ImageFilter_compile(z)) break; case 2: F(ts_ImageFilter_to_float(z)) break; case 3: F(ts_ImageFilter_scale(z, 1)) break; case 4: F(ts_ImageFilter_sub_mean(z, f, 1)) break; case 5: F(ts_ImageFilter_div_std(z, f, 1)) break; case 6: F(ts_ImageFilter_resize(z, 1, 1)) break; case 7: F(ts_ImageFilter_resize_scalar(z, 1)) break; case 8: F(ts_ImageFilter_center_crop(z, 1, 1)) break; case 9: F(ts_ImageFilter_channel_swap(z, s, 1)) break; case 10: F(ts_ImageFilter_to_chw(z)) break; case 11: F(ts_ImageFilter_prewhiten(z)) break; case 12: F(ts_ImageFilter_run(z, t)) break; case 13: F(ts_ImageFilter_letterbox(z, 1, 1, 0)) break; case 14: F(ts_ImageFilter_divided(z, 1, 1, 0)) break; case 15: F(ts_ImageFilter_resize_v2(z, 1, 1, TS_RESIZE_BILINEAR)) break; case 16: F(ts_ImageFilter_resize_scalar_v2(z, 1, TS_RESIZE_BILINEAR)) break; case 17: F(ts_ImageFilter_letterbox_v2(z, 1, 1, 0, TS_RESIZE_BILINEAR)) break; case 18: F(ts_ImageFilter_force_color(z)) break; case 19: F(ts_ImageFilter_force_gray(z)) break; case 20: F(ts_ImageFilter_force_gray_v2(z, f, 1)) break; case 21: F(ts_ImageFilter_norm_image(z, 1)) break; default: F(ts_ImageFilter_module(z)) break; } ts_free_Tensor(t); sx_reach("end"); }

SX_ENTRY h_message() { ts_set_error_message("one"); SX_ASSERT(std::string(msg()) == "one", "the message set"); call([]() { ts_set_error_message(nullptr); return 0; }); SX_ASSERT(msg()[0] == 0, "no message"); ts_set_error_message("two"); std::string other; { std::thread t([&]() { other = ts_last_error_message(); ts_set_error_message("three"); }); t.join(); } SX_ASSERT(other.empty(), "messages belong to their thread"); SX_ASSERT(std::string(msg()) == "two", "another thread's message is not seen here"); sx_reach("end"); }
// ---- modules through a reader: what the library loads, whatever pieces the reader gives
struct Rd { const std::string *s; size_t at; int piece; bool thrown; };
static uint64_t rd(void *o, char *p, uint64_t n) { auto &r = *(Rd *) o; size_t k = r.s->size() - r.at; if (n < k) k = (size_t) n; memcpy(p, r.s->data() + r.at, k); r.at += k; return k; } static void rw(void *o) { ((Rd *) o)->at = 0; }
SX_ENTRY h_module() { Mod q; q.build(1, 1, 1, 2); q.outputs(1); q.order(); if (q.in.empty()) { sx_reach("ok"); sx_reach("bad"); return; } q.m = Module::Load(q.g().g, q.outs); StringStreamWriter w; Module::Save(w, q.m); std::string f = w.str(); bool whole = sx_pick(0, 1, "whole"); if (!whole) { int cut = sx_pick(0, 9, "cut"); f.resize(f.size() * cut / 10); } Rd r = {&f, 0, 0, false}; bool v2 = sx_pick(0, 1, "v2");
    ts_set_error_message("before"); ts_Module *m = call([&]() { return v2 ? ts_Module_LoadFromStreamV2(&r, rd, rw, nullptr, 0, TS_BINARY) : ts_Module_LoadFromStream(&r, rd, TS_BINARY); }); if (!whole) { SX_ASSERT(m == nullptr, "half a module is not loaded"); SX_ASSERT(msg()[0] && std::string(msg()) != "before", "a failure has a message"); sx_reach("bad"); return; } SX_ASSERT(m != nullptr && msg()[0] == 0, "loaded"); SX_ASSERT((*m)->inputs().size() == q.in.size() && (*m)->outputs().size() == q.os.size(), "inputs and outputs"); for (size_t i = 0; i < q.os.size(); ++i) SX_ASSERT(draw((*m)->output(i)) == draw(q.outs[i]), "the graph");
    ts_Workbench *b = call([&]() { return ts_Workbench_Load(m, &CPU0); }); SX_ASSERT(b != nullptr, "set up"); q.values(); for (size_t i = 0; i < q.in.size(); ++i) { ts_Tensor *t = wrap(tensor::from<int32_t>(q.pv[q.in[i]])); std::string n = q.inputs[i].bubble().name(); ok([&]() { return ts_Workbench_input_by_name(b, n.c_str(), t); }, "input by name"); ts_free_Tensor(t); } ok([&]() { return ts_Workbench_run(b); }, "run"); q.check(**b); ts_Tensor *o = wrap(Tensor()); ok([&]() { return ts_Workbench_output(b, 0, o); }, "output"); same(o, (*b)->output(0)); ts_free_Tensor(o); ts_free_Workbench(b); ts_free_Module(m); sx_reach("ok"); }
// ---- the workbench: the same results as from the library, errors told
SX_ENTRY h_bench() { Mod q; q.build(1, 0, 2, 2); q.outputs(2); q.order(); q.m = Module::Load(q.g().g, q.outs); ts_Module *m = new ts_Module(q.m); ts_Workbench *b = nullptr; int how = sx_pick(0, 2, "how"); if (how == 0) { b = call([&]() { return ts_Workbench_Load(m, &CPU0); }); } else if (how == 1) { b = call([&]() { return ts_Workbench_Load_v2(m, &CPU0, ""); }); } else { b = call([&]() { return ts_new_Workbench(&CPU0); }); ts_Program *p = call([&]() { return ts_Workbench_compile(b, m); }); SX_ASSERT(p != nullptr && msg()[0] == 0, "compiled"); SX_ASSERT(ts_Program_input_count(p) == (int) q.in.size() && ts_Program_output_count(p) == (int) q.os.size(), "counts of the program"); ok([&]() { return ts_Workbench_setup(b, p); }, "set up"); ts_free_Program(p); } SX_ASSERT(b != nullptr && msg()[0] == 0, "made"); SX_ASSERT(ts_Workbench_input_count(b) == (int) q.in.size() && ts_Workbench_output_count(b) == (int) q.os.size(), "counts");
    q.values(); if (sx_pick(0, 1, "clone")) { ts_Workbench *c = call([&]() { return ts_Workbench_clone(b); }); SX_ASSERT(c != nullptr && msg()[0] == 0, "cloned"); ts_free_Workbench(b); b = c; } for (size_t i = 0; i < q.in.size(); ++i) { ts_Tensor *t = wrap(tensor::from<int32_t>(q.pv[q.in[i]])); ok([&]() { return ts_Workbench_input(b, (int) i, t); }, "input"); ts_free_Tensor(t); } ok([&]() { return ts_Workbench_run(b); }, "run"); for (size_t i = 0; i < q.os.size(); ++i) { ts_Tensor *o = wrap(Tensor()); ok([&]() { return ts_Workbench_output(b, (int) i, o); }, "output"); same(o, tensor::from<int32_t>(q.eval(q.os[i]))); std::string n = q.outs[i].bubble().name(); ok([&]() { return ts_Workbench_output_by_name(b, n.c_str(), o); }, "output by name"); same(o, tensor::from<int32_t>(q.eval(q.os[i]))); ts_free_Tensor(o); } ts_free_Workbench(b); ts_free_Module(m); sx_reach("end"); }
SX_ENTRY h_bench_bad() { Mod q; q.build(1, 0, 1, 1); q.os = {1}; q.outs = {q.g().v[1]}; q.order(); q.in = {0}; q.m = Module::Load(q.g().g, q.outs); ts_Module *m = new ts_Module(q.m); ts_Workbench *b = ts_new_Workbench(&CPU0); ts_Tensor *t = wrap(tensor::from<int32_t>(q.pv[0] = sx_i32("x"))), *o = wrap(tensor::from<int32_t>(77)); bool setup = sx_pick(0, 1, "set up"); ts_Program *p = ts_Workbench_compile(b, m); if (setup) { ok([&]() { return ts_Workbench_setup(b, p); }, "set up"); ok([&]() { return ts_Workbench_input(b, 0, t); }, "input"); ok([&]() { return ts_Workbench_run(b); }, "run"); } int k = sx_pick(-2, 2, "index"); const char *nn[1] = {"n0"}; ts_ImageFilter *z = nullptr; (void) z; ts_Device bad = {"nothing", 0};
    switch (sx_pick(0, 8, "wrong call")) { case 0: if (!setup || k != 0) F(ts_Workbench_input(b, k, t)) break; case 1: if (!setup || k != 0) { F(ts_Workbench_output(b, k, o)) SX_ASSERT((*o)->data<int32_t>()[0] == 77, "nothing is written on failure"); } break; case 2: F(ts_Workbench_input_by_name(b, setup ? "q" : "p0", t)) break; case 3: F(ts_Workbench_output_by_name(b, setup ? "q" : "n0", o)) SX_ASSERT((*o)->data<int32_t>()[0] == 77, "nothing is written on failure"); break; case 4: if (!setup) F(ts_Workbench_run(b)) break; case 5: if (!setup) F(ts_Workbench_run_hook(b, nn, 1)) break; case 6: F(ts_new_Workbench(&bad)) break; case 7: F(ts_Workbench_Load(m, &bad)) break; default: F(ts_Program_Compile(m, &CPU0)) break; }
    if (setup) { ok([&]() { return ts_Workbench_run(b); }, "runs after the failure"); ok([&]() { return ts_Workbench_output(b, 0, o); }, "output"); same(o, tensor::from<int32_t>(q.eval(1))); } ts_free_Tensor(t); ts_free_Tensor(o); ts_free_Program(p); ts_free_Workbench(b); ts_free_Module(m); sx_reach("end"); }
// ---- operators that fail, in every way, at every stage
static int g_kind, g_stage; static void boom(int stage) { if (stage != g_stage) return; switch (g_kind) { case 0: throw ts::Exception("bang"); case 1: throw std::runtime_error("bang"); case 2: { std::vector<int> v; (void) v.at(3); break; } case 3: throw std::bad_alloc(); default: TS_LOG_ERROR << "bang" << eject; } }
struct Boom : public Operator { Boom() { field("a", OPTIONAL); boom(0); } void init() override { boom(1); } int infer(Stack &, std::vector<Tensor::Prototype> &o) override { o.resize(1); o[0] = Tensor::Prototype(INT32, Shape()); return 1; } int run(Stack &s) override { boom(2); s.push(tensor::from<int32_t>(5)); if (g_stage == 3) return 0; return 1; } };
static Operator::shared mkb() { return std::make_shared<Boom>(); }
SX_ENTRY h_throw() { g_stage = -1; Mod q; OperatorCreator::Register(CPU, "f0", mkb); q.build(1, 0, 1, 1); q.os = {1}; q.outs = {q.g().v[1]}; q.m = Module::Load(q.g().g, q.outs); ts_Module *m = new ts_Module(q.m); g_stage = sx_pick(0, 2, "stage"); g_kind = sx_pick(0, 4, "kind"); int st = g_stage; ts_Workbench *b = ts_new_Workbench(&CPU0); ts_set_error_message("before"); ts_Program *p = call([&]() { return ts_Workbench_compile(b, m); }); if (st < 2) { SX_ASSERT(p == nullptr, "compilation fails"); SX_ASSERT(msg()[0] && std::string(msg()) != "before", "a failure has a message"); g_stage = -1; p = call([&]() { return ts_Workbench_compile(b, m); }); } SX_ASSERT(p != nullptr && msg()[0] == 0, "compiled"); ok([&]() { return ts_Workbench_setup(b, p); }, "set up"); ts_Tensor *t = wrap(tensor::from<int32_t>(1)); ok([&]() { return ts_Workbench_input(b, 0, t); }, "input"); if (st == 2) { F(ts_Workbench_run(b)) SX_ASSERT(g_kind > 1 && g_kind < 4 ? true : std::string(msg()).find("bang") != std::string::npos, "the operator's message"); g_stage = -1; } ok([&]() { return ts_Workbench_run(b); }, "runs when the operator does"); ok([&]() { return ts_Workbench_output(b, 0, t); }, "output"); same(t, tensor::from<int32_t>(5)); ts_free_Tensor(t); ts_free_Program(p); ts_free_Workbench(b); ts_free_Module(m); sx_reach("end"); }
// ---- operators written against the C API
static int p_new, p_free, p_init, p_run, p_mode, p_obj, p_a; static std::vector<int> p_seen; static std::vector<int32_t> p_proto; static int p_dims = 1; static bool p_ret;
static void *pl_new() { p_new++; return p_mode == 1 ? nullptr : &p_obj; } static void pl_free(const void *o) { SX_ASSERT(o == &p_obj, "the plugin's object"); p_free++; }
static ts_bool pl_init(void *o, const ts_OperatorParams *d, ts_OperatorContext *c) { SX_ASSERT(o == &p_obj && d && c, "arguments of init"); p_init++; ts_Tensor *a = ts_OperatorParams_get(d, "a"); SX_ASSERT(a != nullptr, "a given parameter"); p_a = ((int32_t *) ts_Tensor_data(a))[0]; ts_free_Tensor(a); SX_ASSERT(ts_OperatorParams_get(d, "none") == nullptr, "no such parameter"); if (p_mode == 2) { ts_set_error_message("init bang"); return 0; } if (p_mode == 3) ts_Operator_Throw("init bang"); return 1; }
static void pl_init0(void *o, const ts_OperatorParams *d, ts_OperatorContext *c) { pl_init(o, d, c); }
static ts_Tensor *pl_run(void *o, int32_t n, ts_Tensor **v, ts_OperatorContext *c) { SX_ASSERT(o == &p_obj && c, "arguments of run"); p_run++; p_seen.clear(); int s = p_a; for (int i = 0; i < n; ++i) { p_seen.push_back(((int32_t *) ts_Tensor_data(v[i]))[0]); } std::vector<int> x(p_seen); s = mix(p_a, x); if (p_mode == 4) { ts_set_error_message("run bang"); return nullptr; } if (p_mode == 5) ts_Operator_ThrowV2("run bang", "f", 3); if (p_mode == 6) throw std::runtime_error("run bang"); return ts_new_Tensor(nullptr, 0, TS_INT32, &s); }
static ts_Tensor *pl_infer(void *, int32_t, ts_Tensor **, ts_OperatorContext *) { if (p_ret) return nullptr; int32_t n = (int32_t) p_proto.size(); return ts_new_Tensor(&n, 1, TS_INT32, p_proto.data()); }
static void plug(bool ex) { p_new = p_free = p_init = p_run = p_mode = 0; if (ex) ts_Operator_RegisterEx("cpu", "f0", pl_new, pl_free, pl_init, pl_infer, pl_run); else ts_Operator_Register("cpu", "f0", pl_new, pl_free, pl_init0, pl_infer, pl_run); SX_ASSERT(msg()[0] == 0, "registered"); }
SX_ENTRY h_plugin() { { Mod q; plug(sx_pick(0, 1, "ex")); q.build(2, 0, 1, 3); q.os = {2}; q.outs = {q.g().v[2]}; q.order(); q.load(); SX_ASSERT(p_new == 1 && p_init == 1 && p_run == 0, "made and initialized once"); q.feed(q.b); q.b.run(); q.check(q.b); SX_ASSERT(p_run == 1, "run once"); std::vector<int> w; for (int i : q.g().in[2]) w.push_back(q.pv[i]); SX_ASSERT(p_seen == w, "operands in order"); q.b.run(); q.check(q.b); SX_ASSERT(p_new == 1 && p_init == 1 && p_run == 2, "and again"); q.b.setup(nullptr); } SX_ASSERT(p_free == p_new, "every object made is freed once"); sx_reach("end"); }
SX_ENTRY h_plugin_bad() { { Mod q; bool ex = sx_pick(0, 1, "ex"); plug(ex); q.build(1, 0, 1, 1); q.os = {2 - 1}; q.outs = {q.g().v[1]}; q.in = {0}; q.m = Module::Load(q.g().g, q.outs); ts_Module *m = new ts_Module(q.m); int md = sx_pick(1, 6, "failure"); sx_assume(md != 2 || ex); p_mode = md; ts_Workbench *b = ts_new_Workbench(&CPU0); ts_set_error_message("before"); ts_Program *p = call([&]() { return ts_Workbench_compile(b, m); }); if (md <= 3) { SX_ASSERT(p == nullptr, "not compiled"); std::string s = msg(); SX_ASSERT(!s.empty() && s != "before", "message"); if (md > 1) SX_ASSERT(s.find("init bang") != std::string::npos, "the plugin's message"); SX_ASSERT(p_free == (md > 1), "the object is freed"); p_mode = 0; p = call([&]() { return ts_Workbench_compile(b, m); }); md = 0; } SX_ASSERT(p != nullptr && msg()[0] == 0, "compiled"); ok([&]() { return ts_Workbench_setup(b, p); }, "set up"); ts_Tensor *t = wrap(tensor::from<int32_t>(q.pv[0] = sx_i32("x"))); ok([&]() { return ts_Workbench_input(b, 0, t); }, "input"); if (md) { F(ts_Workbench_run(b)) SX_ASSERT(std::string(msg()).find("run bang") != std::string::npos, "the plugin's message"); p_mode = 0; } ok([&]() { return ts_Workbench_run(b); }, "runs"); ok([&]() { return ts_Workbench_output(b, 0, t); }, "output"); same(t, mk<int32_t>({}, {q.eval(1)})); ts_free_Tensor(t); ts_free_Program(p); ts_free_Workbench(b); ts_free_Module(m);
    call([]() { ts_Operator_Register(nullptr, "x", pl_new, pl_free, pl_init0, nullptr, pl_run); return 0; }); SX_ASSERT(msg()[0], "no device"); call([]() { ts_Operator_Register("cpu", nullptr, pl_new, pl_free, pl_init0, nullptr, pl_run); return 0; }); SX_ASSERT(msg()[0], "no name"); call([]() { ts_Operator_Register("cpu", "x", nullptr, pl_free, pl_init0, nullptr, pl_run); return 0; }); SX_ASSERT(msg()[0], "no function"); call([]() { ts_Operator_RegisterEx("cpu", "x", pl_new, pl_free, nullptr, nullptr, pl_run); return 0; }); SX_ASSERT(msg()[0], "no function"); } sx_reach("end"); }
// the shapes a plugin announces: a count, then type, dims and sizes of each field; anything else is refused
SX_ENTRY h_infer() { { Mod q; ctx::bind<RuntimeContext> br(q.b.runtime()); plug(sx_pick(0, 1, "ex")); auto op = OperatorCreator::Create(CPU, "f0", true); op->set("a", tensor::from<int32_t>(1)); op->init(); int n = sx_pick(0, 3, "fields"); std::vector<Ints> ss; std::vector<int> dt; p_proto.clear(); p_proto.push_back(n); for (int i = 0; i < n; ++i) { int k = sx_pick(0, n > 2 ? 1 : 2, "dims"); Ints s; for (int j = 0; j < k; ++j) s.push_back(sx_i32("size")); dt.push_back(i & 1 ? TS_FLOAT32 : TS_INT64); p_proto.push_back(dt.back()); p_proto.push_back(k); for (int x : s) p_proto.push_back(x); ss.push_back(s); } int bad = n ? sx_pick(0, 4, "wrong") : 1; p_ret = bad == 4; if (bad == 1 && n) p_proto.pop_back(); if (bad == 2) p_proto[0] = n + 1; if (bad == 3) p_proto[2] = sx_pick(0, 1, "huge") ? 100 : -1;
    MemoryDevice md(CPU); Stack st(md); st.push(tensor::from<int32_t>(3)); std::vector<Tensor::Prototype> out; bool t = throws([&]() { op->infer(st, out); }); if (bad) { SX_ASSERT(t, "refused"); sx_reach("bad"); } else { SX_ASSERT(!t, "accepted"); SX_ASSERT((int) out.size() == n, "number of fields"); for (int i = 0; i < n; ++i) { SX_ASSERT(out[i].dtype() == dt[i], "type"); SX_ASSERT(ints(out[i].sizes()) == ss[i], "shape"); } sx_reach("ok"); } } SX_ASSERT(p_free == 1, "freed"); sx_reach("end"); }
