//@ sources: @runtime !src/runtime/inside/thread_pool.cpp !src/runtime/inside/parallel.cpp !src/module/io/fstream.cpp src/kernels/cpu/cast.cpp src/backend/base/base_cast_v2.cpp src/kernels/cpu/math_cpu.cpp src/runtime/image_filter.cpp src/api/image_filter.cpp src/api/common.cpp src/api/errno.cpp src/backend/base/element_wise_reduce.cpp src/kernels/cpu/sub.cpp src/kernels/cpu/mul.cpp src/kernels/cpu/to_float.cpp src/backend/base/base_cast.cpp src/backend/base/base_resize2d.cpp src/kernels/cpu/resize2d.cpp src/backend/base/base_affine_sample2d.cpp src/kernels/cpu/affine_sample2d.cpp src/backend/zoo/nhwc_letterbox.cpp src/backend/zoo/nhwc_scale_resize2d.cpp src/backend/zoo/nhwc_center_crop2d.cpp src/backend/zoo/divided.cpp src/backend/base/base_pad.cpp src/kernels/cpu/pad_cpu.cpp src/kernels/cpu/pad2d_algorithm.cpp src/backend/base/base_force_color.cpp src/kernels/cpu/force_color.cpp src/backend/base/base_force_gray.cpp src/kernels/cpu/force_gray.cpp src/backend/base/base_dimshuffle.cpp src/kernels/cpu/dimshuffle.cpp src/backend/base/base_transpose.cpp src/kernels/cpu/transpose.cpp src/backend/base/base_norm_image.cpp src/kernels/cpu/norm_image.cpp src/backend/base/base_prewhiten.cpp src/backend/base/base_activation.cpp src/kernels/cpu/prewhiten.cpp src/utils/box.cpp
//@ entry: h_one reach=end,refused
//@ entry: h_two0 reach=end,refused timeout=300
//@ entry: h_two1 reach=end timeout=300
//@ entry: h_two2 reach=end,refused timeout=300
//@ entry: h_two3 reach=end,refused timeout=300
//@ entry: h_grow reach=end
//@ entry: h_clone reach=end
//@ entry: h_bind reach=end,bad
//@ entry: h_module reach=end
//@ entry: h_norm reach=end
//@ entry: h_null reach=end
//@ bounds: images of 1-2 x 1-3 pixels and 1 or 3 channels; every single step on bytes and on floats, every pair of steps on floats; steps added, cleared and compiled between runs
//@ assume: pixel values are arbitrary bytes
//@ stub: thread pool (only created, nothing runs on it in this build), CPU feature detection
//@ outside: larger images; bilinear and cubic interpolation (see the resizing property); rounding of float arithmetic
#include "bench.h"
#include <api/image_filter.h>
#include <api/common.h>
#include <api/declare_image_filter.h>
#include <api/declare_tensor.h>
#include <cmath>
typedef std::vector<float> VF;
struct Im { int n, h, w, c; VF v; bool f; bool chw; Im() : n(1), h(1), w(1), c(1), f(false), chw(false) {}
    float &at(int b, int y, int x, int k) { return v[((b * h + y) * w + x) * c + k]; }
    Im like(int H, int W, int C) const { Im r; r.n = n; r.h = H; r.w = W; r.c = C; r.f = f; r.v.assign(n * H * W * C, 0); return r; } };
template <typename F> static Im map(Im &m, int H, int W, int C, F f) { Im r = m.like(H, W, C); for (int b = 0; b < r.n; ++b) for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) for (int k = 0; k < C; ++k) r.at(b, y, x, k) = f(b, y, x, k); return r; }
static Im image(int n, int h, int w, int c, std::vector<uint8_t> &raw) { Im m; m.n = n; m.h = h; m.w = w; m.c = c; raw = symv<uint8_t>(n * h * w * c, "x"); for (uint8_t b : raw) m.v.push_back((float) b); return m; }
static const int STEPS = 14;
// adds step k to the filter and applies it to the image; false: the step does not apply to this image
static bool step(ts_ImageFilter *f, Im &m, int k) { auto half = [](int d) { return d / 2; }; auto in = [&](int b, int y, int x, int q, float o) { return y >= 0 && y < m.h && x >= 0 && x < m.w ? m.at(b, y, x, q) : o; }; ts_bool r = ts_false; bool ok = true; Im o;
    switch (k) {
        case 0: r = ts_ImageFilter_to_float(f); o = m; o.f = true; break;
        case 1: r = ts_ImageFilter_scale(f, 0.5f); o = map(m, m.h, m.w, m.c, [&](int b, int y, int x, int q) { return m.at(b, y, x, q) * 0.5f; }); break;
        case 2: case 3: { int len = sx_pick(1, 3, "channels given"); float v[3] = {0.5f, 2, 4}; r = k == 2 ? ts_ImageFilter_sub_mean(f, v, len) : ts_ImageFilter_div_std(f, v, len); ok = len == 1 || m.c == 1 || len == m.c; if (!ok) break; o = map(m, m.h, m.w, std::max(m.c, len), [&](int b, int y, int x, int q) { float p = m.at(b, y, x, m.c == 1 ? 0 : q), z = v[len == 1 ? 0 : q]; return k == 2 ? p - z : p / z; }); break; }
        case 4: r = ts_ImageFilter_resize_v2(f, 2 * m.w, 3 * m.h, TS_RESIZE_NEAREST); o = map(m, 3 * m.h, 2 * m.w, m.c, [&](int b, int y, int x, int q) { return m.at(b, y / 3, x / 2, q); }); break;
        case 5: r = ts_ImageFilter_resize_scalar_v2(f, 2 * std::min(m.w, m.h), TS_RESIZE_NEAREST); o = map(m, 2 * m.h, 2 * m.w, m.c, [&](int b, int y, int x, int q) { return m.at(b, y / 2, x / 2, q); }); break;
        case 6: { int W = sx_pick(1, 3, "crop w"), H = sx_pick(1, 2, "crop h"), t = half(H - m.h), l = half(W - m.w); r = ts_ImageFilter_center_crop(f, W, H); o = map(m, H, W, m.c, [&](int b, int y, int x, int q) { return in(b, y - t, x - l, q, 0); }); break; }
        case 7: { int32_t s[3] = {2, 1, 0}; int len = sx_pick(1, 3, "channels kept"); for (int i = 0; i < len; ++i) if (s[i] >= m.c) ok = false; r = ts_ImageFilter_channel_swap(f, s, len); if (!ok) break; o = map(m, m.h, m.w, len, [&](int b, int y, int x, int q) { return m.at(b, y, x, s[q]); }); break; }
        case 8: { int W = m.w, H = m.h; (sx_choose(2, "wider") ? W : H) += 2; r = ts_ImageFilter_letterbox_v2(f, W, H, 7, TS_RESIZE_NEAREST); o = map(m, H, W, m.c, [&](int b, int y, int x, int q) { return in(b, y, x, q, 7); }); break; }
        case 9: { int W = (m.w + 1) / 2 * 2, H = (m.h + 2) / 3 * 3; r = ts_ImageFilter_divided(f, 2, 3, 9); o = map(m, H, W, m.c, [&](int b, int y, int x, int q) { return in(b, y, x, q, 9); }); break; }
        case 10: r = ts_ImageFilter_force_color(f); ok = m.c == 1 || m.c == 3; if (ok) o = map(m, m.h, m.w, 3, [&](int b, int y, int x, int q) { return m.at(b, y, x, m.c == 1 ? 0 : q); }); break;
        case 11: sx_assume(m.f || m.c == 1); r = ts_ImageFilter_force_gray(f); ok = m.c == 1 || m.c == 3; if (ok) o = map(m, m.h, m.w, 1, [&](int b, int y, int x, int) { float g = m.c == 1 ? m.at(b, y, x, 0) : 0.114f * m.at(b, y, x, 0) + 0.587f * m.at(b, y, x, 1) + 0.299f * m.at(b, y, x, 2); return g; }); break;
        case 12: { float v[3] = {0.25f, 0.5f, 2}, dv[3] = {0.114f, 0.587f, 0.299f}; int len = sx_pick(0, 3, "weights"); sx_assume(len != 1); bool none = sx_choose(2, "no pointer"); sx_assume(!none || len == 3 || len == 0); r = ts_ImageFilter_force_gray_v2(f, none ? nullptr : v, len); if (none || len == 0) { len = 3; std::copy(dv, dv + 3, v); } ok = m.c == 1 || m.c == len; sx_assume(m.f || m.c == 1); if (ok) o = map(m, m.h, m.w, 1, [&](int b, int y, int x, int) { if (m.c == 1) return m.at(b, y, x, 0); float g = 0; for (int q = 0; q < m.c; ++q) g += v[q] * m.at(b, y, x, q); return g; }); break; }
        case 13: r = ts_ImageFilter_to_chw(f); o = m; o.chw = true; break; }
    SX_ASSERT(r, "a step is added"); if (k > 0 && k < 4) o.f = true; if (ok) m = o; return ok; }
static void want(const Tensor &t, Im &m) { Ints s = m.chw ? Ints{m.n, m.c, m.h, m.w} : Ints{m.n, m.h, m.w, m.c}; SX_ASSERT(ints(t.sizes()) == s, "image shape"); SX_ASSERT(t.dtype() == (m.f ? FLOAT32 : UINT8), "image type"); for (int b = 0; b < m.n; ++b) for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) for (int k = 0; k < m.c; ++k) { int i = m.chw ? ((b * m.c + k) * m.h + y) * m.w + x : ((b * m.h + y) * m.w + x) * m.c + k; float w = m.at(b, y, x, k); if (m.f) sx_feq_(t.data<float>()[i], w, "pixel"); else SX_ASSERT((float) t.data<uint8_t>()[i] == w, "pixel"); } }
struct Fx { Dev d; Workbench b; ctx::bind<Workbench> bw; ts_ImageFilter *f; Fx() : b(ComputingDevice(CPU, 0)), bw(b), f(ts_new_ImageFilter(nullptr)) { SX_ASSERT(f != nullptr, "made"); } ~Fx() { ts_free_ImageFilter(f); }
    Tensor run(const Tensor &x, bool &bad) { ts_Tensor in(x); ts_Tensor *r = ts_ImageFilter_run(f, &in); bad = r == nullptr; Tensor t; if (r) { t = **r; } delete r; return t; } };
static Tensor tens(const Im &m, const std::vector<uint8_t> &raw, bool hwc) { return hwc ? mk<uint8_t>({m.h, m.w, m.c}, raw) : mk<uint8_t>({m.n, m.h, m.w, m.c}, raw); }
SX_ENTRY h_one() { Fx x; bool fl = sx_choose(2, "float"); int k = (int) sx_choose(STEPS, "step");  int n = sx_pick(1, 2, "n"), h = sx_pick(1, 2, "h"), w = sx_pick(1, 3, "w"), c = sx_choose(2, "c") ? 3 : 1; std::vector<uint8_t> raw; Im m = image(n, h, w, c, raw); Tensor t = tens(m, raw, n == 1 && sx_choose(2, "hwc")); if (fl) step(x.f, m, 0); bool ok = step(x.f, m, k), bad; Tensor y = x.run(t, bad); SX_ASSERT(bad == !ok, "a filter works exactly when its steps fit the image"); if (bad) { sx_reach("refused"); return; } want(y, m); sx_reach("end"); }
static void two(int part) { Fx x; int h = sx_pick(1, 2, "h"), w = sx_pick(1, 2, "w"), c = sx_choose(2, "c") ? 3 : 1; std::vector<uint8_t> raw; Im m = image(1, h, w, c, raw); Tensor t = tens(m, raw, false); step(x.f, m, 0); int a = 1 + 3 * part + (int) sx_choose(3, "first"), k = 1 + (int) sx_choose(13, "second"); bool ok = step(x.f, m, a); if (!ok) { bool bad; x.run(t, bad); SX_ASSERT(bad, "refused"); sx_reach("refused"); return; } ok = step(x.f, m, k); bool bad; Tensor y = x.run(t, bad); SX_ASSERT(bad == !ok, "a filter works exactly when its steps fit the image"); if (bad) return; want(y, m); sx_reach("end"); }
SX_ENTRY h_two0() { two(0); } SX_ENTRY h_two1() { two(1); } SX_ENTRY h_two2() { two(2); } SX_ENTRY h_two3() { two(3); }
SX_ENTRY h_grow() {   // a filter can be run, compiled, extended and cleared in any order
    Fx x; std::vector<uint8_t> raw; Im m = image(1, 1, 2, 3, raw), m0 = m; Tensor t = tens(m, raw, false); int steps[4] = {0, 1, 7, 13}; int i = 0; bool empty = true; for (int s = 0; s < SXT(4, 5); ++s) switch (sx_choose(4, "do")) { case 0: { bool bad; Tensor y = x.run(t, bad); SX_ASSERT(!bad, "runs"); if (empty) { SX_ASSERT(ints(y.sizes()) == ints(t.sizes()), "an empty filter leaves the image as it is"); } want(y, m); break; } case 1: SX_ASSERT(ts_ImageFilter_compile(x.f), "compiles"); break; case 2: SX_ASSERT(ts_ImageFilter_clear(x.f), "cleared"); m = m0; i = 0; empty = true; break; case 3: if (i < 4) { int32_t bgr[3] = {2, 1, 0}; if (steps[i] == 7) { SX_ASSERT(ts_ImageFilter_channel_swap(x.f, bgr, 3), "step"); Im o = m; for (int q = 0; q < 2; ++q) for (int k = 0; k < 3; ++k) o.at(0, 0, q, k) = m.at(0, 0, q, 2 - k); m = o; } else step(x.f, m, steps[i]); ++i; empty = false; } break; }
    bool bad; Tensor y = x.run(t, bad); SX_ASSERT(!bad, "runs"); want(y, m); sx_reach("end"); }
static bool add(ts_ImageFilter *f, Im &m, int i) { if (i == 2) { int32_t bgr[3] = {2, 1, 0}; SX_ASSERT(ts_ImageFilter_channel_swap(f, bgr, 3), "step"); m = map(m, m.h, m.w, 3, [&](int b, int y, int x, int k) { return m.at(b, y, x, 2 - k); }); return true; } return step(f, m, i == 0 ? 0 : i == 1 ? 1 : 13); }
SX_ENTRY h_clone() {   // a clone does what the original does; from then on they are independent
    Fx x; std::vector<uint8_t> raw; Im m = image(1, 1, 2, 3, raw); Tensor t = tens(m, raw, false); int n = sx_pick(0, 3, "steps"), done = sx_pick(0, 2, "compiled"), late = 0; bool bad; for (int i = 0; i < n; ++i) { if (done == 1 && i == n - 1) { SX_ASSERT(ts_ImageFilter_compile(x.f), "compiles"); late = 1; } add(x.f, m, i); } if (done == 2) SX_ASSERT(ts_ImageFilter_compile(x.f), "compiles"); (void) late;
    Fx y; ts_free_ImageFilter(y.f); auto c = (*x.f)->clone(); y.f = new ts_ImageFilter(c); Im mx = m, my = m; if (sx_choose(2, "extend")) { bool who = sx_choose(2, "which"); add(who ? x.f : y.f, who ? mx : my, n < 3 ? n : 3); } if (sx_choose(2, "drop the first")) { ts_free_ImageFilter(x.f); x.f = ts_new_ImageFilter(nullptr); mx = Im(); }
    Tensor b = y.run(t, bad); SX_ASSERT(!bad, "the clone runs"); want(b, my); if (mx.v.size()) { Tensor a = x.run(t, bad); SX_ASSERT(!bad, "the original runs"); want(a, mx); } sx_reach("end"); }
static Module::shared second(bool typed) { Graph g; ctx::bind<Graph> b(g); Node p = typed ? bubble::param("p", FLOAT32) : bubble::param("p"), q = bubble::param("q"); auto m = Module::Load(g, std::vector<Node>({p, q})); m->sort_inputs({"p", "q"}); return m; }
SX_ENTRY h_bind() {   // bound to an input of a bench, the filter is applied to whatever is put in there
    Fx x; std::vector<uint8_t> raw, raw2; int n = sx_pick(0, 3, "steps"); Im m = image(1, 1, 2, 3, raw), m2 = image(1, 1, 2, 3, raw2), w = m; for (int i = 0; i < n; ++i) add(x.f, w, i); bool typed = sx_choose(2, "typed"); x.b.setup(x.b.compile(second(typed))); ImageFilter::shared f = x.f->pointer; bool name = sx_choose(2, "by name"), unbind = n && sx_choose(2, "rebind"); int slot = sx_pick(-1, 2, "slot");
    bool t = throws([&]() { if (name) x.b.bind_filter(slot == 0 ? "p" : slot == 1 ? "q" : "zz", f); else x.b.bind_filter(slot, f); }); SX_ASSERT(t == (slot < 0 || slot > 1), "filters are bound to inputs"); if (t) { sx_reach("bad"); return; } if (unbind) { ts_ImageFilter_clear(x.f); x.b.bind_filter(slot, f); n = 0; w = m; }
    int dims = n ? 3 + (int) sx_choose(2, "dims") : 4; for (int r = 0; r < 2; ++r) { x.b.input(slot, tens(m, raw, dims == 3)); x.b.input(1 - slot, tens(m2, raw2, false)); x.b.run(); Im e[2] = {slot ? m2 : w, slot ? w : m2}; if (typed) e[0].f = true; want(x.b.output(0), e[0]); want(x.b.output(1), e[1]); } sx_reach("end"); }
SX_ENTRY h_module() {   // the module of a filter computes what the filter does
    Fx x; std::vector<uint8_t> raw; int n = sx_pick(0, 3, "steps"); Im m = image(1, 1, 2, 3, raw); Tensor t = tens(m, raw, false); for (int i = 0; i < n; ++i) add(x.f, m, i); auto mod = (*x.f)->module(); SX_ASSERT(mod->inputs().size() == 1 && mod->outputs().size() == 1, "one image in, one out"); x.b.setup(x.b.compile(mod)); x.b.input(0, t); x.b.run(); want(x.b.output(0), m); bool bad; want(x.run(t, bad), m); sx_reach("end"); }
SX_ENTRY h_norm() {   // every image of a batch is normed on its own: (x - mean) / deviation
    Fx x; bool pre = sx_choose(2, "prewhiten"); int n = sx_pick(1, 2, "n"), h = sx_pick(1, 2, "h"), w = sx_pick(1, 2, "w"), c = sx_choose(2, "c") ? 3 : 1; std::vector<uint8_t> raw; Im m = image(n, h, w, c, raw); int k = h * w * c; if (sx_choose(2, "flat")) { for (auto &r : raw) r = raw[0]; for (auto &r : m.v) r = m.v[0]; } float eps = 0.5f; step(x.f, m, 0); SX_ASSERT(pre ? ts_ImageFilter_prewhiten(x.f) : ts_ImageFilter_norm_image(x.f, eps), "step"); bool bad; Tensor y = x.run(tens(m, raw, n == 1), bad); SX_ASSERT(!bad, "runs");
    for (int b = 0; b < n; ++b) { double mean = 0, dev = 0; for (int i = 0; i < k; ++i) mean += m.v[b * k + i]; mean /= k; for (int i = 0; i < k; ++i) dev += (m.v[b * k + i] - mean) * (m.v[b * k + i] - mean); dev = std::sqrt(dev / k); dev = pre ? std::max(dev, 1 / std::sqrt((double) k)) : dev + eps; for (int i = 0; i < k; ++i) m.v[b * k + i] = (m.v[b * k + i] - (float) mean) * (float) (1 / dev); } want(y, m); sx_reach("end"); }
SX_ENTRY h_null() { Fx x; std::vector<uint8_t> raw; Im m = image(1, 1, 1, 1, raw); Tensor t = tens(m, raw, false); ts_Tensor in(t); SX_ASSERT(ts_ImageFilter_run(nullptr, &in) == nullptr && ts_ImageFilter_run(x.f, nullptr) == nullptr && !ts_ImageFilter_sub_mean(x.f, nullptr, 1) && !ts_ImageFilter_div_std(x.f, nullptr, 1) && !ts_ImageFilter_channel_swap(x.f, nullptr, 1), "null arguments are refused"); bool bad; want(x.run(t, bad), m); sx_reach("end"); }
