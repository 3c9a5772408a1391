//@ sources: @op src/module/bubble.cpp src/backend/base/base_pooling2d.cpp src/backend/base/base_global_pooling2d.cpp src/kernels/cpu/pooling2d.cpp src/kernels/cpu/pooling2d_core.cpp src/kernels/cpu/pooling_algorithm.cpp src/kernels/cpu/pooling2d_v2.cpp src/kernels/cpu/global_pooling2d.cpp
//@ entry: h_avg reach=end
//@ entry: h_max reach=end
//@ entry: h_k2 reach=end
//@ entry: h_k3 reach=end
//@ entry: h_k3tall reach=end
//@ entry: h_k3wide reach=end
//@ entry: h_double reach=end
//@ entry: h_global reach=end
//@ entry: h_v2 reach=end
//@ entry: h_precise reach=end
//@ entry: h_bad reach=end
//@ bounds: one spatial dimension of size 1..5 (avg) or 1..4 (max), window 1..4, stride 1..3, padding -1..2 on each side, all combinations; 2x2 and 3x3 windows with stride 2 on sizes 1..5 x 1..4 with every padding 0..1 per side, and widths up to 12 around the vector blocks; 1-2 batches and channels; both padding kinds; float and double; global pooling of sizes 1..4; pooling2d_v2 with different padding, window and stride on every run
//@ assume: element values arbitrary reals; the window fits in the padded input; the value of a maximum over no element is not specified
//@ outside: float rounding; larger sizes; NHWC (not offered on CPU)
#include "op.h"
struct P { int n, c, h, w, kh, kw, sh, sw, pt, pb, pl, pr, type, pad;
    static int len(int x, int k, int s) { return (x - k + s - 1) / s + 1; }
    int oh() const { return len(h + pt + pb, kh, sh); } int ow() const { return len(w + pl + pr, kw, sw); }
    bool fits() const { return h + pt + pb >= kh && w + pl + pr >= kw; }
    Tensor padding() const { return mk<int32_t>({4, 2}, {0, 0, 0, 0, pt, pb, pl, pr}); } Tensor ksize() const { return iv({1, 1, kh, kw}); } Tensor stride() const { return iv({1, 1, sh, sw}); } };
// type 0 is max, 1 average; pad 0 (black) divides by the number of elements in the window, 1 (white) by the window area
template <typename T> void expect(const P &p, const std::vector<T> &v, const Tensor &y) { Ints xs = {p.n, p.c, p.h, p.w}, os = {p.n, p.c, p.oh(), p.ow()}; want_shape(y, os, "output shape"); SX_ASSERT(y.dtype() == dt<T>::v, "output type"); const T *q = y.data<T>();
    for (Ix i(os); !i.done; i.next()) { int cnt = 0; T s = 0, m = 0; for (int a = 0; a < p.kh; ++a) for (int b = 0; b < p.kw; ++b) { int r = i.i[2] * p.sh - p.pt + a, c = i.i[3] * p.sw - p.pl + b; if (r < 0 || r >= p.h || c < 0 || c >= p.w) continue; T e = v[at(xs, {i.i[0], i.i[1], r, c})]; m = cnt ? std::max(m, e) : e; s = s + e; ++cnt; }
        if (p.type == 0 && !cnt) continue; dt<T>::eq(q[at(os, i.i)], p.type == 0 ? m : p.pad ? s / (p.kh * p.kw) : cnt ? s / cnt : T(0), "window maximum or average"); } }
template <typename T> void pool(const P &p, bool def = false) { sx_assume(p.fits()); auto v = symv<T>(p.n * p.c * p.h * p.w, "x"); Tensor x = mk({p.n, p.c, p.h, p.w}, v); OpT op("pooling2d"); op.set("format", tensor::from("NCHW")).set("type", i1(p.type)).set("padding", p.padding()).set("ksize", p.ksize()).set("stride", p.stride()); if (!def) op.set("padding_type", i1(p.pad)); Tensor y = op.run1({x}); expect<T>(p, v, y); want(x, {p.n, p.c, p.h, p.w}, v, "input left alone"); }
static P line(int maxh, int type) { int h = sx_pick(1, maxh, "size"), k = sx_pick(1, SXT(3, 4), "ksize"), s = sx_pick(1, 3, "stride"), a = sx_pick(-1, SXT(1, 2), "pad"), b = sx_pick(-1, 2, "pad"); P p = {1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, type, sx_pick(0, 1, "white") * 3}; if (sx_choose(2, "rows")) { p.h = h; p.kh = k; p.sh = s; p.pt = a; p.pb = b; } else { p.w = h; p.kw = k; p.sw = s; p.pl = a; p.pr = b; } return p; }
SX_ENTRY h_avg() { Dev d; pool<float>(line(SXT(4, 5), 1)); sx_reach("end"); }
SX_ENTRY h_max() { Dev d; pool<float>(line(4, 0)); sx_reach("end"); }
static void fast(int k, int h0, int h1, int w0, int w1, int n, bool allpad) { int b = (int) sx_choose(allpad ? 16 : 4, "pads"); P p = {n, n, sx_pick(h0, h1, "h"), sx_pick(w0, w1, "w"), k, k, 2, 2, b & 1, allpad ? b >> 2 & 1 : b & 1, b >> 1 & 1, allpad ? b >> 3 & 1 : b >> 1 & 1, 0, 0}; pool<float>(p, true); }
SX_ENTRY h_k2() { Dev d; if (sx_choose(2, "wide")) fast(2, 2, 2, 8, SXT(10, 14), 1, false); else { int n = sx_pick(1, SXT(1, 2), "n"); fast(2, 1, n == 2 ? 2 : SXT(3, 5), 1, n == 2 ? 2 : SXT(4, 5), n, true); } sx_reach("end"); }
SX_ENTRY h_k3() { Dev d; fast(3, 1, SXT(3, 3), 1, SXT(4, 4), 1, true); sx_reach("end"); }
SX_ENTRY h_k3tall() { Dev d; if (sx_choose(2, "batch")) fast(3, 3, 3, 2, 3, 2, false); else fast(3, 4, SXT(4, 6), 1, SXT(3, 3), 1, SXT(false, true)); sx_reach("end"); }
SX_ENTRY h_k3wide() { Dev d; fast(3, 3, 3, SXT(8, 5), SXT(11, 14), 1, SXT(false, true)); sx_reach("end"); }
SX_ENTRY h_double() { Dev d; P p = {1, sx_pick(1, 2, "c"), sx_pick(2, 4, "h"), sx_pick(2, 3, "w"), 2, 2, 2, 2, 0, 0, 0, 0, sx_pick(0, 1, "type"), sx_pick(0, 1, "white") * 3}; p.kh = p.kw = sx_pick(2, 3, "k"); if (p.kh == 3) { p.pt = p.pl = 1; p.pb = p.pr = sx_pick(0, 1, "pad"); } pool<double>(p); sx_reach("end"); }
SX_ENTRY h_global() { Dev d; P p = {sx_pick(1, 2, "n"), sx_pick(1, 2, "c"), sx_pick(1, 3, "h"), sx_pick(1, 4, "w"), 0, 0, 1, 1, 0, 0, 0, 0, sx_pick(0, 1, "type"), 0}; p.kh = p.h; p.kw = p.w; sx_assume(p.type || p.h * p.w <= 9); auto v = symv<float>(p.n * p.c * p.h * p.w, "x"); Tensor x = mk({p.n, p.c, p.h, p.w}, v); OpT op("global_pooling2d"); op.set("format", tensor::from("NCHW")).set("type", i1(p.type)); expect<float>(p, v, op.run1({x})); want(x, {p.n, p.c, p.h, p.w}, v, "input left alone"); sx_reach("end"); }
// pooling2d_v2 reads padding, window and stride from inputs: one operator object, several runs
SX_ENTRY h_v2() { Dev d; OpT op("pooling2d_v2"); P p = {1, 1, 3, 2, 1, 1, 1, 1, 0, 0, 0, 0, 1, sx_pick(0, 1, "white") * 3}; op.set("format", tensor::from("NCHW")).set("type", i1(1)).set("padding_type", i1(p.pad)); op.op->init(); for (int i = 0; i < 3; ++i) { int k = sx_pick(0, SXT(5, 6), "change"); if (k == 1) p.pt = 1 - p.pt; if (k == 2) p.kh = 3 - p.kh; if (k == 3) p.sh = 3 - p.sh; auto v = symv<float>(6, "x"); MemoryDevice md(CPU); Stack st(md); Tensor pd = p.padding(), ks = p.ksize(), ss = p.stride(); bool bad = k >= 4; if (k == 4) pd.data<int32_t>()[2] = 1; if (k == 5) ks.data<int32_t>()[1] = 2; if (k == 6) ss.data<int32_t>()[1] = 2; std::vector<Tensor> in = {mk({1, 1, 3, 2}, v), pd, ks, ss};
        if (i == 0 && sx_choose(2, "infer")) { std::vector<Tensor::Prototype> pr; for (auto &t : in) st.push(t); bool t = throws([&]() { InferOperator(op.op, st, 4, pr); }); SX_ASSERT(t == bad, "pooling over channels is rejected"); if (!t) SX_ASSERT(pr.size() == 1 && pr[0].sizes() == Shape({1, 1, p.oh(), p.ow()}), "inferred shape"); st.clear(); } for (auto &t : in) st.push(t);
        bool t = throws([&]() { RunOperator(op.op, st, 4); }); SX_ASSERT(t == bad, "pooling over channels is rejected, however often"); if (t) continue; SX_ASSERT(st.size() == 1, "one result"); expect<float>(p, v, Tensor(st[0])); } sx_reach("end"); }
// the double kernel keeps double precision
SX_ENTRY h_precise() { Dev d; int k = sx_pick(1, 3, "k"), ty = sx_pick(0, 1, "type"); P p = {1, 2, 4, 4, k, k, 2, 2, 0, k == 3, 0, k == 3, ty, 0}; std::vector<double> v, w; for (int i = 0; i < 32; ++i) v.push_back((i * 7 % 5) + (i * 11 % 32) * 1e-11); OpT op("pooling2d"); op.set("format", tensor::from("NCHW")).set("type", i1(ty)).set("padding", p.padding()).set("ksize", p.ksize()).set("stride", p.stride()); Ints xs = {1, 2, 4, 4}, os = {1, 2, p.oh(), p.ow()};
    for (Ix i(os); !i.done; i.next()) { double m = 0, t = 0; int c = 0; for (int a = 0; a < k; ++a) for (int b = 0; b < k; ++b) { int r = i.i[2] * 2 + a, q = i.i[3] * 2 + b; if (r >= 4 || q >= 4) continue; double e = v[at(xs, {0, i.i[1], r, q})]; m = c && m > e ? m : e; t += e; ++c; } w.push_back(ty && c ? t / c : m); } want12(op.run1({mk(xs, v)}), os, w, "pooling in double precision"); sx_reach("end"); }
SX_ENTRY h_bad() { Dev d; int w = sx_pick(0, 7, "what"); P p = {1, 1, 2, 2, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0}; Tensor pad = p.padding(), ks = p.ksize(), st = p.stride(), x = symt<float>({1, 1, 2, 2}, "x"); const char *f = "NCHW"; int ty = 0, pt = 0;
    switch (w) { case 0: pad.data<int32_t>()[sx_pick(0, 3, "i")] = 1; break; case 1: ks.data<int32_t>()[sx_pick(0, 1, "i")] = 2; break; case 2: st.data<int32_t>()[sx_pick(0, 1, "i")] = 2; break; case 3: x = symt<float>({1, 2, 2}, "x"); break; case 4: f = sx_choose(2, "f") ? "NHWC" : "nchw"; break; case 5: ty = sx_i32("type"); sx_assume(ty != 0 && ty != 1); break; case 6: pt = sx_i32("padding type"); sx_assume(pt != 0 && pt != 3); break; default: x = symt<int32_t>({1, 1, 2, 2}, "x"); }
    OpT op("pooling2d"); op.set("format", tensor::from(f)).set("type", i1(ty)).set("padding", pad).set("ksize", ks).set("stride", st).set("padding_type", i1(pt)); SX_ASSERT(throws([&]() { op.run1({x}, false); }), "configurations the pooling does not support are rejected"); sx_reach("end"); }
