//@ sources: @op src/module/bubble.cpp src/backend/tf/conv2d_padding.cpp src/backend/tf/pooling2d_padding.cpp src/backend/onnx/pooling2d_auto_pad.cpp src/backend/mxnet/pooling2d_padding.cpp src/backend/dragon/conv2d_padding.cpp src/backend/dragon/pooling2d_auto_pad.cpp src/backend/base/base_pooling2d.cpp src/kernels/cpu/pooling2d.cpp src/kernels/cpu/pooling2d_core.cpp src/kernels/cpu/pooling_algorithm.cpp src/kernels/cpu/pooling2d_v2.cpp src/backend/base/base_pooling2d_v2.cpp src/backend/common_structure.cpp
//@ entry: h_tf_pool reach=end
//@ entry: h_tf_conv reach=end
//@ entry: h_onnx reach=end
//@ entry: h_mx reach=end
//@ entry: h_dragon_pool reach=end
//@ entry: h_dragon_conv reach=end
//@ entry: h_used reach=end
//@ entry: h_bad reach=end
//@ bounds: every input size 1..32 and window 1..8 (symbolic, rows and columns apart), strides 1..4, dilations 1..3, fixed padding 0..1 per side (0..3 thorough), every method and layout; the padding fed to pooling2d_v2 on rows of 1..7 elements
//@ assume: the window fits into the padded input for the methods that do not pad by themselves
//@ outside: windows larger than the padded input; sizes above 2^24 where the float division rounds; which side the odd element goes to in SAME_UPPER and SAME_LOWER of the Dragon convolution
#include "op.h"
enum M { SAMEU, SAMEL, VALID, CEIL, FIXED };
static int cdiv(int a, int b) { return (a + b - 1) / b; }
// where padding starts and ends along one dimension
struct Ax { int x, k, s, d, a, b; int dk() const { return d * (k - 1) + 1; } bool fits() const { return x + a + b >= dk(); } };
static Ax axis(const char *n, int s, int d, bool fixed) { Ax r; r.s = s; r.d = d; r.x = 1 + (sx_u8(n) & SXT(31, 63)); r.k = 1 + (sx_u8("window") & SXT(7, 15)); r.a = fixed ? sx_u8("before") & SXT(1, 3) : 0; r.b = fixed ? sx_u8("after") & SXT(1, 3) : 0; return r; }
static void expect(const Ax &p, M m, int a, int b, bool either = false) { int x = p.x + p.a + p.b, out = m == SAMEU || m == SAMEL ? cdiv(x, p.s) : (x - p.dk()) / p.s + 1, all = (out - 1) * p.s + p.dk() - x, at = 0;
    if (m == FIXED) { SX_ASSERT(a == p.a && b == p.b, "the fixed padding"); return; }
    if (m == SAMEU || m == SAMEL) { if (all > 0) { at = all / 2; if (m == SAMEL && !either) at = all - at; } if (either && all > 0 && a != p.a + at) at = all - at; SX_ASSERT(a == p.a + at, "SAME pads both sides alike, and never starts inside the image"); }
    else SX_ASSERT(a == p.a, "padding starts where the model says"); SX_ASSERT(a + b == all + p.a + p.b, "padding gives the output size of the framework"); SX_ASSERT(b == all - at + p.b, "padding at the end"); }
struct V { int s, e; Ax h, w; bool nhwc; V(bool dil, bool fixed, bool lay) : s(sx_pick(1, SXT(3, 4), "stride")), e(dil ? sx_pick(1, SXT(2, 3), "dilation") : 0), h(axis("height", s, dil ? e : 1, fixed)), w(axis("width", s % 3 + 1, dil ? e % 2 + 1 : 1, fixed)), nhwc(lay && sx_choose(2, "NHWC")) {}
    Tensor proto(int n, int c, int y, int x) const { Shape s = nhwc ? Shape{n, y, x, c} : Shape{n, c, y, x}; return Tensor(Memory(MemoryDevice(CPU), 4), Tensor::Prototype(FLOAT32, s)); }
    Tensor img() const { return proto(2, 3, h.x, w.x); } Tensor kern() const { return proto(5, 3, h.k, w.k); }
    Tensor four(int y, int x) const { return nhwc ? iv({1, y, x, 1}) : iv({1, 1, y, x}); } Tensor ks() const { return four(h.k, w.k); } Tensor st() const { return four(h.s, w.s); } Tensor di() const { return four(h.d, w.d); }
    Tensor pad() const { return nhwc ? mk<int32_t>({4, 2}, {0, 0, h.a, h.b, w.a, w.b, 0, 0}) : mk<int32_t>({4, 2}, {0, 0, 0, 0, h.a, h.b, w.a, w.b}); } Tensor fmt() const { return tensor::from(nhwc ? "NHWC" : "NCHW"); }
    bool fits() const { return h.fits() && w.fits(); }
    void check(const Tensor &t, M m, bool either = false) const { want_shape(t, {4, 2}, "padding shape"); SX_ASSERT(t.dtype() == INT32, "padding type"); const int32_t *q = t.data<int32_t>(); int o = nhwc ? 2 : 4; for (int i = 0; i < 8; ++i) if (i < o || i >= o + 4) SX_ASSERT(q[i] == 0, "batch and channels are not padded"); expect(h, m, q[o], q[o + 1], either); expect(w, m, q[o + 2], q[o + 3], either); } };
SX_ENTRY h_tf_pool() { Dev d; bool fix = sx_choose(2, "fixed"), same = sx_choose(2, "same"); V v(false, fix, true); if (!same) sx_assume(v.fits()); OpT op("_tf_pooling2d_padding"); op.set("format", v.fmt()).set("padding_method", tensor::from(same ? "SAME" : "VALID")); if (fix) op.set("padding", v.pad()); v.check(op.run1({v.img(), v.ks(), v.st()}), same ? SAMEU : VALID); sx_reach("end"); }
SX_ENTRY h_tf_conv() { Dev d; bool fix = sx_choose(2, "fixed"), same = sx_choose(2, "same"), dil = sx_choose(2, "dilation"); V v(dil, fix, true); if (!same) sx_assume(v.fits()); OpT op("_tf_conv2d_padding"); op.set("format", v.fmt()).set("padding_method", tensor::from(same ? "SAME" : "VALID")).set("stride", v.st()); if (dil) op.set("dilation", v.di()); if (fix) op.set("padding", v.pad()); v.check(op.run1({v.img(), v.kern()}), same ? SAMEU : VALID); sx_reach("end"); }
SX_ENTRY h_onnx() { Dev d; bool fix = sx_choose(2, "fixed"); int m = sx_pick(0, 4, "method"); const char *names[] = {"SAME_UPPER", "SAME_LOWER", "VALID", "NOTSET"}; V v(false, fix, false); if (m > 1) sx_assume(v.fits()); OpT op("_onnx_pooling2d_padding"); if (m < 4) op.set("auto_pad", tensor::from(names[m])); if (fix) op.set("padding", v.pad()); v.check(op.run1({v.img(), v.ks(), v.st()}), m < 2 ? (M) m : VALID); sx_reach("end"); }
SX_ENTRY h_mx() { Dev d; bool valid = sx_choose(2, "valid"); V v(false, true, true); if (valid) sx_assume(v.fits()); OpT op("_mx_pooling2d_padding"); op.set("format", v.fmt()).set("valid", i1(valid)).set("padding", v.pad()); v.check(op.run1({v.img(), v.ks(), v.st()}), valid ? VALID : FIXED); sx_reach("end"); }
SX_ENTRY h_dragon_conv() { Dev d; bool fix = sx_choose(2, "fixed"), dil = sx_choose(2, "dilation"); int m = sx_pick(0, 5, "method"); const char *names[] = {"SAME_UPPER", "SAME_LOWER", "SAME", "VALID", "NOTSET"}; V v(dil, fix && m > 2, true); if (m > 2) sx_assume(v.fits()); OpT op("_dragon_conv2d_padding"); op.set("format", v.fmt()).set("stride", v.st()); if (m < 5) op.set("padding_method", tensor::from(names[m])); if (dil) op.set("dilation", v.di()); if (fix) op.set("padding", v.pad()); v.check(op.run1({v.img(), v.kern()}), m > 2 ? FIXED : m ? SAMEL : SAMEU, true); sx_reach("end"); }
SX_ENTRY h_dragon_pool() { Dev d; bool fix = sx_choose(2, "fixed"); int m = sx_pick(0, 5, "method"); const char *names[] = {"SAME_UPPER", "SAME_LOWER", "SAME", "VALID", "NOTSET"}; int ce = sx_pick(0, 2, "ceil"); V v(false, fix && m > 2, false); if (m > 2) sx_assume(v.fits()); OpT op("_dragon_pooling2d_padding"); if (m < 5) op.set("auto_pad", tensor::from(names[m])); if (ce) op.set("ceil", tensor::from<bool>(ce == 1)); if (fix) op.set("padding", v.pad());
    Tensor t = op.run1({v.img(), v.ks(), v.st()}); if (m < 3) v.check(t, m ? SAMEL : SAMEU); else if (ce == 2) { v.check(t, VALID); } else { const int32_t *q = t.data<int32_t>(); for (int i = 0; i < 2; ++i) { const Ax &p = i ? v.w : v.h; int x = p.x + p.a + p.b, out = cdiv(x - p.k, p.s) + 1; if ((out - 1) * p.s >= x) --out; SX_ASSERT(q[4 + i * 2] == p.a && q[5 + i * 2] == p.b + (out - 1) * p.s + p.k - x, "ceil keeps the last window that starts inside"); } } sx_reach("end"); }
// the padding makes pooling take the windows the framework takes
SX_ENTRY h_used() { Dev d; int n = sx_pick(1, SXT(6, 9), "size"), k = sx_pick(1, SXT(3, 4), "window"), s = sx_pick(1, SXT(3, 4), "stride"), m = sx_pick(0, 5, "method"), a = m == 2 || m == 3 ? sx_pick(0, 1, "before") : 0; bool rows = sx_choose(2, "rows"); int b = a; const char *ops[] = {"_tf_pooling2d_padding", "_tf_pooling2d_padding", "_onnx_pooling2d_padding", "_mx_pooling2d_padding", "_onnx_pooling2d_padding", "_onnx_pooling2d_padding"}; M mm = m == 0 || m == 4 ? SAMEU : m == 5 ? SAMEL : VALID; sx_assume(n + a + b >= k || mm != VALID); sx_assume(a < k);
    OpT op(ops[m]); Tensor pad = rows ? mk<int32_t>({4, 2}, {0, 0, 0, 0, a, b, 0, 0}) : mk<int32_t>({4, 2}, {0, 0, 0, 0, 0, 0, a, b}); if (m < 2) op.set("format", tensor::from("NCHW")).set("padding_method", tensor::from(m ? "VALID" : "SAME")); else if (m == 3) op.set("format", tensor::from("NCHW")).set("valid", i1(1)).set("padding", pad); else { op.set("padding", pad); if (m > 3) op.set("auto_pad", tensor::from(m == 4 ? "SAME_UPPER" : "SAME_LOWER")); }
    auto v = symv<float>(n, "x"); Ints xs = {1, 1, rows ? n : 1, rows ? 1 : n}; Tensor x = mk(xs, v), ks = rows ? iv({1, 1, k, 1}) : iv({1, 1, 1, k}), st = rows ? iv({1, 1, s, 1}) : iv({1, 1, 1, s}), p = op.run1({x, ks, st}); OpT po("pooling2d_v2"); po.set("format", tensor::from("NCHW")).set("type", i1(1)).set("padding_type", i1(0)); Tensor y = po.run1({x, p, ks, st});
    int X = n + a + b, out = mm == VALID ? (X - k) / s + 1 : cdiv(X, s), all = std::max((out - 1) * s + k - X, 0), from = mm == VALID ? a : mm == SAMEU ? all / 2 : all - all / 2; std::vector<float> w; for (int i = 0; i < out; ++i) { float t = 0; int c = 0; for (int j = 0; j < k; ++j) { int q = i * s - from + j; if (q >= 0 && q < n) t += v[q], ++c; } w.push_back(c ? t / c : 0); }
    want(y, {1, 1, rows ? out : 1, rows ? 1 : out}, w, "pooled windows"); sx_reach("end"); }
SX_ENTRY h_bad() { Dev d; int o = sx_pick(0, 5, "operator"); bool conv = o == 0 || o == 4, nhwc = sx_choose(2, "NHWC"), dr = o > 3; const char *ops[] = {"_tf_conv2d_padding", "_tf_pooling2d_padding", "_onnx_pooling2d_padding", "_mx_pooling2d_padding", "_dragon_conv2d_padding", "_dragon_pooling2d_padding"}; if (o == 2 || o == 5) sx_assume(!nhwc); int w = sx_pick(0, 10, "what"); sx_assume(conv ? w < 8 || w == 10 : w != 4 && w != 5); sx_assume(o == 0 || o == 4 || o == 1 || w != 0);
    int cd = nhwc ? 3 : 1; Ints pad(8, 0), st(4, 1), di(4, 1); if (w == 0) pad[2 * (sx_choose(2, "batch") ? 0 : cd) + (int) sx_choose(2, "side")] = 1; if (w == 4) st[sx_choose(2, "batch") ? 0 : cd] = 2; if (w == 5) di[sx_choose(2, "batch") ? 0 : cd] = 2;
    if (w == 10) st[1 + sx_choose(2, "column") + !nhwc] = 0; OpT op(ops[o]); if (o != 2 && o != 5) op.set("format", tensor::from(w == 1 ? "CHWN" : nhwc ? "NHWC" : "NCHW")); else sx_assume(w != 1); const char *me = o == 2 || o == 5 ? "auto_pad" : "padding_method"; if (o == 3) { sx_assume(w != 2); op.set("valid", i1(1)); } else op.set(me, tensor::from(w == 2 ? "same" : "VALID")); op.set("padding", w == 3 ? iv(Ints(8, 0)) : mk<int32_t>({4, 2}, pad)); if (conv) op.set("stride", iv(st)).set("dilation", iv(di));
    Ints xs = {1, 3, 3, 3}, ws = {2, 3, 3, 3}; if (w == 6) xs[nhwc ? 3 : 1] = conv ? 4 : 3; sx_assume(conv || w != 6); std::vector<Tensor> in = {symt<float>(xs, "x")}; if (conv) in.push_back(symt<float>(ws, "w")); else { in.push_back(iv({1, 1, 1, 1})); in.push_back(iv({1, 1, 1, 1})); } if (w == 7) in.pop_back(); int z = 1 - (int) sx_choose(2, "negative"); if (w == 8) in[0] = symt<float>({3, 3, 3}, "x"); if (w == 9) in[1 + sx_choose(2, "which")] = iv({1, 1, 1}); if (w == 10 && !conv) in[2] = iv({1, 1, z - 1, 1});
    SX_ASSERT(throws([&]() { op.run1(in, false); }), "what the padding cannot mean is refused"); sx_reach("end"); }
