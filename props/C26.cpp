//@ sources: @op src/backend/base/base_conv2d.cpp src/kernels/cpu/conv2d.cpp src/kernels/cpu/conv2d_core.cpp src/kernels/cpu/conv2d_v2.cpp src/kernels/cpu/im2col.cpp src/kernels/cpu/math_cpu.cpp src/module/bubble.cpp
//@ entry: h_rows reach=end
//@ entry: h_cols reach=end
//@ entry: h_plane reach=end
//@ entry: h_block reach=end
//@ entry: h_double reach=end
//@ entry: h_v2 reach=end
//@ entry: h_precise reach=end
//@ entry: h_bad reach=end
//@ bounds: one spatial dimension of size 1..4, kernel 1..3, stride 1..3, dilation 1..2, padding -1..2 on each side, all combinations; both dimensions with small sizes; 1-2 batches; channel counts and output sizes around the 8x8x4 blocking (1..17 outputs, 1..17 positions, 1..9 products); padding value arbitrary; float and double; conv2d_v2 with a different padding on every run
//@ assume: element values, weights and padding value arbitrary reals; the kernel fits in the padded input
//@ outside: float rounding; larger sizes; weights packed ahead of time (C07); NHWC (not offered on CPU)
#include "conv.h"
static Geo one_(bool rows) { int h, k, s, d, a, b; one(h, k, s, d, a, b, SXT(4, 5), 3, SXT(2, 3), 2, SXT(1, 2), -1); Geo g = {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0}; if (rows) { g.h = h; g.kh = k; g.sh = s; g.dh = d; g.pt = a; g.pb = b; } else { g.w = h; g.kw = k; g.sw = s; g.dw = d; g.pl = a; g.pr = b; } return g; }
SX_ENTRY h_rows() { Dev d; Geo g = one_(true); conv<float>("conv2d", g, true, sx_f32("padding_value"), true); sx_reach("end"); }
SX_ENTRY h_cols() { Dev d; Geo g = one_(false); conv<float>("conv2d", g, true, sx_f32("padding_value"), true); sx_reach("end"); }
SX_ENTRY h_plane() { Dev d; int k = sx_pick(0, 3, "case"); Geo g = {sx_pick(1, 2, "n"), sx_pick(1, 2, "c"), 3, 2, sx_pick(1, 2, "o"), 2, 1, 1, 1, 1, 1, 0, 0, 0, 0}; if (k == 1) { g.h = 2; g.w = 3; g.kw = 3; g.pl = 1; g.pr = 2; g.pt = 1; } if (k == 2) { g.h = 4; g.w = 3; g.kw = 2; g.sh = 2; g.sw = 1; g.dh = 2; g.pb = 1; g.pl = 2; } if (k == 3) { g.kh = 1; g.h = 2; g.w = 2; g.sh = sx_pick(1, 2, "s"); g.sw = sx_pick(1, 2, "s"); } bool pv = sx_choose(2, "padding value"); conv<float>("conv2d", g, true, pv ? sx_f32("padding_value") : 0, pv, sx_choose(2, "spelling")); sx_reach("end"); }
SX_ENTRY h_block() { Dev d; static const int O[] = {1, 8, 9, 16, 17}, S[] = {1, 7, 8, 9, 16, 17}, C[] = {1, 3, 4, 5, 8, 9}; int o = O[sx_pick(0, 4, "o")], s = S[sx_pick(0, 5, "s")], c = C[sx_pick(0, 5, "c")]; sx_assume(o * s * c <= SXT(650, 100000)); int k = sx_pick(0, 1, "1x1"); Geo g = {1, c, 1, s, o, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0}; if (k) { sx_assume(c == 4 || c == 8 || c == 1); g.c = c == 1 ? 1 : c / 2; g.kw = c == 1 ? 3 : 2; g.pl = 1; g.w = s + g.kw - 2; sx_assume(g.w > 0); } conv<float>("conv2d", g, true); sx_reach("end"); }
SX_ENTRY h_double() { Dev d; static const int O[] = {1, 8, 9}; int o = O[sx_pick(0, 2, "o")], s = O[sx_pick(0, 2, "s")], c = sx_pick(1, 2, "c"); int k = sx_pick(1, 2, "kw"); Geo g = {1, c, 1, s, o, 1, k, 1, 1, 1, 1, 0, 0, 0, k - 1}; conv<double>("conv2d", g, true, 2, true); sx_reach("end"); }
// conv2d_v2 reads its padding from an input: one operator object, several runs
SX_ENTRY h_v2() { Dev d; OpT op("conv2d_v2"); Geo g = {1, 1, 2, 2, 1, 2, 1, 1, 1, 1, 1, 0, 0, 0, 0}; float pv = sx_f32("padding_value"); op.set("format", tensor::from("NCHW")).set("stride", g.stride()).set("dilation", g.dilation()).set("padding_value", f1(pv)); op.op->init(); for (int i = 0; i < SXT(2, 3); ++i) { int k = sx_pick(0, 3, "padding"); g.pt = k == 1; g.pb = k == 2; g.pl = k == 2 ? 2 : 0; auto v = symv<float>(4, "x"), w = symv<float>(2, "w"); MemoryDevice md(CPU); Stack st(md); Tensor p = g.pad(); if (k == 3) p.data<int32_t>()[2] = 1; std::vector<Tensor> in = {mk({1, 1, 2, 2}, v), p, mk({1, 1, 2, 1}, w)}; bool inf = i == 0 && sx_choose(2, "infer"); if (inf) { std::vector<Tensor::Prototype> pr; for (auto &t : in) st.push(t); bool t = throws([&]() { InferOperator(op.op, st, 3, pr); }); SX_ASSERT(t == (k == 3), "padding of channels is rejected"); if (!t) SX_ASSERT(pr.size() == 1 && pr[0].sizes() == Shape({1, 1, g.oh(), g.ow()}), "inferred shape"); st.clear(); } for (auto &t : in) st.push(t);
        bool t = throws([&]() { RunOperator(op.op, st, 3); }); SX_ASSERT(t == (k == 3), "padding of channels is rejected, however often"); if (t) continue; SX_ASSERT(st.size() == 1, "one result"); want(Tensor(st[0]), {1, 1, g.oh(), g.ow()}, conv_ref<float>(g, v, w, pv, true), "the padding of this run is used"); } sx_reach("end"); }
SX_ENTRY h_precise() { Dev d; int k = sx_pick(1, 3, "k"), s = sx_pick(1, 2, "stride"); Geo g = {1, 2, 4, 4, 2, k, k, s, s, 1, 1, k - 1, 0, 0, k - 1}; precise("conv2d", g, true); sx_reach("end"); }
SX_ENTRY h_bad() { Dev d; int w = sx_pick(0, 9, "what"); Geo g = {1, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0}; OpT op("conv2d"); Tensor pad = g.pad(), st = g.stride(), di = g.dilation(), x = symt<float>({1, 2, 2, 2}, "x"), k = symt<float>({1, 2, 1, 1}, "w"); std::vector<Tensor> in; const char *f = "NCHW"; bool nodil = false;
    switch (w) { case 0: pad.data<int32_t>()[sx_pick(0, 3, "i")] = sx_pick(0, 1, "sign") * 2 - 1; break; case 1: st.data<int32_t>()[sx_pick(0, 1, "i")] = 2; break; case 2: di.data<int32_t>()[sx_pick(0, 1, "i")] = 2; break; case 3: k = symt<float>({1, sx_pick(0, 1, "c") * 2 + 1, 1, 1}, "w"); break; case 4: k = symt<double>({1, 2, 1, 1}, "w"); break; case 5: x = symt<float>({2, 2, 2}, "x"); break; case 6: k = symt<float>({2, 1, 1}, "w"); break; case 7: f = sx_choose(2, "f") ? "NHWC" : "nchw"; break; case 8: nodil = true; break; default: break; }
    op.set("format", tensor::from(f)).set("padding", pad).set("stride", st); if (!nodil) op.set("dilation", di); if (w == 9) in = {x}; else in = {x, k}; SX_ASSERT(throws([&]() { op.run1(in, false); }), "configurations the convolution does not support are rejected"); sx_reach("end"); }
