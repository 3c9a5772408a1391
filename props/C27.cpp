//@ sources: @op src/module/bubble.cpp src/backend/base/base_depthwise_conv2d.cpp src/kernels/cpu/depthwise_conv2d.cpp src/kernels/cpu/depthwise_conv2d_core.cpp src/kernels/cpu/depthwise_conv2d_algorithm.cpp src/kernels/cpu/depthwise_conv2d_v2.cpp src/backend/base/base_conv2d.cpp
//@ entry: h_rows reach=end
//@ entry: h_cols reach=end
//@ entry: h_fast1 reach=end
//@ entry: h_fast2 reach=end
//@ entry: h_general reach=end
//@ entry: h_double reach=end
//@ entry: h_v2 reach=end
//@ entry: h_precise reach=end
//@ entry: h_bad reach=end
//@ bounds: one spatial dimension of size 1..5, kernel 1..3, stride 1..2, dilation 1..2, padding -1..2 on each side, all combinations; 3x3 kernels with stride 1 and 2 on widths 1..12 and heights 1..5 with every padding 0..2 per side (subset of the combinations in quick); 1-2 batches, 1-3 channels; padding value arbitrary; float and double; depthwise_conv2d_v2 with a different padding on every run
//@ assume: element values, weights and padding value arbitrary reals; the kernel fits in the padded input
//@ outside: float rounding; larger sizes; NHWC (not offered on CPU); more than one filter per channel
#include "conv.h"
static Geo one_(bool rows) { int h, k, s, d, a, b; one(h, k, s, d, a, b, SXT(4, 5), 3, 2, 2, SXT(1, 2), -1); Geo g = {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0}; if (rows) { g.h = h; g.kh = k; g.sh = s; g.dh = d; g.pt = a; g.pb = b; } else { g.w = h; g.kw = k; g.sw = s; g.dw = d; g.pl = a; g.pr = b; } return g; }
SX_ENTRY h_rows() { Dev d; Geo g = one_(true); conv<float>("depthwise_conv2d", g, false, sx_f32("padding_value"), true); sx_reach("end"); }
SX_ENTRY h_cols() { Dev d; Geo g = one_(false); conv<float>("depthwise_conv2d", g, false, sx_f32("padding_value"), true); sx_reach("end"); }
static void fast(int s) { Geo g = {1, 1, 3, 3, 1, 3, 3, s, s, 1, 1, 0, 0, 0, 0}; int w = sx_pick(0, 2, "which"); 
    if (w == 0) { g.h = sx_pick(1, SXT(4, 5), "h"); g.w = SXT(3, sx_pick(1, 4, "w")); g.pt = sx_pick(-1, 3, "pt"); g.pb = sx_pick(-1, 2, "pb"); g.pl = sx_pick(0, 1, "pl"); }
    else if (w == 1) { g.h = SXT(4, sx_pick(2, 5, "h")); g.w = sx_pick(1, SXT(6, 7), "w"); g.pl = sx_pick(-1, 3, "pl"); g.pr = sx_pick(-1, 2, "pr"); g.pt = sx_pick(0, 1, "pt"); }
    else { g.n = sx_pick(1, 2, "n"); g.c = sx_pick(1, 3, "c"); g.h = s == 1 ? 4 : 3; g.w = s == 1 ? sx_pick(6, SXT(8, 12), "w") : sx_pick(9, SXT(10, 14), "w"); g.pl = sx_pick(0, 1, "pl"); g.pr = sx_pick(0, 1, "pr"); sx_assume(g.n == 1 || g.c < 3); }
    sx_assume(g.fits()); conv<float>("depthwise_conv2d", g, false, sx_f32("padding_value"), true); }
SX_ENTRY h_fast1() { Dev d; fast(1); sx_reach("end"); }
SX_ENTRY h_fast2() { Dev d; fast(2); sx_reach("end"); }
SX_ENTRY h_general() { Dev d; int k = sx_pick(0, 4, "case"); Geo g = {sx_pick(1, 2, "n"), sx_pick(1, 3, "c"), 3, 3, 1, 2, 2, 1, 1, 1, 1, 0, 0, 0, 0}; if (k == 1) { g.kh = g.kw = 3; g.h = g.w = 5; g.dh = g.dw = 2; } if (k == 2) { g.kh = g.kw = 3; g.sh = 1; g.sw = 2; g.pl = 1; } if (k == 3) { g.kh = 3; g.kw = 1; g.sh = 2; g.pt = g.pb = 1; } if (k == 4) { g.kh = g.kw = 1; } bool pv = sx_choose(2, "padding value"); conv<float>("depthwise_conv2d", g, false, pv ? sx_f32("padding_value") : 0, pv, sx_choose(2, "spelling")); sx_reach("end"); }
SX_ENTRY h_double() { Dev d; int s = sx_pick(1, 2, "stride"); Geo g = {1, sx_pick(1, 2, "c"), 3, sx_pick(3, 6, "w"), 1, 3, sx_pick(2, 3, "kw"), s, s, 1, 1, 1, 0, 1, 1}; conv<double>("depthwise_conv2d", g, false, 2, true); sx_reach("end"); }
SX_ENTRY h_v2() { Dev d; OpT op("depthwise_conv2d_v2"); Geo g = {1, 1, 2, 2, 1, 2, 1, 1, 1, 1, 1, 0, 0, 0, 0}; float pv = sx_f32("padding_value"); op.set("format", tensor::from("NCHW")).set("stride", g.stride()).set("dilation", g.dilation()).set("padding_value", f1(pv)); op.op->init(); for (int i = 0; i < SXT(2, 3); ++i) { int k = sx_pick(0, 3, "padding"); g.pt = k == 1; g.pb = k == 2; g.pl = k == 2 ? 2 : 0; auto v = symv<float>(4, "x"), w = symv<float>(2, "w"); MemoryDevice md(CPU); Stack st(md); Tensor p = g.pad(); if (k == 3) p.data<int32_t>()[2] = 1; std::vector<Tensor> in = {mk({1, 1, 2, 2}, v), p, mk({1, 1, 2, 1}, w)}; bool inf = i == 0 && sx_choose(2, "infer"); if (inf) { std::vector<Tensor::Prototype> pr; for (auto &t : in) st.push(t); bool t = throws([&]() { InferOperator(op.op, st, 3, pr); }); SX_ASSERT(t == (k == 3), "padding of channels is rejected"); if (!t) SX_ASSERT(pr.size() == 1 && pr[0].sizes() == Shape({1, 1, g.oh(), g.ow()}), "inferred shape"); st.clear(); } for (auto &t : in) st.push(t);
        bool t = throws([&]() { RunOperator(op.op, st, 3); }); SX_ASSERT(t == (k == 3), "padding of channels is rejected, however often"); if (t) continue; SX_ASSERT(st.size() == 1, "one result"); want(Tensor(st[0]), {1, 1, g.oh(), g.ow()}, conv_ref<float>(g, v, w, pv, false), "the padding of this run is used"); } sx_reach("end"); }
SX_ENTRY h_precise() { Dev d; int k = sx_pick(1, 3, "k"), s = sx_pick(1, 2, "stride"); Geo g = {1, 2, 4, 4, 2, k, k, s, s, 1, 1, k - 1, 0, 0, k - 1}; precise("depthwise_conv2d", g, false); sx_reach("end"); }
SX_ENTRY h_bad() { Dev d; int w = sx_pick(0, 10, "what"); Geo g = {1, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0}; OpT op("depthwise_conv2d"); Tensor pad = g.pad(), st = g.stride(), di = g.dilation(), x = symt<float>({1, 2, 2, 2}, "x"), k = symt<float>({1, 2, 1, 1}, "w"); std::vector<Tensor> in; const char *f = "NCHW"; bool nodil = false;
    switch (w) { case 0: pad.data<int32_t>()[sx_pick(0, 3, "i")] = sx_pick(0, 1, "sign") * 2 - 1; break; case 1: st.data<int32_t>()[sx_pick(0, 1, "i")] = 2; break; case 2: di.data<int32_t>()[sx_pick(0, 1, "i")] = 2; break; case 3: k = symt<float>({1, sx_pick(0, 1, "c") * 2 + 1, 1, 1}, "w"); break; case 4: k = symt<double>({1, 2, 1, 1}, "w"); break; case 5: x = symt<float>({2, 2, 2}, "x"); break; case 6: k = symt<float>({2, 1, 1}, "w"); break; case 7: f = sx_choose(2, "f") ? "NHWC" : "nchw"; break; case 8: nodil = true; break; case 10: k = symt<float>({2, 2, 1, 1}, "w"); break; default: break; }
    op.set("format", tensor::from(f)).set("padding", pad).set("stride", st); if (!nodil) op.set("dilation", di); if (w == 9) in = {x}; else in = {x, k}; SX_ASSERT(throws([&]() { op.run1(in, false); }), "configurations the convolution does not support are rejected"); sx_reach("end"); }
