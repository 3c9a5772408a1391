// Reference convolution shared by the convolution harnesses.
#pragma once
#include "op.h"
struct Geo { int n, c, h, w, o, kh, kw, sh, sw, dh, dw, pt, pb, pl, pr; 
    int oh() const { return (h + pt + pb - (dh * (kh - 1) + 1)) / sh + 1; }
    int ow() const { return (w + pl + pr - (dw * (kw - 1) + 1)) / sw + 1; }
    bool fits() const { return h + pt + pb >= dh * (kh - 1) + 1 && w + pl + pr >= dw * (kw - 1) + 1; }
    Tensor pad() const { return mk<int32_t>({4, 2}, {0, 0, 0, 0, pt, pb, pl, pr}); }
    Tensor stride() const { return iv({1, 1, sh, sw}); }
    Tensor dilation() const { return iv({1, 1, dh, dw}); } };
static inline void one(int &h, int &k, int &s, int &d, int &a, int &b, int maxh, int maxk, int maxs, int maxd, int maxp, int minp) { h = sx_pick(1, maxh, "size"); k = sx_pick(1, maxk, "ksize"); s = sx_pick(1, maxs, "stride"); d = k == 1 ? 1 : sx_pick(1, maxd, "dilation"); a = sx_pick(minp, maxp, "pad"); b = sx_pick(minp, maxp, "pad"); sx_assume(h + a + b >= d * (k - 1) + 1); }
// plain: every output channel sums over all input channels; otherwise (depthwise) over its own
template <typename T> std::vector<T> conv_ref(const Geo &g, const std::vector<T> &x, const std::vector<T> &w, T pv, bool plain) {
    Ints xs = {g.n, g.c, g.h, g.w}, ws = plain ? Ints{g.o, g.c, g.kh, g.kw} : Ints{1, g.c, g.kh, g.kw}, os = {g.n, plain ? g.o : g.c, g.oh(), g.ow()}; std::vector<T> r;
    for (Ix i(os); !i.done; i.next()) { T s = 0; for (int c = plain ? 0 : i.i[1]; c < (plain ? g.c : i.i[1] + 1); ++c) for (int a = 0; a < g.kh; ++a) for (int b = 0; b < g.kw; ++b) { int y = i.i[2] * g.sh - g.pt + a * g.dh, z = i.i[3] * g.sw - g.pl + b * g.dw; bool in = y >= 0 && y < g.h && z >= 0 && z < g.w; s += (in ? x[at(xs, {i.i[0], c, y, z})] : pv) * w[at(ws, {plain ? i.i[1] : 0, c, a, b})]; } r.push_back(s); } return r; }
template <typename T> void conv(const char *name, const Geo &g, bool plain, float pv = 0, bool pvset = false, int typo = 0, bool v2 = false) {
    Ints xs = {g.n, g.c, g.h, g.w}, ws = plain ? Ints{g.o, g.c, g.kh, g.kw} : Ints{1, g.c, g.kh, g.kw}, os = {g.n, plain ? g.o : g.c, g.oh(), g.ow()};
    auto v = symv<T>(prod(xs), "x"), w = symv<T>(prod(ws), "w"); Tensor x = mk(xs, v), k = mk(ws, w); OpT op(name); op.set("format", tensor::from("NCHW")).set("stride", g.stride()).set(typo ? "dialations" : "dilation", g.dilation()); if (pvset) op.set("padding_value", f1(pv)); Tensor y;
    if (v2) y = op.run1({x, g.pad(), k}); else { op.set("padding", g.pad()); y = op.run1({x, k}); }
    want(y, os, conv_ref<T>(g, v, w, (T) pv, plain), "convolution of the padded input"); want(x, xs, v, "input left alone"); want(k, ws, w, "weights left alone"); }

// the double kernel keeps double precision
static inline void precise(const char *name, const Geo &g, bool plain) { Ints xs = {g.n, g.c, g.h, g.w}, ws = plain ? Ints{g.o, g.c, g.kh, g.kw} : Ints{1, g.c, g.kh, g.kw}, os = {g.n, plain ? g.o : g.c, g.oh(), g.ow()}; std::vector<double> v, w; for (int i = 0; i < prod(xs); ++i) v.push_back(i * 0.5 + (i + 1) * 1e-11); for (int i = 0; i < prod(ws); ++i) w.push_back((i % 3) - 1 + (i + 1) * 1e-11); OpT op(name); op.set("format", tensor::from("NCHW")).set("stride", g.stride()).set("dilation", g.dilation()).set("padding", g.pad()); want12(op.run1({mk(xs, v), mk(ws, w)}), os, conv_ref<double>(g, v, w, 0, plain), "convolution in double precision"); }
