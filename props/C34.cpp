//@ sources: @op src/backend/base/base_resize2d.cpp src/kernels/cpu/resize2d.cpp src/backend/base/base_affine_sample2d.cpp src/kernels/cpu/affine_sample2d.cpp src/kernels/cpu/sample2d.cpp src/kernels/cpu/sample2d_v2.cpp src/kernels/cpu/resize_nearest_neighbor.cpp src/backend/zoo/nhwc_letterbox.cpp src/backend/zoo/nhwc_scale_resize2d.cpp src/module/bubble.cpp
//@ entry: h_accept reach=ok,bad
//@ entry: h_accept4 reach=ok,bad
//@ entry: h_linear reach=end
//@ entry: h_cubic reach=end
//@ entry: h_nearest reach=end
//@ entry: h_hard reach=end
//@ entry: h_types reach=end
//@ entry: h_cubic_types reach=end
//@ entry: h_affine reach=end
//@ entry: h_affine_value reach=end
//@ entry: h_affine_cubic reach=end
//@ entry: h_affine_accept reach=ok,bad
//@ entry: h_sample reach=end
//@ entry: h_sample_v2 reach=end,bad
//@ entry: h_neighbor reach=ok,bad
//@ entry: h_letterbox reach=ok,bad
//@ entry: h_scale_resize reach=ok,bad
//@ bounds: sources and targets of 1..5 (cubic 1..6) rows and columns, 1..2 images and channels, inputs of 1..5 dims, size vectors of entries -1..4, affine matrices of scales -1..2, shifts -2..3 and quarter turns
//@ assume: element values at most 1 in absolute value for the weighted kernels (floats); integer types at concrete values up to the limits of 8, 16 and 32 bits
//@ outside: cubic kernel next to the border, where the code repeats row 1 and row size-3; 64-bit integers beyond 2^53; sampling positions outside 32 bits; last row of the affine matrix; align_corners (ignored by the operator); rounding of ties between two neighbours
#include "op.h"
enum { LIN = 0, CUB = 1, NEAR = 2, HARD = 3 };
struct Img { int n, h, w, c; };
struct Out { bool on; double v; };
static int clampi(int v, int s) { return v < 0 ? 0 : v >= s ? s - 1 : v; }
static double clampd(double v, int s) { return v > s - 1 ? s - 1 : v < 0 ? 0 : v; }
template <typename T> bool near_(T y, double want) { double lo = (double) std::numeric_limits<T>::lowest(), hi = (double) std::numeric_limits<T>::max(); if (want < lo) want = lo; if (want > hi) want = hi; double d = (double) y - want; return d <= 1.01 && d >= -1.01; }
template <typename T> void close_(T y, double want, const char *m) { SX_ASSERT(near_<T>(y, want), m); }
template <> void close_<float>(float y, double want, const char *m) { sx_fnear_(y, want, 1e-4, m); }
template <> void close_<double>(double y, double want, const char *m) { sx_fnear_(y, want, 1e-4, m); }
static void tap_linear(double p, int s, int *i, double *w) { p = clampd(p, s); int a = (int) std::floor(p); double f = p - a; i[0] = i[1] = a; i[2] = i[3] = clampi(a + 1, s); w[0] = w[3] = 0; w[1] = 1 - f; w[2] = f; }
static double kernel(double x) { const double A = -0.75; if (x < 0) x = -x; return x <= 1 ? ((A + 2) * x - (A + 3)) * x * x + 1 : x < 2 ? ((A * x - 5 * A) * x + 8 * A) * x - 4 * A : 0; }
static void tap_cubic(double p, int s, int *i, double *w) { int a = (int) std::floor(p); double f = p - a; if (a < 1) { a = 1; f = 0; } if (a >= s - 3) { a = s - 3; f = 0; } for (int k = 0; k < 4; ++k) { i[k] = a - 1 + k; w[k] = kernel(f + 1 - k); } }
static int hard_(double p) { return (int) p; }
static int near_pos(double p) { return (int) std::round(p); }
// the value sampled at (py, px), eps: how far the position may be off
template <typename T> void sampled(T got, const T *x, const Img &m, int n, int c, int type, double py, double px, double eps, const Out &out) {
#define AT(r, q) x[((n * m.h + (r)) * m.w + (q)) * m.c + c]
    if (type == NEAR || type == HARD) { int (*f)(double) = type == NEAR ? near_pos : hard_; int r[3] = {f(py - eps), f(py + eps), f(py)}, q[3] = {f(px - eps), f(px + eps), f(px)}; if (type == HARD) { r[2] = (int) std::floor(py); q[2] = (int) std::floor(px); } bool ok = false; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) { bool in = r[a] >= 0 && r[a] < m.h && q[b] >= 0 && q[b] < m.w; ok = ok | (in || !out.on ? got == AT(clampi(r[a], m.h), clampi(q[b], m.w)) : got == (T) out.v); } SX_ASSERT(ok, "sample is the pixel at its position"); return; }
    bool cub = type == CUB && m.h >= 4 && m.w >= 4, in = true, may = true; int r[4], q[4]; double wr[4], wq[4];
    if (cub) { for (int s = -1; s <= 1; s += 2) { int a = (int) std::floor(py + s * eps), b = (int) std::floor(px + s * eps); bool i = a >= 1 && a < m.h - 3 && b >= 1 && b < m.w - 3; if (s < 0) in = may = i; else { in = in && i; may = may || i; } } tap_cubic(py, m.h, r, wr); tap_cubic(px, m.w, q, wq); }
    else { in = py >= eps && py <= m.h - 1 - eps && px >= eps && px <= m.w - 1 - eps; may = py >= -eps && py <= m.h - 1 + eps && px >= -eps && px <= m.w - 1 + eps; tap_linear(py, m.h, r, wr); tap_linear(px, m.w, q, wq); }
    if (out.on && !may) { SX_ASSERT(got == (T) out.v, "outside is the outer value"); return; } if (out.on && !in) return;
    double want = 0; for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) { double w = wr[a] * wq[b]; if (w != 0) want += w * (double) AT(r[a], q[b]); } close_<T>(got, want, cub ? "cubic kernel of the sixteen pixels around" : "weighted mean of the four pixels around"); }
template <typename T> std::vector<T> pixels(int n) { auto v = symv<T>(n, "x"); return v; }
template <> std::vector<float> pixels<float>(int n) { auto v = symv<float>(n, "x"); for (float a : v) { sx_assume(a >= -1); sx_assume(a <= 1); } return v; }
// half-pixel positions, or the corner for the hard kernel
static double half(int type, int n, int s, int d) { return type == HARD ? (double) n * s / d : (n + 0.5) * s / d - 0.5; }
template <typename T> void resized(const Tensor &y, const std::vector<T> &v, const Img &m, int oh, int ow, int type) { const T *p = y.data<T>(); SX_ASSERT(y.dtype() == dt<T>::v && y.count() == m.n * oh * ow * m.c, "resized proto"); for (int n = 0; n < m.n; ++n) for (int i = 0; i < oh; ++i) for (int j = 0; j < ow; ++j) for (int c = 0; c < m.c; ++c) sampled<T>(p[((n * oh + i) * ow + j) * m.c + c], v.data(), m, n, c, type, half(type, i, m.h, oh), half(type, j, m.w, ow), type == LIN ? 1e-5 : 1e-9, Out{false, 0}); }
template <typename T> void resize(const Img &m, int oh, int ow, int type, const std::vector<T> &v) { OpT op("_resize2d"); op.set("type", i1(type)); Tensor x = mk<T>({m.n, m.h, m.w, m.c}, v), y = op.run1({x, iv({-1, oh, ow, -1})}); want_shape(y, {m.n, oh, ow, m.c}, "resized shape"); if (oh == m.h && ow == m.w) { const T *p = y.data<T>(); for (size_t i = 0; i < v.size(); ++i) dt<T>::eq(p[i], v[i], "resizing to the same size is the input"); return; } resized<T>(y, v, m, oh, ow, type); }
static Img img(int lo, int hi) { Img m; m.h = sx_pick(lo, hi, "height"); m.w = sx_pick(lo, hi, "width"); m.n = m.c = 1; if (m.h + m.w < 5) { m.n = sx_pick(1, 2, "number"); m.c = sx_pick(1, 2, "channels"); } return m; }
static void kind(int type, int lo, int hi, int top) { Dev d; Img m = img(lo, hi); int oh = sx_pick(1, top, "to height"), ow = sx_pick(1, top, "to width"); resize<float>(m, oh, ow, type, pixels<float>(m.n * m.h * m.w * m.c)); sx_reach("end"); }
SX_ENTRY h_linear() { kind(LIN, 1, SXT(3, 4), SXT(4, 6)); }
SX_ENTRY h_cubic() { int which = sx_choose(2, "big"); if (which) kind(CUB, 4, SXT(5, 7), SXT(3, 7)); else kind(CUB, 1, SXT(3, 5), 3); }
SX_ENTRY h_nearest() { kind(NEAR, 1, SXT(4, 5), SXT(5, 7)); }
SX_ENTRY h_hard() { kind(HARD, 1, SXT(4, 5), SXT(5, 7)); }
// every numeric type
template <typename T> void typed() { int which = sx_choose(2, "kernel"); Img m = {2, 2, 3, 2}; auto v = symv<T>(24, "x"); resize<T>(m, 3, 2, which ? NEAR : HARD, v); }
template <typename T> void typed_w(int type, const Img &m, int oh, int ow) { std::vector<T> v(m.h * m.w); bool wide = sizeof(T) == 8; double lo = wide ? std::is_signed<T>::value ? -1e12 : 0 : (double) std::numeric_limits<T>::lowest(), hi = wide ? 1e12 : (double) std::numeric_limits<T>::max(); int pat = sx_pick(0, 3, "pattern"); for (int i = 0; i < m.h * m.w; ++i) { int r = i / m.w, c = i % m.w; bool up = pat == 0 ? (r + c) % 2 == 0 : pat == 1 ? c < m.w / 2 : pat == 2 ? r == 2 : r >= m.h / 2; v[i] = (T) (std::is_floating_point<T>::value ? up : up ? hi : lo); } 
    if (sizeof(T) >= 4 && std::is_integral<T>::value && type == LIN) for (int i = 0; i < m.h * m.w; ++i) v[i] = (T) ((i * 7 + pat) % 40); resize<T>(m, oh, ow, type, v); }
SX_ENTRY h_types() { Dev d; int w = sx_choose(2, "weighted");
#define CALL(T) w ? typed_w<T>(LIN, Img{1, 3, 4, 1}, 5, 3) : typed<T>()
    SX_ALLT(CALL)
#undef CALL
    sx_reach("end"); }
SX_ENTRY h_cubic_types() { Dev d; int o = sx_choose(2, "to"); 
#define CALL(T) typed_w<T>(CUB, Img{1, 6, 5, 1}, o ? 9 : 4, o ? 10 : 7)
    SX_ALLT(CALL)
#undef CALL
    sx_reach("end"); }
// what is resized: two adjacent dimensions, at most
static void accept(const Ints &s, const Ints &t) { int n = (int) s.size(); Ints os = s; bool zero = false, neg = true; std::vector<int> ch; for (int i = 0; i < n; ++i) { if (t[i] == 0) zero = true; if (t[i] > 0) { os[i] = t[i]; if (t[i] != s[i]) ch.push_back(i); } } bool ok = false; for (int i = 0; i + 1 < n; ++i) { bool all = t[i] > 0 && t[i + 1] > 0; for (int k : ch) if (k != i && k != i + 1) all = false; if (all) ok = true; } if (zero) ok = false; for (int i = 0; i < n; ++i) if (s[i] == 0) neg = false;
    auto v = symv<int32_t>(prod(s), "x"); Tensor x = mk(s, v), y; bool th = throws([&]() { OpT op("_resize2d"); op.set("type", i1(HARD)); y = op.run1({x, iv(t)}); }); if (ok && (ch.empty() || !neg)) { if (th) return; } else SX_ASSERT(th == !ok, "accepted exactly when two adjacent sizes are given and nothing else changes"); if (th) { sx_reach("bad"); return; } want_shape(y, os, "resized shape"); const int32_t *p = y.data<int32_t>(); int k = 0; for (Ix o(os); !o.done; o.next(), ++k) { Ints q; for (int a = 0; a < n; ++a) q.push_back((int) ((long) o.i[a] * s[a] / os[a])); SX_ASSERT(p[k] == v[at(s, q)], "pixel at its position"); } sx_reach("ok"); }
static Ints target(int m, int lo, int hi) { Ints t; for (int i = 0; i < m; ++i) t.push_back(sx_pick(lo, hi, "to")); return t; }
SX_ENTRY h_accept() { Dev d; Ints s = pick_shape(sx_pick(1, 3, "dims"), 0, 2); accept(s, target((int) s.size(), -1, 4)); }
SX_ENTRY h_accept4() { Dev d; Ints s = {2, 1, 2, 1}; if (sx_choose(2, "dims")) s.push_back(2); Ints t; for (size_t i = 0; i < s.size(); ++i) t.push_back(sx_pick(-1, 2, "to")); accept(s, t); }
// affine sampling: the pixel of the target at (col, row) comes from A * (col, row, 1)
struct Aff { double a[6]; };
static double sc(const char *n) { static const double v[] = {1, 0.5, 2, -1}; return v[sx_pick(0, SXT(2, 3), n)]; }
static Aff affine() { Aff f; int turn = sx_choose(2, "turn"); double k = sc("scale"), dx = sx_pick(-2, SXT(2, 4), "dx") * 0.75, dy = sx_pick(-1, SXT(1, 3), "dy") * 0.5; if (turn) { f.a[0] = 0; f.a[1] = -k; f.a[3] = k; f.a[4] = 0; } else { f.a[0] = k; f.a[1] = 0.25 * (dy != 0); f.a[3] = 0; f.a[4] = k; } f.a[2] = dx; f.a[5] = dy; return f; }
template <typename T> void affined(const Img &m, int oh, int ow, int type, const Aff &f, const Out &o, const std::vector<T> &v, int dim) { OpT op("affine_sample2d"); op.set("type", i1(type)).set("dim", i1(dim)); if (o.on) op.set("outer_value", f1((float) o.v)); std::vector<float> a(9, 0); for (int i = 0; i < 6; ++i) a[i] = (float) f.a[i]; a[8] = 1; Tensor y = op.run1({mk<T>({m.n, m.h, m.w, m.c}, v), iv({oh, ow}), mk<float>({3, 3}, a)}); want_shape(y, {m.n, oh, ow, m.c}, "sampled shape"); SX_ASSERT(y.dtype() == dt<T>::v, "sampled dtype"); const T *p = y.data<T>(); 
    for (int n = 0; n < m.n; ++n) for (int i = 0; i < oh; ++i) for (int j = 0; j < ow; ++j) for (int c = 0; c < m.c; ++c) sampled<T>(p[((n * oh + i) * ow + j) * m.c + c], v.data(), m, n, c, type, f.a[3] * j + f.a[4] * i + f.a[5], f.a[0] * j + f.a[1] * i + f.a[2], 0, o); }
static void affine_case(bool outer) { Dev d; static const int kinds[] = {LIN, NEAR, HARD}; int type = kinds[sx_choose(3, "type")]; Img m; m.h = sx_pick(1, 3, "height"); m.w = sx_pick(1, 3, "width"); m.n = m.h == 2 ? 2 : 1; m.c = m.w == 2 ? 2 : 1; Aff f = affine(); affined<float>(m, 2, 3, type, f, Out{outer, 7}, pixels<float>(m.n * m.h * m.w * m.c), m.h == 1 ? -3 : 1); sx_reach("end"); }
SX_ENTRY h_affine() { affine_case(false); }
SX_ENTRY h_affine_value() { affine_case(true); }
SX_ENTRY h_affine_cubic() { Dev d; bool outer = sx_choose(2, "outer"), u8 = sx_choose(2, "u8"); Img m; m.n = m.c = 1; m.h = sx_pick(3, SXT(5, 6), "height"); m.w = sx_pick(4, 6, "width"); Aff f = affine(); if (u8) { std::vector<uint8_t> v; for (int i = 0; i < m.h * m.w; ++i) v.push_back((i / m.w + i) % 2 ? 255 : 0); affined<uint8_t>(m, 2, 3, CUB, f, Out{outer, 7}, v, 1); } else affined<float>(m, 2, 2, CUB, f, Out{outer, 7}, pixels<float>(m.h * m.w), 1); sx_reach("end"); }
SX_ENTRY h_affine_accept() { Dev d; Ints s = pick_shape(sx_pick(1, 3, "dims"), 0, 1); int n = (int) s.size(), dim = sx_pick(-4, 3, "dim"), a = dim < 0 ? dim + n : dim, type = sx_pick(-1, 4, "type"), oh = sx_pick(-1, 2, "to height"), ow = oh == 1 ? sx_pick(-1, 2, "to width") : 2; int mat = type == 0 ? sx_pick(0, 2, "matrix") : 0; bool ok = a >= 0 && a + 1 < n && type >= 0 && type <= 3 && oh >= 0 && ow >= 0 && mat == 0, un = ok && (s[a] == 0 || s[a + 1] == 0); Ints as = mat == 0 ? Ints{3, 3} : mat == 1 ? Ints{9} : Ints{2, 3}; std::vector<float> id(prod(as), 0); id[0] = id[4] = 1; auto v = symv<float>(prod(s), "x"); Tensor x = mk(s, v), y; bool th;
    if (mat && a >= 0 && a + 1 < n) th = throws([&]() { OpT op("affine_sample2d"); op.set("type", i1(type)).set("dim", i1(dim)); y = op.run1({x, iv({oh, ow}), mk<float>(as, id)}, false); }); else th = throws([&]() { OpT op("affine_sample2d"); op.set("type", i1(type)).set("dim", i1(dim)); y = op.run1({x, iv({oh, ow}), mk<float>(as, id)}); });
    if (un && oh * ow * prod(s) == 0 && th) return; SX_ASSERT(th == !ok, "accepted exactly for two existing dimensions, known kernels, sizes and a 3x3 matrix"); if (th) { sx_reach("bad"); return; } Ints os = s; os[a] = oh; os[a + 1] = ow; want_shape(y, os, "sampled shape"); sx_reach("ok"); }
// sampling by a factor, zero outside
SX_ENTRY h_sample() { Dev d; static const double ks[] = {1, 2, 0.5, 1.5, 3}; int ki = sx_pick(0, 4, "scale"), type = sx_pick(-1, 3, "type"); double k = ks[ki]; if (type == CUB) type = LIN; Img m; m.n = 1; m.c = 2; m.h = sx_pick(1, 3, "height"); m.w = sx_pick(2, 3, "width"); auto v = pixels<float>(m.h * m.w * 2); bool last = sx_choose(2, "last"); Img e = m; Ints s = {m.h, m.w, 2}; int dim = 0; if (last) { s = {2, m.h, m.w}; e.n = 2; e.c = 1; dim = -2; } OpT op("sample2d"); op.set("scale", f1((float) k)); if (type >= 0) op.set("type", i1(type)); else type = NEAR; if (!last || sx_choose(2, "dim")) op.set("dim", i1(dim)); Tensor y = op.run1({mk(s, v)}); int oh = (int) (e.h * k), ow = (int) (e.w * k); Ints os = last ? Ints{2, oh, ow} : Ints{oh, ow, 2}; want_shape(y, os, "sampled shape"); const float *p = y.data<float>(); 
    for (int n = 0; n < e.n; ++n) for (int i = 0; i < oh; ++i) for (int j = 0; j < ow; ++j) for (int c = 0; c < e.c; ++c) sampled<float>(p[((n * oh + i) * ow + j) * e.c + c], v.data(), e, n, c, type, i / k, j / k, ki < 3 ? 0 : 1e-5, Out{true, 0}); sx_reach("end"); }
SX_ENTRY h_sample_v2() { Dev d; static const double ks[] = {1, 2, 0.5, 1.5}; double kh = ks[sx_pick(0, 3, "scale h")], kw = ks[sx_pick(0, 3, "scale w")]; int type = sx_pick(-1, 3, "type"); if (type == CUB) type = LIN; Img m; m.n = sx_pick(1, 2, "n"); m.c = 1; m.h = sx_pick(1, 3, "height"); m.w = sx_pick(1, 3, "width"); auto v = pixels<float>(m.n * m.h * m.w); int oh = (int) (m.h * kh), ow = (int) (m.w * kw), bad = sx_pick(0, 1, "bad"); Tensor y; OpT op("sample2d_v2"); if (type >= 0) op.set("type", i1(type)); else type = HARD; std::vector<float> k = {1, 1, (float) kh, (float) kw}; if (bad) k.pop_back(); bool ok = !bad && oh > 0 && ow > 0; bool th = throws([&]() { y = op.run1({mk<float>({m.n, 1, m.h, m.w}, v), mk<float>({(int) k.size()}, k)}); }); SX_ASSERT(th == !ok, "accepted exactly for one factor per dimension and positive results"); if (th) { sx_reach("bad"); return; } want_shape(y, {m.n, 1, oh, ow}, "sampled shape"); if (oh == m.h && ow == m.w) { const float *p = y.data<float>(); for (size_t i = 0; i < v.size(); ++i) sx_feq_(p[i], v[i], "factor one is the input"); } else resized<float>(y, v, m, oh, ow, type); sx_reach("end"); }
SX_ENTRY h_neighbor() { Dev d; int n = sx_pick(1, 4, "dims"), dim = sx_pick(-1, 4, "dim"); if (dim == 4) dim = 4000; int oh = sx_pick(0, 3, "to height"), ow = sx_pick(1, 3, "to width"); Ints s; for (int i = 0; i < n; ++i) s.push_back(i == dim ? 2 : i == dim + 1 ? 3 : i % 2 + 1); bool ok = dim >= 0 && dim + 1 < n && oh > 0; auto v = symv<float>(prod(s), "x"); Tensor x = mk(s, v), y; bool th = throws([&]() { OpT op("resize_nearest_neighbor"); op.set("dim", i1(dim)); y = op.run1({x, iv({oh, ow})}); }); SX_ASSERT(th == !ok, "accepted exactly for two existing dimensions and positive sizes"); if (th) { sx_reach("bad"); return; } Ints os = s; os[dim] = oh; os[dim + 1] = ow; want_shape(y, os, "resized shape"); Img m = {1, 2, 3, 1}; for (int i = 0; i < n; ++i) { if (i < dim) m.n *= s[i]; if (i > dim + 1) m.c *= s[i]; } resized<float>(y, v, m, oh, ow, NEAR); sx_reach("ok"); }
// the image keeps its aspect inside the box
SX_ENTRY h_letterbox() { Dev d; Img m; m.h = sx_pick(0, 3, "height"); m.w = sx_pick(m.h == 2 ? 0 : 1, 4, "width"); m.n = m.h == 2 ? 2 : 1; m.c = m.w == 2 ? 2 : 1; int bw = sx_pick(1, 4, "box w"), one = bw < 3 ? sx_choose(2, "one") : 0, bh = one ? bw : sx_pick(1, 4, "box h"), type = sx_pick(-1, 3, "type"); if (type == CUB) type = LIN; double ov = sx_choose(2, "outer") ? 5 : 0; auto v = pixels<float>(m.n * m.h * m.w * m.c); Tensor x = mk<float>({m.n, m.h, m.w, m.c}, v), y; bool th = throws([&]() { OpT op("_nhwc_letterbox"); op.set("size", one ? iv({bw}) : iv({bw, bh})); if (type >= 0) op.set("type", i1(type)); if (ov) op.set("outer_value", f1((float) ov)); y = op.run1({x}); }); SX_ASSERT(th == (m.h == 0 || m.w == 0), "refused exactly for empty images"); if (th) { sx_reach("bad"); return; } if (type < 0) type = LIN; want_shape(y, {m.n, bh, bw, m.c}, "box shape"); double a = (double) bw / m.w, b = (double) bh / m.h, k = a < b ? a : b; bool exact = k == 1 || k == 2 || k == 0.5 || k == 4 || k == 0.25; const float *p = y.data<float>(); for (int n = 0; n < m.n; ++n) for (int i = 0; i < bh; ++i) for (int j = 0; j < bw; ++j) for (int c = 0; c < m.c; ++c) sampled<float>(p[((n * bh + i) * bw + j) * m.c + c], v.data(), m, n, c, type, i / k, j / k, exact ? 0 : 1e-5, Out{true, ov}); sx_reach("ok"); }
SX_ENTRY h_scale_resize() { Dev d; Img m; m.h = sx_pick(0, 3, "height"); m.w = sx_pick(m.h == 2 ? 0 : 1, 4, "width"); m.n = m.h == 2 ? 2 : 1; m.c = m.w == 2 ? 2 : 1; int two = sx_choose(2, "two"), a = sx_pick(0, 3, "size"), b = two ? sx_pick(0, 3, "size") : 0, type = sx_pick(-1, 3, "type"); if (type == CUB) type = LIN; bool ok = m.h > 0 && m.w > 0; int oh = 0, ow = 0; if (ok) { if (two) { ow = a; oh = b; } else if (m.h > m.w) { ow = a; oh = a * m.h / m.w; } else { oh = a; ow = a * m.w / m.h; } ok = oh > 0 && ow > 0; } auto v = pixels<float>(m.n * m.h * m.w * m.c); Tensor x = mk<float>({m.n, m.h, m.w, m.c}, v), y; bool th = throws([&]() { OpT op("_nhwc_scale_resize2d"); op.set("size", two ? iv({a, b}) : iv({a})); if (type >= 0) op.set("type", i1(type)); y = op.run1({x}, ok); }); SX_ASSERT(th == !ok, "refused exactly for empty images and targets"); if (th) { sx_reach("bad"); return; } if (type < 0) type = LIN; want_shape(y, {m.n, oh, ow, m.c}, "scaled shape"); if (oh == m.h && ow == m.w) { const float *p = y.data<float>(); for (size_t i = 0; i < v.size(); ++i) sx_feq_(p[i], v[i], "same size is the input"); } else resized<float>(y, v, m, oh, ow, type); sx_reach("ok"); }
