//@ sources: @op src/backend/base/base_activation.cpp src/backend/base/base_relu_max.cpp src/backend/base/base_leaky_relu.cpp src/backend/base/base_hard_sigmoid.cpp src/backend/base/base_prelu.cpp src/backend/base/base_pow.cpp src/backend/base/base_add_bias.cpp src/backend/base/base_batch_norm.cpp src/backend/base/base_batch_scale.cpp src/backend/base/base_fused_batch_norm.cpp src/kernels/cpu/relu.cpp src/kernels/cpu/relu_max.cpp src/kernels/cpu/leaky_relu.cpp src/kernels/cpu/hard_sigmoid.cpp src/kernels/cpu/prelu.cpp src/kernels/cpu/pow.cpp src/kernels/cpu/add_bias.cpp src/kernels/cpu/batch_norm.cpp src/kernels/cpu/batch_scale.cpp src/kernels/cpu/fused_batch_norm.cpp src/kernels/cpu/sigmoid.cpp src/kernels/cpu/tanh.cpp src/kernels/cpu/exp.cpp src/kernels/cpu/erf.cpp src/kernels/cpu/sqrt.cpp src/kernels/cpu/rsqrt.cpp src/kernels/cpu/square.cpp src/kernels/cpu/abs.cpp src/kernels/cpu/floor.cpp src/kernels/cpu/ceil.cpp src/kernels/cpu/softplus.cpp
//@ entry: h_relu reach=end
//@ entry: h_math reach=end
//@ entry: h_int reach=end
//@ entry: h_channel reach=end
//@ entry: h_chtypes reach=end
//@ entry: h_wide reach=end
//@ entry: h_bad reach=end
//@ bounds: element-wise functions on 1..9 elements (vector loop and tail) and 0-3-dim shapes; channel-wise functions on 1-4 dims with channel count 1..3 and inner size 1..9, every channel position; integer types where the function is exact
//@ assume: element values arbitrary (floats: reals); parameters arbitrary (relu_max >= 0); variance >= 0, epsilon > 0; exp, log, erf, sqrt, pow are uninterpreted functions (exp > 0, sqrt >= 0)
//@ outside: float rounding; integer tensors for transcendental functions; larger tensors
#include "op.h"
static float relu_(float x) { return x > 0 ? x : 0; }
template <typename T> static T fref(int k, T x) { switch (k) { case 0: return (T) (1. / (1. + std::exp(-x))); case 1: return T(2) * (T(1) / (T(1) + std::exp(-(T(2) * x)))) - T(1); case 2: return std::exp(x); case 3: return std::erf(x); case 4: return std::sqrt(x); case 5: return (T) (1. / std::sqrt(x)); case 6: return x * x; case 7: return x < 0 ? -x : x; case 8: return std::floor(x); case 9: return std::ceil(x); default: return (T) std::log(std::exp(x) + 1.); } }
static const char *F[] = {"sigmoid", "tanh", "exp", "erf", "sqrt", "rsqrt", "square", "abs", "floor", "ceil", "softplus"};
static Ints eshape() { int k = sx_pick(0, 11, "shape"); if (k < 9) return {k + 1}; if (k == 9) return {}; if (k == 10) return {2, 3}; return {2, 1, 3}; }
SX_ENTRY h_relu() { Dev d; Ints s = eshape(); int n = prod(s), k = sx_pick(0, 3, "op"); auto v = symv<float>(n, "x"); float a = sx_f32("a"), b = sx_f32("b"); Tensor x = mk(s, v), y; std::vector<float> w; bool def = sx_choose(2, "default");
    if (k == 1 || k == 2) sx_assume(n <= 6); if (k == 3) sx_assume(n <= 5);
    switch (k) { case 0: { OpT op("relu"); y = op.run1({x}); for (float e : v) w.push_back(relu_(e)); break; }
        case 1: { sx_assume(a >= 0); if (def) a = 0; OpT op("relu_max"); if (!def) op.set("max", f1(a)); y = op.run1({x}); for (float e : v) { float r = relu_(e); w.push_back(r < a ? r : a); } break; }
        case 2: { if (def) a = 0; OpT op("leaky_relu"); if (!def) op.set("scale", f1(a)); y = op.run1({x}); for (float e : v) w.push_back(e > 0 ? e : e * a); break; }
        default: { if (def) { a = 0.2f; b = 0.5f; } OpT op("hard_sigmoid"); if (!def) op.set("alpha", f1(a)).set("beta", f1(b)); y = op.run1({x}); for (float e : v) { float r = a * e + b; w.push_back(r < 0 ? 0 : r > 1 ? 1 : r); } } }
    want(y, s, w, "activation of each element"); want(x, s, v, "input left alone"); sx_reach("end"); }
template <typename T> void math1() { Ints s = eshape(); int n = prod(s), k = sx_pick(0, 11, "f"); auto v = symv<T>(n, "x"); if (k == 4) for (T e : v) sx_assume(e >= 0); if (k == 5) for (T e : v) sx_assume(e > 0); Tensor x = mk(s, v), y; std::vector<T> w; if (k == 11) { float e = sx_f32("y"); OpT op("pow"); op.set("y", f1(e)); y = op.run1({x}); for (T q : v) w.push_back(std::pow(q, (T) e)); } else { OpT op(F[k]); y = op.run1({x}); for (T e : v) w.push_back(fref<T>(k, e)); } want(y, s, w, "function of each element"); want(x, s, v, "input left alone"); }
SX_ENTRY h_math() { Dev d; if (sx_choose(2, "double")) math1<double>(); else math1<float>(); sx_reach("end"); }
template <typename T> void int1() { static const char *O[] = {"relu", "relu_max", "leaky_relu", "square", "abs", "floor", "ceil"}; int k = sx_pick(0, 6, "op"), n = sx_pick(1, 3, "n"); auto v = symv<T>(n, "x"); Tensor x = mk({n}, v); std::vector<T> w; OpT op(O[k]); if (k == 1) op.set("max", f1(6)); if (k == 2) op.set("scale", f1(2)); Tensor y = op.run1({x}); for (T e : v) w.push_back(k == 0 ? (e > 0 ? e : T(0)) : k == 1 ? (e > 0 ? (e < 6 ? e : T(6)) : T(0)) : k == 2 ? (e > 0 ? e : (T) (e * 2)) : k == 3 ? (T) ((uint64_t) e * (uint64_t) e) : k == 4 ? (e > 0 ? e : (T) (0 - (uint64_t) e)) : e); want(y, {n}, w, "function of each integer"); }
SX_ENTRY h_int() { Dev d; switch (sx_choose(8, "dtype")) { case 0: int1<int8_t>(); break; case 1: int1<uint8_t>(); break; case 2: int1<int16_t>(); break; case 3: int1<uint16_t>(); break; case 4: int1<int32_t>(); break; case 5: int1<uint32_t>(); break; case 6: int1<int64_t>(); break; default: int1<uint64_t>(); } sx_reach("end"); }
// prelu, add_bias, batch_norm, batch_scale, fused_batch_norm: per-channel parameters
template <typename T> void chan(int k, const Ints &s, int dim, int fmt, bool eps) { int c = s[dim]; auto v = symv<T>(prod(s), "x"); Tensor x = mk(s, v), y; std::vector<std::vector<T>> p; static const int NP[] = {1, 1, 2, 2, 4}; for (int i = 0; i < NP[k]; ++i) p.push_back(symv<T>(c, "p")); std::vector<Tensor> in = {x}; for (auto &q : p) in.push_back(mk({c}, q)); static const char *O[] = {"prelu", "add_bias", "batch_norm", "batch_scale", "fused_batch_norm"}; float e = 1e-5f;
    if (k == 2 || k == 4) { for (T q : p[1]) sx_assume(q >= 0); if (eps) { e = sx_f32("epsilon"); sx_assume(e > 0); } } OpT op(O[k]); if (fmt) op.set("format", tensor::from(fmt == 1 ? "NCHW" : "NHWC")); else op.set("dim", i1(dim)); if (eps && (k == 2 || k == 4)) op.set("epsilon", f1(e)); y = op.run1(in);
    std::vector<T> w; for (Ix i(s); !i.done; i.next()) { T a = v[at(s, i.i)]; int j = i.i[dim]; T sd = 1; if (k == 2 || k == 4) sd = std::sqrt(p[1][j] + (T) e); w.push_back(k == 0 ? (std::is_integral<T>::value ? (T) (std::max(a, T(0)) + p[0][j] * std::min(a, T(0))) : a > 0 ? a : a * p[0][j]) : k == 1 ? a + p[0][j] : k == 2 ? (a - p[0][j]) / sd : k == 3 ? a * p[0][j] + p[1][j] : (a - p[0][j]) / sd * p[2][j] + p[3][j]); } want(y, s, w, "each element with the parameters of its channel"); want(x, s, v, "input left alone"); }
SX_ENTRY h_channel() { Dev d; int k = sx_pick(0, 4, "op"), pre = sx_pick(0, 2, "pre"), post = sx_pick(0, 2, "post"), c = sx_pick(1, 3, "c"); Ints s; for (int i = 0; i < pre; ++i) s.push_back(i + 1); int dim = (int) s.size(); s.push_back(c); for (int i = 0; i < post; ++i) s.push_back(i ? 2 : sx_pick(1, SXT(9, 9), "inner")); sx_assume(prod(s) <= (k == 0 ? 6 : k == 3 || k == 1 ? 24 : 14)); int fmt = 0; if (k == 1 && s.size() == 4 && (dim == 1 || dim == 3)) fmt = sx_pick(0, 1, "format") * (dim == 1 ? 1 : 2); chan<float>(k, s, dim, fmt, sx_choose(2, "epsilon set")); sx_reach("end"); }
template <typename T> void ct() { int k = sx_choose(3, "op"); chan<T>(k == 0 ? 0 : k == 1 ? 1 : 3, {2, 2, 2}, sx_pick(0, 2, "dim"), 0, false); }
SX_ENTRY h_chtypes() { Dev d; int t = sx_choose(4, "dtype"); if (t == 0) ct<int8_t>(); else if (t == 1) ct<int32_t>(); else if (t == 2) ct<uint8_t>(); else { int k = sx_pick(0, 4, "k"); chan<double>(k, {2, 2, 1}, sx_pick(0, 2, "dim"), 0, false); } sx_reach("end"); }
// large integers and precise doubles: no detour over a narrower type
template <typename T> void wide() { auto x = edges<T>(2, "x"), p = edges<T>(1, "p", 0, 1), q = edges<T>(1, "q", 0, 1); int k = sx_pick(0, 6, "op"); bool in = std::is_integral<T>::value; Tensor tx = mk({1, 1, 2}, x), tp = mk({1}, p), tq = mk({1}, q); std::vector<T> w; Tensor y; typedef typename std::conditional<std::is_integral<T>::value, uint64_t, T>::type U;
    for (T e : x) { T n = e > 0 ? e : T(0); w.push_back(k == 0 ? n : k == 1 ? (e < 0 ? (T) (U(0) - U(e)) : e) : k == 2 ? (T) (U(e) + U(p[0])) : k == 3 ? (T) (U(e) * U(p[0]) + U(q[0])) : k == 4 ? (e > 0 ? e : (T) (U(e) * U(p[0]))) : k == 5 ? (T) (U(e) * U(e)) : e); }
    if (k == 6 && !in) return; if (in && std::is_signed<T>::value && (k == 5 || k == 3 || k == 4 || (k == 1 && (x[0] < -5 || x[1] < -5)))) return; static const char *O[] = {"relu", "abs", "add_bias", "batch_scale", "prelu", "square", "floor"}; OpT op(O[k]); if (k >= 2 && k <= 4) op.set("dim", i1(1)); std::vector<Tensor> a = {tx}; if (k >= 2 && k <= 4) a.push_back(tp); if (k == 3) a.push_back(tq); want12(op.run1(a), {1, 1, 2}, w, "function of the value"); }
SX_ENTRY h_wide() { Dev d; switch (sx_choose(5, "dtype")) { case 0: wide<int32_t>(); break; case 1: wide<uint32_t>(); break; case 2: wide<int64_t>(); break; case 3: wide<uint64_t>(); break; default: wide<double>(); } sx_reach("end"); }
SX_ENTRY h_bad() { Dev d; static const char *O[] = {"prelu", "add_bias", "batch_norm", "batch_scale", "fused_batch_norm"}; static const int NP[] = {1, 1, 2, 2, 4}; int k = sx_pick(0, 4, "op"), w = sx_pick(0, 3, "what"), j = sx_pick(1, NP[k], "which"); Ints s = {2, 3}; int dim = 1; if (w == 0) { dim = sx_i32("dim"); sx_assume(dim < 0 || dim > 1); } std::vector<Tensor> in = {symt<float>(s, "x")}; for (int i = 0; i < NP[k]; ++i) in.push_back(symt<float>({3}, "p")); if (w == 1) in[j] = symt<float>({2}, "p"); if (w == 2) in[j] = symt<double>({3}, "p"); if (w == 3) in.pop_back(); OpT op(O[k]); op.set("dim", i1(dim)); SX_ASSERT(throws([&]() { op.run1(in); }), "a channel that does not exist, parameters of another length or type, or missing parameters are rejected"); sx_reach("end"); }
