//@ sources: @op src/backend/base/base_reduce_sum.cpp src/kernels/cpu/reduce_sum.cpp src/backend/base/base_reduce_mean.cpp src/kernels/cpu/reduce_mean.cpp src/backend/base/base_argmax.cpp src/kernels/cpu/argmax.cpp src/backend/base/base_max.cpp src/kernels/cpu/max.cpp src/backend/base/base_softmax.cpp src/kernels/cpu/softmax.cpp src/backend/base/base_l2_norm.cpp src/kernels/cpu/l2_norm.cpp
//@ entry: h_sum reach=end
//@ entry: h_mean reach=end
//@ entry: h_max reach=end
//@ entry: h_argmax reach=end
//@ entry: h_softmax reach=end
//@ entry: h_l2 reach=end
//@ entry: h_types reach=end
//@ entry: h_wide reach=end
//@ entry: h_bad reach=end
//@ bounds: inputs of 1-4 dims of size 1..3 (at most 12 elements); every dimension, positive and negative; every contiguous list of dimensions (mean); with and without keeping the reduced dimension; sum, mean, max and argmax of all ten element types, also of the largest integers and of doubles beyond float precision
//@ assume: element values arbitrary (floats: reals); exp and sqrt are uninterpreted functions with exp > 0, sqrt >= 0 and sqrt > 0 on positive arguments; epsilon any positive real
//@ outside: larger shapes; float rounding; softmax and l2_norm of integer tensors; ties broken by NaN
#include "op.h"
static Ints pshape(int &n) { n = sx_pick(1, SXT(3, 4), "dims"); Ints s = pick_shape(n, 1, 3); sx_assume(prod(s) <= 12); return s; }
static Ints red(const Ints &s, int lo, int hi, bool keep) { Ints r; for (int i = 0; i < (int) s.size(); ++i) if (i < lo || i > hi) r.push_back(s[i]); else if (keep) r.push_back(1); return r; }
// sum of the elements that map to each output element
template <typename T> std::vector<T> sums(const Ints &s, const std::vector<T> &v, int lo, int hi) { Ints o = red(s, lo, hi, true); std::vector<T> w(prod(o), T(0)); for (Ix i(s); !i.done; i.next()) { Ints k = i.i; for (int d = lo; d <= hi; ++d) k[d] = 0; w[at(o, k)] = (T) (w[at(o, k)] + v[at(s, i.i)]); } return w; }
SX_ENTRY h_sum() { Dev d; int n; Ints s = pshape(n); int k = sx_pick(-n, n - 1, "dim"), f = k < 0 ? k + n : k; bool keep = sx_pick(0, 1, "keep"), def = keep && sx_choose(2, "default"); auto v = symv<float>(prod(s), "x"); Tensor x = mk(s, v); OpT op("reduce_sum"); op.set("dims", i1(k)); if (!def) op.set("keep_dims", tensor::from<bool>(keep)); want(op.run1({x}), red(s, f, f, keep), sums(s, v, f, f), "sum over the dimension"); want(x, s, v, "input left alone"); sx_reach("end"); }
SX_ENTRY h_mean() { Dev d; int n; Ints s = pshape(n); int lo = sx_pick(0, n - 1, "lo"), hi = sx_pick(lo, n - 1, "hi"); int sg = sx_pick(0, (1 << (hi - lo + 1)) - 1, "neg"); Ints ds; for (int i = lo; i <= hi; ++i) ds.push_back((sg >> (i - lo)) & 1 ? i - n : i); bool keep = sx_pick(0, 1, "keep"), sc = lo == hi && sx_choose(2, "scalar"); auto v = symv<float>(prod(s), "x"); Tensor x = mk(s, v); int c = 1; for (int i = lo; i <= hi; ++i) c *= s[i]; auto w = sums(s, v, lo, hi); for (auto &e : w) e = e / (float) c;
    OpT op("reduce_mean"); op.set("dims", sc ? i1(ds[0]) : iv(ds)).set("keep_dims", tensor::from<bool>(keep)); Tensor y; bool mixed = false; for (size_t i = 1; i < ds.size(); ++i) if ((ds[i] < 0) != (ds[0] < 0)) mixed = true;
    bool t = throws([&]() { y = op.run1({x}); }); SX_ASSERT(!t || mixed, "contiguous dimensions are accepted"); if (!t) { want(y, red(s, lo, hi, keep), w, "mean over the dimensions"); want(x, s, v, "input left alone"); } sx_reach("end"); }
template <typename T> void maxes(const Ints &s, const std::vector<T> &v, int f, std::vector<T> &m, std::vector<int> &ix) { Ints o = red(s, f, f, true); for (Ix i(o); !i.done; i.next()) { Ints k = i.i; T b = v[at(s, k)]; int bi = 0; for (int j = 1; j < s[f]; ++j) { k[f] = j; bool g = v[at(s, k)] > b; b = g ? v[at(s, k)] : b; bi = g ? j : bi; } m.push_back(b); ix.push_back(bi); } }
template <typename T> void max1(const Ints &s, int k, int f, int keep, bool arg) { auto v = symv<T>(prod(s), "x"); Tensor x = mk(s, v); std::vector<T> m; std::vector<int> ix; maxes(s, v, f, m, ix); if (arg) { OpT op("argmax"); op.set("dim", i1(k)); want(op.run1({x}), red(s, f, f, false), std::vector<int32_t>(ix.begin(), ix.end()), "first index of the largest element"); } else { OpT op("max"); op.set("dim", i1(k)); if (keep < 2) op.set("keep_dims", i1(keep)); want(op.run1({x}), red(s, f, f, keep != 0), m, "largest element"); } want(x, s, v, "input left alone"); }
static Ints mshape(int &n) { n = sx_pick(1, 3, "dims"); Ints s = pick_shape(n, 1, 3); sx_assume(prod(s) <= 6); return s; }
SX_ENTRY h_max() { Dev d; int n; Ints s = mshape(n); int k = sx_pick(-n, n - 1, "dim"), f = k < 0 ? k + n : k; max1<int32_t>(s, k, f, sx_pick(0, 2, "keep"), false); sx_reach("end"); }
SX_ENTRY h_argmax() { Dev d; int n; Ints s = mshape(n); int k = sx_pick(-n, n - 1, "dim"), f = k < 0 ? k + n : k; max1<int16_t>(s, k, f, 0, true); sx_reach("end"); }
SX_ENTRY h_softmax() { Dev d; int n = sx_pick(1, 3, "dims"); Ints s = pick_shape(n, 1, 3); sx_assume(prod(s) <= 6); int k = sx_pick(-n, n - 1, "dim"), f = k < 0 ? k + n : k; int sm = sx_pick(0, 2, "smooth"); sx_assume(sm == 0 || s[f] == 1 || prod(s) <= 4); auto v = symv<float>(prod(s), "x"); Tensor x = mk(s, v); OpT op("softmax"); op.set("dim", i1(k)); if (sm < 2) op.set("smooth", tensor::from<bool>(sm)); Tensor y = op.run1({x});
    std::vector<float> m; std::vector<int> ix; if (sm) maxes(s, v, f, m, ix); Ints o = red(s, f, f, true); std::vector<float> w(prod(s)), e(prod(s)); for (Ix i(s); !i.done; i.next()) { Ints j = i.i; j[f] = 0; int a = at(s, i.i); e[a] = std::exp(sm ? v[a] - m[at(o, j)] : v[a]); } auto t = sums(s, e, f, f); for (Ix i(s); !i.done; i.next()) { Ints j = i.i; j[f] = 0; int a = at(s, i.i); w[a] = e[a] / t[at(o, j)]; } want(y, s, w, "share of the exponentials along the dimension"); want(x, s, v, "input left alone"); sx_reach("end"); }
SX_ENTRY h_l2() { Dev d; int n = sx_pick(1, 3, "dims"); Ints s = pick_shape(n, 1, 3); sx_assume(prod(s) <= 6); int k = sx_pick(-n, n - 1, "dim"), f = k < 0 ? k + n : k; auto v = symv<float>(prod(s), "x"); float e = sx_f32("epsilon"); sx_assume(e > 0); Tensor x = mk(s, v); OpT op("l2_norm"); op.set("dim", i1(k)).set("epsilon", f1(e)); Tensor y = op.run1({x}); std::vector<float> q; for (float a : v) q.push_back(a * a); auto t = sums(s, q, f, f); Ints o = red(s, f, f, true); std::vector<float> w(prod(s)); for (Ix i(s); !i.done; i.next()) { Ints j = i.i; j[f] = 0; w[at(s, i.i)] = v[at(s, i.i)] / std::sqrt(t[at(o, j)] + e); } want(y, s, w, "element divided by the norm of its line"); want(x, s, v, "input left alone"); sx_reach("end"); }
template <typename T> void ty() { Ints s = {2, 2}; int w = sx_pick(0, 3, "op"); int k = sx_pick(0, 1, "dim"); if (w == 0 || w == 1) { auto v = symv<T>(4, "x"); OpT op(w ? "reduce_mean" : "reduce_sum"); op.set("dims", w ? iv({k}) : i1(k)).set("keep_dims", tensor::from<bool>(false)); auto r = sums(s, v, k, k); if (w) for (auto &e : r) e = (T) (e / (T) 2); want(op.run1({mk(s, v)}), {2}, r, "sum or mean"); } else max1<T>(s, k, k, 1, w == 3); }
SX_ENTRY h_types() { Dev d;
#define CALL(T) ty<T>()
    SX_ALLT(CALL)
#undef CALL
    sx_reach("end"); }
// large integers and precise doubles: no detour over a narrower type
template <typename T> void wide() { Ints s = {3}; int w = sx_pick(0, 3, "op"); auto v = edges<T>(3, "x"); Tensor x = mk(s, v); if (w < 2) { OpT op(w ? "reduce_mean" : "reduce_sum"); op.set("dims", w ? iv({0}) : i1(0)); op.set("keep_dims", tensor::from<bool>(true)); auto r = sums(s, v, 0, 0); if (w) for (auto &e : r) e = (T) (e / (T) 3); want12(op.run1({x}), {1}, r, "sum or mean"); } else { std::vector<T> m; std::vector<int> ix; maxes(s, v, 0, m, ix); OpT op(w == 2 ? "max" : "argmax"); op.set("dim", i1(0)); if (w == 2) want12(op.run1({x}), {1}, m, "largest element"); else want(op.run1({x}), {}, std::vector<int32_t>(ix.begin(), ix.end()), "index of the largest element"); } }
SX_ENTRY h_wide() { Dev d;
#define CALL(T) wide<T>()
    SX_ALLT(CALL)
#undef CALL
    sx_reach("end"); }
SX_ENTRY h_bad() { Dev d; static const char *O[] = {"reduce_sum", "reduce_mean", "max", "argmax", "softmax", "l2_norm"}; int w = sx_pick(0, 5, "op"); int n = sx_pick(0, 2, "dims"); Ints s(n, 2); int k = sx_i32("dim"); sx_assume(k < -n || k >= n); OpT op(O[w]); op.set(w < 2 ? "dims" : "dim", i1(k)); Tensor x = symt<float>(s, "x"); SX_ASSERT(throws([&]() { op.run1({x}); }), "a dimension the input does not have is rejected");
    if (w == 1) { OpT o2("reduce_mean"); int a = sx_pick(-3, 2, "a"), b = sx_pick(-3, 2, "b"), fa = a < 0 ? a + 3 : a, fb = b < 0 ? b + 3 : b; sx_assume(fb != fa + 1); o2.set("dims", iv({a, b})); SX_ASSERT(throws([&]() { o2.run1({symt<float>({2, 2, 2}, "x")}); }), "dimensions that are not contiguous are rejected"); } sx_reach("end"); }
