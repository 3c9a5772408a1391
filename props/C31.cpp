//@ sources: @runtime !src/runtime/inside/thread_pool.cpp !src/runtime/inside/parallel.cpp !src/module/io/fstream.cpp src/kernels/cpu/math_cpu.cpp src/backend/base/base_gather.cpp src/kernels/cpu/gather.cpp src/backend/base/base_gatherv2.cpp src/kernels/cpu/gatherv2.cpp src/backend/base/base_gather_elements.cpp src/kernels/cpu/gather_elements.cpp src/backend/base/base_scatter_nd.cpp src/kernels/cpu/scatter_nd.cpp src/backend/base/base_where.cpp src/kernels/cpu/where.cpp src/kernels/cpu/range.cpp src/backend/base/base_topkv2.cpp src/kernels/cpu/topkv2.cpp src/backend/base/base_non_max_suppression_v3.cpp src/kernels/cpu/non_max_suppression_v3.cpp src/kernels/cpu/constant_of_shape.cpp src/backend/base/base_cast_v2.cpp src/kernels/cpu/cast.cpp
//@ entry: h_gather reach=ok,bad
//@ entry: h_gather2 reach=ok,bad
//@ entry: h_gather_types reach=end
//@ entry: h_gatherv2 reach=ok,bad
//@ entry: h_elements reach=ok,bad
//@ entry: h_scatter reach=ok,bad
//@ entry: h_where reach=ok,bad
//@ entry: h_where_cond reach=end
//@ entry: h_range reach=ok,bad
//@ entry: h_range_float reach=end
//@ entry: h_topk reach=end
//@ entry: h_topk_types reach=end
//@ entry: h_nms reach=end
//@ entry: h_nms_bad reach=ok,bad
//@ entry: h_fill reach=ok,bad
//@ stub: ThreadPool (nothing is scheduled on it), CPU feature detection (all present)
//@ bounds: inputs of up to 3 dims with sizes 0..3, indices -4..4 of up to 2 dims, every axis, every element type; ranges over -4..4 with steps -3..3; 2-4 candidate boxes with corners at a few places, with every order of scores and every threshold between them
//@ assume: element values arbitrary; scores compared are distinct
//@ outside: order of equal values in topkv2 and non_max_suppression_v3; NaN
#include "bench.h"
static Tensor ti(const Ints &s, const Ints &v) { return mk<int32_t>(s, std::vector<int32_t>(v.begin(), v.end())); }
static Ints drawn(int n, int lo, int hi) { Ints v; for (int i = 0; i < n; ++i) v.push_back(sx_pick(lo, hi, "index")); return v; }
static Ints cut(const Ints &s, int a, int b) { return Ints(s.begin() + a, s.begin() + b); }
static Ints cat(Ints a, const Ints &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static void keep(const Tensor &t, const Ints &v, const char *m) { for (size_t i = 0; i < v.size(); ++i) SX_ASSERT(t.data<int32_t>()[i] == v[i], m); }
template <typename T> void gather(const Ints &s, int axis, const Ints &is, const Ints &ix) {
    int n = (int) s.size(), a = axis < 0 ? axis + n : axis; auto v = symv<T>(prod(s), "x"); Tensor x = mk(s, v), ti_ = ti(is, ix); bool ok = a >= 0 && a < n;
    if (ok) for (int i : ix) if (i < -s[a] || i >= s[a]) ok = false;
    Tensor y; bool t = throws([&]() { OpT op("gather"); op.set("axis", i1(axis)); y = op.run1({x, ti_}); });
    SX_ASSERT(t == !ok, "accepted exactly when every index lies inside the axis"); keep(ti_, ix, "the indices are left as they were");
    if (t) { sx_reach("bad"); return; }
    Ints os = cat(cat(cut(s, 0, a), is), cut(s, a + 1, n)); std::vector<T> w;
    for (Ix o(os); !o.done; o.next()) { Ints f = cut(o.i, a, a + (int) is.size()); int k = ix[is.empty() ? 0 : at(is, f)]; if (k < 0) k += s[a];
        w.push_back(v[at(s, cat(cat(cut(o.i, 0, a), {k}), cut(o.i, a + (int) is.size(), (int) os.size())))]); }
    want(y, os, w, "gathered element"); sx_reach("ok");
}
SX_ENTRY h_gather() { Dev d; Ints s = pick_shape(sx_pick(1, 3, "dims"), 1, SXT(2, 3)); int axis = sx_pick(-4, 3, "axis"); Ints is = pick_shape(sx_pick(0, 1, "idims"), 1, 2); int n = prod(is), m = s.size() == 3 ? -1 : -3; gather<float>(s, axis, is, drawn(n, m, s.size() == 3 ? 1 : 3)); }
SX_ENTRY h_gather2() { Dev d; Ints s = pick_shape(sx_pick(1, 2, "dims"), 1, 2); int axis = sx_pick(-2, 1, "axis"); Ints is = pick_shape(2, 1, 2); int n = prod(is); Ints v = drawn(1, -2, 1); if (n > 1) v.push_back(sx_pick(-1, 0, "i")); if (n > 2) v.push_back(sx_pick(-1, 1, "i")); while ((int) v.size() < n) v.push_back(0); gather<float>(s, axis, is, v); }
SX_ENTRY h_gather_types() { Dev d;
    int axis = sx_pick(-3, 2, "axis"); Ints ix = drawn(2, -2, 1);
#define CALL(T) gather<T>({2, 3, 2}, axis, {2}, ix)
    SX_ALLT(CALL)
#undef CALL
    sx_reach("end"); }
template <typename T> void gathernd(const Ints &s, const Ints &is, const Ints &ix) {
    auto v = symv<T>(prod(s), "x"); Tensor x = mk(s, v), ti_ = ti(is, ix); int k = is.back(), n = (int) s.size(); bool ok = k <= n && k >= 0;
    if (ok) for (size_t i = 0; i < ix.size(); ++i) if (ix[i] < 0 || ix[i] >= s[i % k]) ok = false;
    Tensor y; bool t = throws([&]() { OpT op("gatherv2"); y = op.run1({x, ti_}); });
    SX_ASSERT(t == !ok, "accepted exactly when every coordinate lies inside the input"); keep(ti_, ix, "the coordinates are left as they were");
    if (t) { sx_reach("bad"); return; }
    Ints os = cat(cut(is, 0, (int) is.size() - 1), cut(s, k, n)); std::vector<T> w; int m = (int) is.size() - 1;
    for (Ix o(os); !o.done; o.next()) { Ints c; Ints l = cut(o.i, 0, m); int b = m ? at(cut(is, 0, m), l) : 0; for (int j = 0; j < k; ++j) c.push_back(ix[b * k + j]); w.push_back(v[at(s, cat(c, cut(o.i, m, (int) os.size())))]); }
    want(y, os, w, "gathered slice"); sx_reach("ok");
}
SX_ENTRY h_gatherv2() { Dev d; int n = sx_pick(1, 3, "dims"); Ints s = n == 3 ? Ints{2, 1, 2} : pick_shape(n, 1, 2); int k = sx_pick(1, (int) s.size() + 1, "depth"); int m = sx_pick(0, 2, "idims"); Ints is; if (m > 0) is.push_back(sx_pick(1, k > 2 ? 1 : 2, "n")); if (m > 1) is.push_back(1); is.push_back(k);
    if (k == 1 && sx_choose(2, "type")) gathernd<int64_t>(s, is, drawn(prod(is), -1, 2)); else gathernd<float>(s, is, drawn(prod(is), k > 2 ? 0 : -1, 2)); }
template <typename T> void elements(const Ints &s, int axis, Ints is, const Ints &ix) {
    int n = (int) s.size(), a = axis < 0 ? axis + n : axis; auto v = symv<T>(prod(s), "x"); Tensor x = mk(s, v), ti_ = ti(is, ix); bool ok = a >= 0 && a < n; Ints os = is; if (ok && (int) is.size() == n - 1) is.insert(is.begin() + a, 1); ok = ok && (int) is.size() == n;
    if (ok) for (int k = 0; k < n; ++k) if (k != a && is[k] > s[k]) ok = false;
    if (ok) for (int i : ix) if (i < -s[a] || i >= s[a]) ok = false;
    Tensor y; bool t = throws([&]() { OpT op("gather_elements"); op.set("axis", i1(axis)); y = op.run1({x, ti_}); });
    SX_ASSERT(t == !ok, "accepted exactly when every index names an element"); keep(ti_, ix, "the indices are left as they were");
    if (t) { sx_reach("bad"); return; }
    std::vector<T> w; for (Ix o(is); !o.done; o.next()) { Ints c = o.i; int k = ix[at(is, o.i)]; c[a] = k < 0 ? k + s[a] : k; w.push_back(v[at(s, c)]); }
    want(y, os, w, "gathered element"); sx_reach("ok");
}
SX_ENTRY h_elements() { Dev d; int n = sx_pick(1, 2, "dims"); Ints s = pick_shape(n, 1, 2), is = pick_shape(sx_choose(4, "mixed") ? n : 3 - n, 1, 2); int axis = sx_pick(-3, 2, "axis"); int m = prod(is);
    Ints ix = m > 2 ? cat(drawn(2, -2, 1), Ints(m - 2, 0)) : drawn(m, -3, 2); if (n == 1) elements<int16_t>(s, axis, is, ix); else elements<float>(s, axis, is, ix); }
template <typename T> void scatter(const Ints &s, int n, const Ints &ix, bool col, int rows) {
    auto v = symv<T>(prod(s), "x"); Ints us = s; us[0] = rows; auto u = symv<T>(prod(us), "u"); Tensor x = mk(s, v), t_ = mk(us, u), i_ = col ? ti({n, 1}, ix) : ti({n}, ix);
    bool ok = n == rows; for (int i : ix) if (i < 0 || i >= s[0]) ok = false;
    Tensor y; bool t = throws([&]() { OpT op("scatter_nd"); y = op.run1({x, i_, t_}); });
    SX_ASSERT(t == !ok, "accepted exactly when every index names a row and has an update"); keep(i_, ix, "the indices are left as they were"); want(x, s, v, "the data is left as it was");
    if (t) { sx_reach("bad"); return; }
    int b = prod(s) / s[0]; std::vector<T> w = v; for (int i = 0; i < n; ++i) for (int j = 0; j < b; ++j) w[ix[i] * b + j] = u[i * b + j];
    want(y, s, w, "scattered element"); sx_reach("ok");
}
SX_ENTRY h_scatter() { Dev d; Ints s = {sx_pick(1, 3, "rows"), 2, 1}; s.resize(sx_pick(1, 3, "dims")); int n = sx_pick(1, 2, "n"); bool col = sx_choose(2, "col"); int rows = sx_choose(4, "rows") ? n : 3 - n;
    if (sx_choose(2, "type")) scatter<double>(s, n, drawn(n, -1, 3), col, rows); else scatter<uint8_t>(s, n, drawn(n, -1, 3), col, rows); }
template <typename T> void where_(const Ints &c, const Ints &a, const Ints &b) {
    size_t n = std::max(c.size(), std::max(a.size(), b.size())); auto up = [&](const Ints &x) { Ints r(n - x.size(), 1); r.insert(r.end(), x.begin(), x.end()); return r; };
    Ints C = up(c), A = up(a), B = up(b), os; bool ok = true; for (size_t k = 0; k < n; ++k) { int m = C[k] != 1 ? C[k] : A[k] != 1 ? A[k] : B[k]; os.push_back(m); if ((C[k] != 1 && C[k] != m) || (A[k] != 1 && A[k] != m) || (B[k] != 1 && B[k] != m)) ok = false; }
    auto va = symv<T>(prod(a), "a"), vb = symv<T>(prod(b), "b"); std::vector<uint8_t> vc; for (int i = 0; i < prod(c); ++i) vc.push_back((uint8_t) sx_pick(0, 1, "c"));
    Tensor tc(BOOLEAN, shp(c)); for (size_t i = 0; i < vc.size(); ++i) tc.data<uint8_t>()[i] = vc[i];
    Tensor y; bool t = throws([&]() { OpT op("where"); y = op.run1({tc, mk(a, va), mk(b, vb)}); });
    SX_ASSERT(t == !ok, "accepted exactly when the shapes broadcast"); if (t) { sx_reach("bad"); return; }
    std::vector<T> w; auto m = [&](const Ints &i, const Ints &s) { Ints r = i; for (size_t k = 0; k < n; ++k) if (s[k] == 1) r[k] = 0; return at(s, r); };
    for (Ix o(os); !o.done; o.next()) w.push_back(vc[m(o.i, C)] ? va[m(o.i, A)] : vb[m(o.i, B)]);
    want(y, os, w, "chosen element"); sx_reach("ok");
}
SX_ENTRY h_where() { Dev d; int nc = sx_pick(0, 2, "dims"), na = sx_pick(0, 2, "dims"), nb = sx_pick(0, 1, "dims"); Ints c = pick_shape(nc, 0, 2), a = pick_shape(na, 0, 2), b = pick_shape(nb, 0, 2); if (prod(c) > 2) { a = c; b = {c[1]}; }
    where_<float>(c, a, b); }
template <typename T> static void wc() { auto va = symv<T>(2, "a"), vb = symv<T>(2, "b"); static const int set[5] = {0, 1, 256, -1, INT32_MIN}; std::vector<int32_t> c; for (int i = 0; i < 2; ++i) c.push_back(set[sx_pick(0, 4, "c")]); OpT op("where"); Tensor y = op.run1({mk<int32_t>({2}, c), mk<T>({2}, va), mk<T>({2}, vb)}); for (int i = 0; i < 2; ++i) dt<T>::eq(y.data<T>()[i], c[i] != 0 ? va[i] : vb[i], "every number other than zero chooses the first"); SX_ASSERT(y.dtype() == dt<T>::v, "type"); }
SX_ENTRY h_where_cond() { Dev d; Workbench b(ComputingDevice(CPU, 0)); ctx::bind<Workbench> bb(b);
#define CALL(T) wc<T>()
    SX_ALLT(CALL)
#undef CALL
    bool t = throws([&]() { OpT op("where"); op.run1({ti({1}, {1}), ti({1}, {1}), f1(1)}); }); SX_ASSERT(t, "different types are refused"); sx_reach("end"); }
template <typename T> void range_(T a, T b, T s) { std::vector<T> w; if (s > 0) for (T i = a; i < b; i = (T) (i + s)) w.push_back(i); else if (s < 0) for (T i = a; i > b; i = (T) (i + s)) w.push_back(i);
    Tensor y; bool t = throws([&]() { OpT op("range"); y = op.run1({mk<T>({}, {a}), mk<T>({}, {b}), mk<T>({}, {s})}); });
    SX_ASSERT(t == (s == 0), "refused exactly when the step is zero"); if (t) { sx_reach("bad"); return; } want(y, {(int) w.size()}, w, "element of the range"); sx_reach("ok"); }
SX_ENTRY h_range() { Dev d; int a = sx_pick(-4, 4, "start"), b = sx_pick(-4, 4, "limit"), s = sx_pick(-3, 3, "step"); bool pos = a >= 0 && b >= 0 && s >= 0;
    switch (sx_choose(6, "type")) { case 0: range_<int32_t>(a, b, s); break; case 1: range_<int64_t>(a, b, s); break; case 2: range_<float>(a * 0.5f, b * 0.5f, s * 0.25f); break; case 3: range_<int8_t>(a, b, s); break; case 4: if (pos) range_<uint32_t>(a, b, s); break; default: if (pos) range_<uint8_t>(a, b, s); } }
SX_ENTRY h_range_float() { Dev d; int n = sx_pick(0, 3, "n"); double s = sx_choose(2, "down") ? -1.5 : 1.5, a = sx_pick(-2, 2, "start") * 0.75, e = sx_pick(0, 2, "rest") * 0.5 * (s > 0 ? 1 : -1); std::vector<double> w; for (int i = 0; i < n; ++i) w.push_back(a + i * s); if (e != 0) w.push_back(a + n * s);
    OpT op("range"); want(op.run1({mk<double>({1}, {a}), mk<double>({1}, {a + n * s + e}), mk<double>({1}, {s})}), {(int) w.size()}, w, "element of the range"); sx_reach("end"); }
template <typename T> void topk(const Ints &s, int K, bool sorted) { int W = s.back(), N = prod(s) / W; auto v = symv<T>(prod(s), "x"); for (int n = 0; n < N; ++n) for (int i = 0; i < W; ++i) for (int j = 0; j < i; ++j) sx_assume(v[n * W + i] < v[n * W + j] || v[n * W + i] > v[n * W + j]);
    OpT op("topkv2"); op.set("number", i1(K)).set("sorted", i1(sorted)); Tensor y = op.run1({mk(s, v)}); SX_ASSERT(y.fields_count() == 2, "values and indices"); Tensor val = y.field(0), ix = y.field(1); int k = std::min(K, W); Ints os = s; os.back() = k;
    SX_ASSERT(val.dtype() == dt<T>::v && ix.dtype() == INT32 && ints(val.sizes()) == os && ints(ix.sizes()) == os, "types and shapes");
    for (int n = 0; n < N; ++n) for (int i = 0; i < k; ++i) { int p = sx_concretize(ix.data<int32_t>()[n * k + i]); SX_ASSERT(p >= 0 && p < W, "index in the row"); dt<T>::eq(val.data<T>()[n * k + i], v[n * W + p], "the value at the index"); int g = 0; for (int j = 0; j < W; ++j) if (v[n * W + j] > v[n * W + p]) ++g; SX_ASSERT(g == i, "exactly i values are greater than the i-th"); } }
SX_ENTRY h_topk() { Dev d; int n = sx_pick(1, 2, "dims"); Ints s = n == 1 ? Ints{sx_pick(1, SXT(3, 4), "w")} : Ints{2, 2}; topk<float>(s, sx_pick(1, 4, "k"), sx_choose(2, "sorted")); sx_reach("end"); }
SX_ENTRY h_topk_types() { Dev d;
#define CALL(T) topk<T>({2}, 2, true)
    SX_ALLT(CALL)
#undef CALL
    { float f = sx_f32("x"); OpT op("topkv2"); op.set("number", i1(3)); Tensor y = op.run1({f1(f)}); SX_ASSERT(y.fields_count() == 2, "fields"); dt<float>::eq(y.field(0).data<float>()[0], f, "scalar"); SX_ASSERT(y.field(1).data<int32_t>()[0] == 0, "scalar"); }
    bool t = throws([&]() { OpT op("topkv2"); op.set("number", i1(sx_pick(-2, -1, "k"))); op.run1({mk<float>({2}, {1, 2})}); }); SX_ASSERT(t, "a negative number is refused");
    sx_reach("end"); }
// ---- greedy selection by score; boxes overlapping a selected one too much are dropped
static bool over(const float *a, const float *b, bool xyxy, float thr) { float lo[2][2], hi[2][2]; const float *p[2] = {a, b}; for (int k = 0; k < 2; ++k) for (int d = 0; d < 2; ++d) { float u = p[k][d], w = xyxy ? p[k][d + 2] : p[k][d] + p[k][d + 2]; lo[k][d] = u < w ? u : w; hi[k][d] = u < w ? w : u; }
    float area[2], in = 1; for (int k = 0; k < 2; ++k) area[k] = (hi[k][0] - lo[k][0]) * (hi[k][1] - lo[k][1]); if (!(area[0] > 0) || !(area[1] > 0)) return false;
    for (int d = 0; d < 2; ++d) { float l = lo[0][d] > lo[1][d] ? lo[0][d] : lo[1][d], h = hi[0][d] < hi[1][d] ? hi[0][d] : hi[1][d]; in *= h > l ? h - l : 0; } return in > thr * (area[0] + area[1] - in); }
SX_ENTRY h_nms() { Dev d; int n = sx_pick(1, 3, "boxes"), K = sx_pick(1, 4, "max"); bool xyxy = sx_choose(2, "mode"); static const float set[4][4] = {{0, 0, 4, 4}, {0, 2, 4, 4}, {3, 3, 1, 1}, {4, 4, 0, 0}}; std::vector<float> b; for (int i = 0; i < n; ++i) { int k = i ? sx_pick(0, 3, "box") : 0; for (int j = 0; j < 4; ++j) b.push_back(set[k][j]); }
    std::vector<float> s; for (int i = 0; i < n; ++i) { float v = (float) sx_pick(0, n - 1, "score") - 0.5f; for (float w : s) if (w == v) return; s.push_back(v); } float thr = sx_choose(2, "iou") ? 0.5f : 0.25f, st = (float) sx_pick(-1, n - 1, "floor");
    OpT op("non_max_suppression_v3"); op.set("max_output_size", i1(K)).set("iou_threshold", f1(thr)).set("score_threshold", f1(st)).set("mode", tensor::from(std::string(xyxy ? "xyxy" : "xywh")));
    Tensor y = op.run1({mk<float>({n, 4}, b), mk<float>({n}, s)}); SX_ASSERT(y.dtype() == INT32 && ints(y.sizes()) == Ints{K}, "result");
    Ints ord; for (int i = 0; i < n; ++i) ord.push_back(i); for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (s[ord[j]] > s[ord[i]]) std::swap(ord[i], ord[j]);
    Ints sel; for (int i : ord) { if ((int) sel.size() >= K || !(s[i] > st)) break; bool drop = false; for (int j : sel) if (over(&b[4 * i], &b[4 * j], xyxy, thr)) drop = true; if (!drop) sel.push_back(i); }
    while ((int) sel.size() < K) sel.push_back(-1); for (int i = 0; i < K; ++i) SX_ASSERT(y.data<int32_t>()[i] == sel[i], "selected box"); sx_reach("end"); }
SX_ENTRY h_nms_bad() { Dev d; int n = sx_pick(1, 2, "n"), m = sx_pick(1, 3, "m"), q = sx_pick(3, 5, "q"); bool dbl = sx_choose(2, "scores"); bool rank = sx_choose(2, "rank"); bool ok = n == m && q == 4 && !dbl && !rank; Tensor y;
    OpT op("non_max_suppression_v3"); op.set("max_output_size", i1(2)).set("iou_threshold", f1(0.5f)).set("score_threshold", f1(0)).set("mode", tensor::from(std::string("xyxy")));
    Tensor s = dbl ? mk<double>({m}, std::vector<double>(m, 1)) : mk<float>({m}, std::vector<float>(m, 1)); if (rank) s = s.reshape({1, m});
    bool infer = sx_choose(2, "infer"); bool t = throws([&]() { y = op.run1({mk<float>({n, q}, std::vector<float>(n * q, 1)), s}, infer); }); SX_ASSERT(t == !ok, "accepted exactly when every box has one score"); sx_reach(t ? "bad" : "ok"); }
template <typename T> static void fill_(const Ints &s, bool one) { T v = dt<T>::sym("value"); Tensor y; OpT op("constant_of_shape"); op.set("value", one ? mk<T>({1}, {v}) : mk<T>({}, {v})); bool neg = false; for (int i : s) if (i < 0) neg = true; bool t = throws([&]() { y = op.run1({iv(s)}); }); SX_ASSERT(t == neg, "refused exactly when a size is negative"); if (t) { sx_reach("bad"); return; } want(y, s, std::vector<T>(prod(s), v), "every element is the value"); sx_reach("ok"); }
SX_ENTRY h_fill() { Dev d; Ints s; int n = sx_pick(1, 2, "dims"); for (int i = 0; i < n; ++i) s.push_back(sx_pick(-1, 3, "size")); bool one = sx_choose(2, "one");
#define CALL(T) fill_<T>(s, one)
    SX_ALLT(CALL)
#undef CALL
    { OpT op("constant_of_shape"); Tensor y = op.run1({iv({2})}); want(y, {2}, std::vector<float>(2, 0.f), "zero when no value is given"); } }
