//@ sources: @op src/backend/base/base_new_shape.cpp src/backend/base/base_reshape.cpp src/kernels/cpu/reshape.cpp src/backend/base/base_reshape_v2.cpp src/kernels/cpu/reshape_v2.cpp src/backend/base/base_flatten.cpp src/kernels/cpu/flatten.cpp src/kernels/cpu/flatten2d.cpp src/kernels/cpu/squeeze.cpp src/backend/base/base_unsqueeze.cpp src/kernels/cpu/unsqueeze.cpp src/kernels/cpu/expand.cpp src/backend/base/base_shape.cpp src/kernels/cpu/shape.cpp src/kernels/cpu/dims.cpp src/backend/zoo/copy.cpp src/kernels/cpu/to_float.cpp
//@ entry: h_reshape reach=ok,bad
//@ entry: h_reshape3 reach=ok,bad
//@ entry: h_reshape_v2 reach=ok,bad
//@ entry: h_reshape_types reach=end
//@ entry: h_flatten reach=ok,bad
//@ entry: h_flatten2d reach=ok
//@ entry: h_squeeze reach=ok,bad
//@ entry: h_squeeze2 reach=ok,bad
//@ entry: h_unsqueeze reach=ok,bad
//@ entry: h_expand reach=ok,bad
//@ entry: h_shape reach=end
//@ entry: h_again reach=end
//@ bounds: inputs of 0..4 dims with sizes 0..4, target shapes of 0..3 entries -1..6, axes lists of up to 3 entries -4..4, expand to 0..6 dims with limits -1..3
//@ assume: element values arbitrary
//@ outside: shapes whose element count leaves 32 bits; axes named twice
#include "op.h"
template <typename T> void moved(const Tensor &y, const Ints &os, const std::vector<T> &v) { SX_ASSERT(prod(os) == (int) v.size(), "reshaping keeps the number of elements"); want(y, os, v, "element keeps its place in the sequence"); }
// the shape asked for: 0 keeps the size of the input, one negative entry takes what is left
static bool asked(const Ints &s, Ints t, bool v2, Ints &os) { int open = -1, n = prod(s), rest = 1; for (size_t i = 0; i < t.size(); ++i) { if (t[i] == 0) { if (i >= s.size()) return false; t[i] = s[i]; if (v2 && t[i] == 0) return false; } if (t[i] < 0) { if (open >= 0) return false; open = (int) i; } else rest *= t[i]; }
    if (open >= 0) { if (rest == 0 || n % rest) return false; t[open] = n / rest; } os = t; return prod(t) == n; }
template <typename T> void reshape(const Ints &s, const Ints &t, bool v2) { Ints os; bool ok = asked(s, t, v2, os); auto v = symv<T>(prod(s), "x"); Tensor x = mk(s, v), y; bool th = throws([&]() { if (v2) { OpT op("_reshape_v2"); y = op.run1({x, iv(t)}); } else { OpT op("_reshape"); op.set("shape", iv(t)); y = op.run1({x}); } });
    SX_ASSERT(th == !ok, "accepted exactly when the elements fit"); SX_ASSERT(ints(x.sizes()) == s, "the input keeps its shape"); if (th) { sx_reach("bad"); return; } moved<T>(y, os, v); sx_reach("ok"); }
static Ints target(int m, int lo, int hi) { Ints t; for (int i = 0; i < m; ++i) t.push_back(sx_pick(lo, hi, "to")); return t; }
SX_ENTRY h_reshape() { Dev d; Ints s = pick_shape(sx_pick(0, 2, "dims"), 0, 4); Ints t = target(sx_pick(0, 2, "to"), -1, 6); reshape<float>(s, t, false); }
SX_ENTRY h_reshape3() { Dev d; bool v2 = sx_choose(2, "v2"); Ints s = {sx_pick(1, 3, "a"), sx_pick(0, 2, "b"), 2}; Ints t = target(3, -1, SXT(3, 6)); reshape<float>(s, t, v2); }
SX_ENTRY h_reshape_v2() { Dev d; Ints s = pick_shape(sx_pick(0, 2, "dims"), 0, 4); Ints t = target(sx_pick(0, 2, "to"), -1, 6); reshape<float>(s, t, true); }
SX_ENTRY h_reshape_types() { Dev d; bool v2 = sx_choose(2, "v2");
#define CALL(T) reshape<T>({2, 3, 2}, {-1, 3}, v2)
    SX_ALLT(CALL)
#undef CALL
    sx_reach("end"); }
SX_ENTRY h_flatten() { Dev d; Ints s = pick_shape(sx_pick(0, 4, "dims"), 0, 2), os = s; int dim = sx_pick(-6, 5, "dim"), n = (int) s.size(), a = dim < 0 ? dim + n : dim; bool def = dim == 1 && sx_choose(2, "default"); bool ok = a >= 0; auto v = symv<float>(prod(s), "x"); Tensor x = mk(s, v), y;
    if (ok) { while ((int) os.size() < a + 1) os.push_back(1); while ((int) os.size() > a + 1) { int k = os.back(); os.pop_back(); os.back() *= k; } }
    if (!ok && n == 0 && dim == -1) { ok = true; os = {}; }
    bool th = throws([&]() { OpT op("flatten"); if (!def) op.set("dim", i1(dim)); y = op.run1({x}); }); SX_ASSERT(th == !ok, "accepted exactly when the dimension exists or may be appended"); if (th) { sx_reach("bad"); return; } moved<float>(y, os, v); sx_reach("ok"); }
SX_ENTRY h_flatten2d() { Dev d; Ints s = pick_shape(sx_pick(0, 4, "dims"), 0, 2); int dim = sx_pick(-6, 5, "dim"), n = (int) s.size(), a = dim < 0 ? dim + n : dim; if (a < 0) a = 0; if (a > n) a = n; Ints os = {prod(Ints(s.begin(), s.begin() + a)), prod(Ints(s.begin() + a, s.end()))}; auto v = symv<float>(prod(s), "x"); OpT op("flatten2d"); if (dim != 1 || sx_choose(2, "default")) op.set("dim", i1(dim)); Tensor y = op.run1({mk(s, v)}); moved<float>(y, os, v); sx_reach("ok"); }
static void squeeze(const Ints &s, const Ints &axes, bool set) { Ints os; std::vector<bool> gone(s.size(), false); bool ok = true; int n = (int) s.size(); if (axes.empty()) for (int i = 0; i < n; ++i) gone[i] = s[i] == 1; else for (int a : axes) { int k = a < 0 ? a + n : a; if (k < 0 || k >= n || s[k] != 1) { ok = false; continue; } if (gone[k]) return; gone[k] = true; }
    for (int i = 0; i < n; ++i) if (!gone[i]) os.push_back(s[i]); auto v = symv<float>(prod(s), "x"); Tensor x = mk(s, v), y; bool th = throws([&]() { OpT op("squeeze"); if (set) op.set("axes", iv(axes)); y = op.run1({x}); }); SX_ASSERT(th == !ok, "accepted exactly when every axis named has size one"); if (th) { sx_reach("bad"); return; } moved<float>(y, os, v); sx_reach("ok"); }
SX_ENTRY h_squeeze() { Dev d; Ints s = pick_shape(sx_pick(0, 4, "dims"), 0, 2); int m = sx_pick(-1, 1, "axes"); squeeze(s, m == 1 ? Ints{sx_pick(-5, 4, "axis")} : Ints(), m >= 0); }
SX_ENTRY h_squeeze2() { Dev d; Ints s = pick_shape(sx_pick(2, 4, "dims"), 1, 2); int a = sx_pick(-4, 3, "a"), b = sx_pick(-4, 3, "b"); squeeze(s, {a, b}, true); }
SX_ENTRY h_unsqueeze() { Dev d; Ints s = pick_shape(sx_pick(0, 2, "dims"), 0, 2), os = s, axes = target(sx_pick(0, 2, "axes"), -4, 4); bool scalar = axes.size() == 1 && sx_choose(2, "scalar"), ok = true; for (int a : axes) { int n = (int) os.size(), k = a < 0 ? a + n + 1 : a; if (k < 0 || k > n) { ok = false; break; } os.insert(os.begin() + k, 1); }
    auto v = symv<float>(prod(s), "x"); Tensor x = mk(s, v), y; bool th = throws([&]() { OpT op("unsqueeze"); op.set("axes", scalar ? i1(axes[0]) : iv(axes)); y = op.run1({x}); }); SX_ASSERT(th == !ok, "accepted exactly when every place exists"); if (th) { sx_reach("bad"); return; } moved<float>(y, os, v); sx_reach("ok"); }
SX_ENTRY h_expand() { Dev d; Ints s = pick_shape(sx_pick(0, 3, "dims"), 2, 2), os = s; int to = sx_pick(-1, 6, "to"), f = sx_pick(-1, 3, "front"), e = sx_pick(-1, 3, "end"); bool inv = sx_choose(2, "inverse"); int need = to - (int) s.size(), a = 0, b = 0; 
    if (need > 0) { int &first = inv ? b : a, &second = inv ? a : b, fl = inv ? e : f, sl = inv ? f : e; first = fl < 0 || fl > need ? need : fl; second = sl < 0 || sl > need - first ? need - first : sl; } bool ok = to >= 0 && (need <= 0 || a + b == need);
    if (to < 0) return; os.insert(os.begin(), a, 1); os.insert(os.end(), b, 1); auto v = symv<float>(prod(s), "x"); Tensor x = mk(s, v), y; bool th = throws([&]() { OpT op("_expand"); op.set("front", i1(f)).set("end", i1(e)).set("inverse", tensor::from<bool>(inv)); y = op.run1({x, i1(to)}); }); SX_ASSERT(th == !ok, "accepted exactly when the limits allow it"); if (th) { sx_reach("bad"); return; } moved<float>(y, os, v); sx_reach("ok"); }
SX_ENTRY h_shape() { Dev d; Ints s = pick_shape(sx_pick(0, 4, "dims"), 0, 3); Tensor x = symt<uint8_t>(s, "x"); std::vector<int32_t> w(s.begin(), s.end()); OpT a("_shape"), b("_dims"), c("_copy"); want(a.run1({x}), {(int) s.size()}, w, "shape"); want(b.run1({x}), {}, std::vector<int32_t>{(int) s.size()}, "number of dimensions"); c.set("#output_count", i1(1)); Tensor y = c.run1({x}); want_shape(y, s, "copy"); sx_reach("end"); }
// one operator used for inputs of different shapes
SX_ENTRY h_again() { Dev d; OpT r("_reshape"), f("flatten"), q("squeeze"), u("unsqueeze"); r.set("shape", iv({0, -1})); f.set("dim", i1(-2)); q.set("axes", iv({-2})); u.set("axes", iv({-1})); for (int k = 0; k < 3; ++k) { int n = sx_pick(2, 4, "dims"); Ints s(n, 2); s[n - 2] = 1; s[0] = n == 2 ? 1 : 3; auto v = symv<float>(prod(s), "x"); Tensor x = mk(s, v); moved<float>(r.run1({x}), {s[0], prod(s) / s[0]}, v); Ints fs(s.begin(), s.end() - 1), qs = s, us = s; fs.back() *= s.back(); qs.erase(qs.end() - 2); us.push_back(1); moved<float>(f.run1({x}), fs, v); moved<float>(q.run1({x}), qs, v); moved<float>(u.run1({x}), us, v); } sx_reach("end"); }
