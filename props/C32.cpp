//@ sources: @op src/backend/base/base_pad.cpp src/kernels/cpu/pad_cpu.cpp src/kernels/cpu/pad2d_algorithm.cpp src/backend/base/base_tile.cpp src/backend/base/base_tile_v2.cpp src/kernels/cpu/tile.cpp src/backend/base/base_broadcast_v2.cpp src/kernels/cpu/broadcast_v2.cpp src/backend/base/base_spacetobatch4d.cpp src/kernels/cpu/spacetobatch4d.cpp src/backend/base/base_batchtospace4d.cpp src/kernels/cpu/batchtospace4d.cpp src/backend/zoo/crop_nd.cpp src/backend/zoo/divided.cpp src/backend/zoo/limit.cpp src/backend/zoo/nhwc_center_crop2d.cpp src/kernels/cpu/crop_to.cpp src/backend/base/base_force_color.cpp src/kernels/cpu/force_color.cpp src/backend/base/base_force_gray.cpp src/kernels/cpu/force_gray.cpp src/module/bubble.cpp
//@ entry: h_pad reach=ok
//@ entry: h_pad4 reach=ok
//@ entry: h_pad4_two reach=ok
//@ entry: h_pad4_wide reach=ok
//@ entry: h_pad_empty reach=end
//@ entry: h_pad_types reach=end
//@ entry: h_pad_bad reach=end
//@ entry: h_crop_nd reach=ok,bad
//@ entry: h_crop_to reach=ok,bad
//@ entry: h_crop_twice reach=end
//@ entry: h_divided reach=ok,bad
//@ entry: h_limit reach=ok,bad
//@ entry: h_center reach=ok
//@ entry: h_tile reach=ok,bad
//@ entry: h_tile_types reach=end
//@ entry: h_broadcast reach=ok,bad
//@ entry: h_broadcast_wide reach=end
//@ entry: h_s2b reach=ok,bad
//@ entry: h_b2s reach=ok,bad
//@ entry: h_round reach=end
//@ entry: h_space_types reach=end
//@ entry: h_color reach=ok,bad
//@ bounds: inputs of up to 4 dims with sizes 0..3 (rows of 13 for the copies of long rows), pads -4..4 per side (two sides at a time in 4 dims), targets -1..5, repeats -1..3, blocks 1..3; every element type where values are moved
//@ assume: element values arbitrary (floating point values broadcast are fixed numbers)
//@ outside: the value of a gray pixel beyond the weighted sum of real numbers
#include "op.h"
// every element of the result is the input element at its place, or the padding value
template <typename T> void padded(const Tensor &y, const Ints &s, const std::vector<T> &v, const Ints &pads, const Ints &os, T value) {
    std::vector<T> w; for (Ix o(os); !o.done; o.next()) { Ints c; bool in = true; for (size_t k = 0; k < s.size(); ++k) { c.push_back(o.i[k] - pads[2 * k]); if (c[k] < 0 || c[k] >= s[k]) in = false; } w.push_back(in ? v[at(s, c)] : value); }
    want(y, os, w, "padded element"); }
static Ints grown(const Ints &s, const Ints &pads) { Ints os; for (size_t k = 0; k < s.size(); ++k) { int n = s[k] + pads[2 * k] + pads[2 * k + 1]; os.push_back(pads[2 * k] + pads[2 * k + 1] != 0 && n < 1 ? 1 : n); } return os; }
static Tensor pairs(const Ints &p) { return mk<int32_t>({(int) p.size() / 2, 2}, std::vector<int32_t>(p.begin(), p.end())); }
template <typename T> void pad(const Ints &s, const Ints &pads, bool def = false) { auto v = symv<T>(prod(s), "x"); Tensor x = mk(s, v); OpT op("pad"); int value = def ? 0 : 3; if (!def) op.set("padding_value", f1(3)); Tensor y = op.run1({x, pairs(pads)}); padded<T>(y, s, v, pads, grown(s, pads), T(value)); sx_reach("ok"); }
SX_ENTRY h_pad() { Dev d; int n = sx_pick(1, SXT(2, 3), "dims"); Ints s = pick_shape(n, 1, 3), p; int r = n == 1 ? 5 : n == 2 ? 2 : 1; for (int k = 0; k < 2 * n; ++k) p.push_back(sx_pick(-r, r, "pad")); pad<float>(s, p, sx_choose(2, "default")); }
SX_ENTRY h_pad4() { Dev d; Ints s = {2, 2, 2, 2}, p(8, 0); int k = sx_pick(0, 3, "dim"); s[k] = sx_pick(1, 3, "size"); p[2 * k] = sx_pick(-4, 4, "before"); p[2 * k + 1] = sx_pick(-4, 4, "after"); pad<float>(s, p); }
SX_ENTRY h_pad4_two() { Dev d; Ints s = {1, 2, 2, 1}, p(8, 0); int k = sx_pick(0, 3, "dim"), l = sx_pick(0, 3, "other"); if (k == l) return; s[k] = 2; s[l] = sx_pick(1, 2, "size"); p[2 * k] = sx_pick(-2, 2, "before"); p[2 * k + 1] = sx_pick(-1, 2, "after"); p[2 * l] = sx_pick(-2, 2, "before"); p[2 * l + 1] = sx_pick(-1, 2, "after"); pad<float>(s, p); }
SX_ENTRY h_pad4_wide() { Dev d; Ints s = {1, 1, 2, sx_pick(11, 15, "size")}, p(8, 0); p[4] = sx_pick(-1, 1, "top"); p[6] = sx_pick(-3, 2, "left"); p[7] = sx_pick(-3, 2, "right"); if (sx_choose(2, "what")) pad<double>(s, p); else pad<uint8_t>(s, p); }
SX_ENTRY h_pad_empty() { Dev d; int n = sx_pick(0, 1, "four") ? 4 : 2; Ints s(n, 2), p(2 * n, 0); s[sx_pick(0, n - 1, "empty")] = 0; int k = sx_pick(0, 2 * n - 1, "where"); p[k] = sx_pick(0, 2, "pad"); pad<float>(s, p); sx_reach("end"); }
SX_ENTRY h_pad_types() { Dev d; Ints s = {1, 2, 3}, p(6, 0); if (sx_choose(2, "four")) { s.push_back(2); p.push_back(1); p.push_back(0); } p[2] = sx_pick(-1, 1, "p"); p[5] = sx_pick(-1, 1, "q");
#define CALL(T) pad<T>(s, p)
    SX_ALLT(CALL)
#undef CALL
    sx_reach("end"); }
SX_ENTRY h_pad_bad() { Dev d; int w = sx_pick(0, 3, "what"); Tensor x = symt<float>({2, 2}, "x"), p = w == 0 ? pairs({1, 1}) : w == 1 ? iv({1, 1, 1, 1}) : w == 2 ? pairs({1, 1, 1, 1, 1, 1}) : mk<int32_t>({2, 3}, {0, 0, 0, 0, 0, 0}); SX_ASSERT(throws([&]() { OpT op("pad"); op.run1({x, p}); }), "pads that do not fit the input are refused"); sx_reach("end"); }
template <typename T> void crop(const std::string &name, const Ints &s, bool def, const Ints &pads, const Ints &os, const Tensor *second, const char *pn, const Tensor *pv, bool ok) {
    auto v = symv<T>(prod(s), "x"); Tensor x = mk(s, v), y; (void) def; bool t = throws([&]() { OpT op(name); if (pv) op.set(pn, *pv); if (second) y = op.run1({x, *second}); else y = op.run1({x}); });
    SX_ASSERT(t == !ok, "accepted exactly when it fits"); if (t) { sx_reach("bad"); return; } padded<T>(y, s, v, pads, os, T(0)); sx_reach("ok"); }
static int half(int d) { return d / 2; }
SX_ENTRY h_crop_nd() { Dev d; int n = sx_pick(1, 4, "dims"); Ints s(n, 1), to(n, 1), sh(n, 0), p(2 * n, 0), os(n, 1); int k = sx_pick(0, n - 1, "dim"), l = n > 1 ? (k + 1) % n : k; bool shift = sx_choose(2, "shift"); s[k] = sx_pick(1, 4, "size"); to[k] = sx_pick(-1, 5, "target"); sh[k] = shift ? sx_pick(-2, 2, "shift") : 0; if (l != k) { s[l] = 2; to[l] = sx_pick(0, SXT(1, 3), "target") * SXT(3, 1); sh[l] = shift ? sx_pick(SXT(1, -1), 1, "shift") : 0; }
    int bad = s[k] == 2 && to[k] == 3 ? sx_pick(0, 3, "bad") : 0; bool ok = true;
    for (int i = 0; i < n; ++i) { int t = to[i] <= 0 ? s[i] : to[i]; os[i] = t; p[2 * i] = shift ? -sh[i] : half(t - s[i]); p[2 * i + 1] = t - s[i] - p[2 * i]; }
    Ints st = to; if (bad == 1) { st.push_back(1); ok = false; } else if (bad == 2) { st.pop_back(); ok = false; if (st.empty()) return; } else if (bad == 3) { if (!shift) return; sh.push_back(0); ok = false; }
    Tensor size = iv(st), pv = iv(sh); crop<float>("crop_nd", s, false, p, os, &size, "shift", shift ? &pv : nullptr, ok); }
SX_ENTRY h_crop_to() { Dev d; int n = sx_pick(1, 4, "dims"), axis = sx_pick(-n - 1, n, "axis"), a = axis < 0 ? axis + n : axis; bool ok = a >= 0 && a < n; Ints s(n, 2), t(n, 1), p(2 * n, 0), os, of; for (int i = 0; i < n; ++i) t[i] = i == n - 1 ? sx_pick(1, 4, "to") : i == n - 2 ? sx_pick(1, 3, "to") : 2 - (i & 1); os = s;
    int w = sx_pick(0, 2, "offset"); if (ok) for (int i = a; i < n; ++i) { int o = w && i > n - 3 ? sx_pick(-1, 2, "o") : 0; of.push_back(o); p[2 * i] = -o; os[i] = t[i]; p[2 * i + 1] = os[i] - s[i] + o; } if (w == 2) { of.push_back(1); ok = false; }
    auto v = symv<float>(prod(s), "x"); Tensor x = mk(s, v), ref = symt<float>(t, "y"), y; bool th = throws([&]() { OpT op("crop_to"); op.set("axis", i1(axis)); if (w) op.set("offset", iv(of)); y = op.run1({x, ref}); }); SX_ASSERT(th == !ok, "accepted exactly when axis and offsets fit"); if (th) { sx_reach("bad"); return; } padded<float>(y, s, v, p, os, 0); sx_reach("ok"); }
// one operator on inputs of different numbers of dimensions, one after the other
SX_ENTRY h_crop_twice() { Dev d; OpT op("crop_to"); op.set("axis", i1(-1)); int a = sx_pick(1, 3, "dims"), b = sx_pick(1, 3, "dims again"); for (int r = 0; r < 2; ++r) { int n = r ? b : a; Ints s(n, 2), t(n, 1), os = s, p(2 * n, 0); os[n - 1] = 1; p[2 * n - 1] = -1; auto v = symv<float>(prod(s), "x"); Tensor y = op.run1({mk(s, v), symt<float>(t, "y")}); padded<float>(y, s, v, p, os, 0); } sx_reach("end"); }
SX_ENTRY h_divided() { Dev d; int n = sx_pick(1, 4, "dims"), m = sx_pick(1, 3, "sizes"); Ints s(n, 2), z, p(2 * n, 0), os; for (int i = 0; i < n; ++i) s[i] = i >= n - 2 ? sx_pick(1, 4, "size") : 2; for (int i = 0; i < m; ++i) z.push_back(sx_pick(i == m - 1 ? -1 : 1, 3, "stride")); bool ok = m <= n && z.back() > 0; os = s; if (ok) for (int i = 0; i < m; ++i) { int k = n - m + i; os[k] = (s[k] + z[i] - 1) / z[i] * z[i]; p[2 * k + 1] = os[k] - s[k]; }
    Tensor pv = iv(z); crop<float>("divided", s, true, p, os, nullptr, "size", &pv, ok); }
SX_ENTRY h_limit() { Dev d; int n = sx_pick(1, 4, "dims"), m = sx_pick(1, 3, "limits"); Ints s(n, 2), z, p(2 * n, 0), os; for (int i = 0; i < n; ++i) s[i] = i >= n - 2 ? sx_pick(1, 5, "size") : 2; for (int i = 0; i < m; ++i) z.push_back(i >= m - 2 ? sx_pick(-1, 3, "limit") : 1); bool ok = m <= n; os = s; if (ok) for (int i = 0; i < m; ++i) { int k = n - m + i; if (z[i] > 0 && s[k] > z[i]) os[k] = z[i]; int c = os[k] - s[k]; p[2 * k] = half(c); p[2 * k + 1] = c - half(c); }
    Tensor pv = iv(z); crop<float>("_limit", s, true, p, os, nullptr, "shape", &pv, ok); }
SX_ENTRY h_center() { Dev d; int h = sx_pick(1, 4, "h"), w = sx_pick(1, 4, "w"), oh = sx_pick(1, 5, "to h"), ow = sx_pick(1, 5, "to w"); Tensor pv = iv({ow, oh}); int t = half(oh - h), l = half(ow - w); crop<float>("_nhwc_center_crop2d", {1, h, w, 2}, true, {0, 0, t, oh - h - t, l, ow - w - l, 0, 0}, {1, oh, ow, 2}, nullptr, "size", &pv, true); }
template <typename T> void tile(const Ints &s, const Ints &r, bool v2) { bool ok = true; for (int i : r) if (i < 0) ok = false; int n = (int) std::max(s.size(), r.size()); Ints xs(n - s.size(), 1), rs(n - r.size(), 1), os; xs.insert(xs.end(), s.begin(), s.end()); rs.insert(rs.end(), r.begin(), r.end()); auto v = symv<T>(prod(s), "x"); Tensor x = mk(s, v), y;
    bool t = throws([&]() { if (v2) { OpT op("tile_v2"); y = op.run1({x, iv(r)}); } else { OpT op("tile"); op.set("repeats", iv(r)); y = op.run1({x}); } }); SX_ASSERT(t == !ok, "accepted exactly when no repeat is negative"); if (t) { sx_reach("bad"); return; }
    std::vector<T> w; for (int i = 0; i < n; ++i) os.push_back(xs[i] * rs[i]); for (Ix o(os); !o.done; o.next()) { Ints c; for (int i = 0; i < n; ++i) c.push_back(o.i[i] % xs[i]); w.push_back(v[at(xs, c)]); } want(y, os, w, "tiled element"); sx_reach("ok"); }
SX_ENTRY h_tile() { Dev d; int n = sx_pick(0, 3, "dims"), m = sx_pick(1, 3, "repeats"); Ints s, r; for (int i = 0; i < n; ++i) s.push_back(sx_pick(n < 3 ? 0 : 1, n < 3 ? 3 : 2, "size")); for (int i = 0; i < m; ++i) r.push_back(sx_pick(i == 0 ? -1 : m < 3 ? 0 : 1, m < 3 ? 3 : 2, "repeat")); tile<float>(s, r, sx_choose(2, "v2")); }
SX_ENTRY h_tile_types() { Dev d; bool v2 = sx_choose(2, "v2");
#define CALL(T) tile<T>({2, 1, 3}, {2, 3, 2}, v2)
    SX_ALLT(CALL)
#undef CALL
    sx_reach("end"); }
// moved as whole words: floating point values are concrete here
template <typename T> std::vector<T> words(int n) { if (std::is_integral<T>::value) return symv<T>(n, "x"); std::vector<T> v; for (int i = 0; i < n; ++i) v.push_back(T(i) + T(0.375)); return v; }
template <typename T> void bcast(const Ints &s, const Ints &t) { int n = (int) std::max(s.size(), t.size()); Ints xs(n - s.size(), 1), ts_(n - t.size(), 1), os; xs.insert(xs.end(), s.begin(), s.end()); ts_.insert(ts_.end(), t.begin(), t.end()); bool ok = true; for (int i = 0; i < n; ++i) { if (xs[i] != ts_[i] && xs[i] != 1 && ts_[i] != 1) ok = false; os.push_back(xs[i] == 1 ? ts_[i] : xs[i]); }
    auto v = words<T>(prod(s)); Tensor x = mk(s, v), y; bool th = throws([&]() { OpT op("broadcast"); y = op.run1({x, iv(t)}); }); SX_ASSERT(th == !ok, "accepted exactly when the shapes agree"); if (th) { sx_reach("bad"); return; }
    std::vector<T> w; for (Ix o(os); !o.done; o.next()) { Ints c; for (int i = 0; i < n; ++i) c.push_back(xs[i] == 1 ? 0 : o.i[i]); w.push_back(v[at(xs, c)]); } want(y, os, w, "broadcast element"); sx_reach("ok"); }
SX_ENTRY h_broadcast() { Dev d; int n = sx_pick(0, 4, "dims"), m = sx_pick(1, 4, "to"); Ints s, t; for (int i = 0; i < n; ++i) s.push_back(sx_pick(n < 3 ? 0 : 1, n == 4 || m == 4 ? 2 : 3, "size")); for (int i = 0; i < m; ++i) t.push_back(sx_pick(m < 3 ? 0 : 1, n == 4 || m == 4 ? 2 : 3, "size")); bcast<int32_t>(s, t); }
SX_ENTRY h_broadcast_wide() { Dev d; int n = sx_pick(1, 9, "count"), w = sx_pick(0, 4, "what"); Ints s = w == 0 ? Ints{1} : w == 1 ? Ints{2, 1} : w == 2 ? Ints{2, 1, 2} : w == 3 ? Ints{n} : Ints{1, n, 1}, t = w == 0 ? Ints{n} : w == 1 ? Ints{2, n} : w == 2 ? Ints{1, n, 1} : w == 3 ? Ints{2, n} : Ints{2, 1, 3};
#define CALL(T) bcast<T>(s, t)
    SX_ALLT(CALL)
#undef CALL
    sx_reach("end"); }
// element (n, c, h, w) of the padded image goes to batch ((h % bh) * bw + w % bw) * N + n at (h / bh, w / bw)
template <typename T> bool s2b(const Ints &s, const Ints &p, int bh, int bw, std::vector<T> *keep = nullptr, Tensor *res = nullptr) { bool ok = true; for (int i : p) if (i < 0) ok = false; int H = s[2] + p[0] + p[1], W = s[3] + p[2] + p[3]; if (bh < 1 || bw < 1 || H % bh || W % bw) ok = false;
    auto v = symv<T>(prod(s), "x"); Tensor x = mk(s, v), y; bool t = throws([&]() { OpT op("space_to_batch4d"); op.set("padding", pairs(p)).set("block_shape", iv({bh, bw})); y = op.run1({x}); }); SX_ASSERT(t == !ok, "accepted exactly when the blocks fit the padded image"); if (t) { sx_reach("bad"); return false; }
    Ints os = {s[0] * bh * bw, s[1], H / bh, W / bw}; std::vector<T> w; for (Ix o(os); !o.done; o.next()) { int b = o.i[0] / s[0], h = o.i[2] * bh + b / bw - p[0], q = o.i[3] * bw + b % bw - p[2]; w.push_back(h < 0 || h >= s[2] || q < 0 || q >= s[3] ? T(0) : v[at(s, {o.i[0] % s[0], o.i[1], h, q})]); } want(y, os, w, "blocked element"); if (keep) *keep = v; if (res) *res = y; sx_reach("ok"); return true; }
SX_ENTRY h_s2b() { Dev d; Ints s = {sx_pick(1, 2, "n"), 2, sx_pick(1, 3, "h"), sx_pick(1, SXT(1, 2), "w")}, p; int bh = sx_pick(0, 3, "bh"), bw = sx_pick(1, 2, "bw"); p.push_back(sx_pick(-1, 2, "top")); p.push_back(sx_pick(-1, 2, "bottom")); p.push_back(sx_pick(-1, 1, "left")); p.push_back(sx_pick(0, 1, "right")); s2b<float>(s, p, bh, bw); }
template <typename T> void b2s(const Ints &s, const Ints &p, int bh, int bw) { bool ok = bh >= 1 && bw >= 1; for (int i : p) if (i < 0) ok = false; int H = s[2] * bh - p[0] - p[1], W = s[3] * bw - p[2] - p[3]; if (H < 0 || W < 0) ok = false; if (ok && s[0] % (bh * bw)) ok = false;
    auto v = symv<T>(prod(s), "x"); Tensor x = mk(s, v), y; bool t = throws([&]() { OpT op("batch_to_space4d"); op.set("crop", pairs(p)).set("block_shape", iv({bh, bw})); y = op.run1({x}); }); SX_ASSERT(t == !ok, "accepted exactly when blocks and crops fit the batch"); if (t) { sx_reach("bad"); return; }
    int N = s[0] / (bh * bw); Ints os = {N, s[1], H, W}; std::vector<T> w; for (Ix o(os); !o.done; o.next()) { int h = o.i[2] + p[0], q = o.i[3] + p[2]; w.push_back(v[at(s, {((h % bh) * bw + q % bw) * N + o.i[0], o.i[1], h / bh, q / bw})]); } want(y, os, w, "unblocked element"); sx_reach("ok"); }
SX_ENTRY h_b2s() { Dev d; int bh = sx_pick(0, 2, "bh"), bw = sx_pick(1, SXT(2, 3), "bw"); int n = sx_pick(1, 2, "n"); Ints s = {bh * bw * n + sx_pick(0, 1, "rest"), 2, sx_pick(1, 2, "h"), sx_pick(1, 2, "w")}, p; if (s[0] == 0) return; p.push_back(sx_pick(-1, 2, "top")); p.push_back(sx_pick(-1, 2, "bottom")); p.push_back(sx_pick(-1, 2, "left")); p.push_back(sx_pick(0, 1, "right")); b2s<float>(s, p, bh, bw); }
SX_ENTRY h_round() { Dev d; Ints s = {sx_pick(1, 2, "n"), 1, sx_pick(1, 4, "h"), sx_pick(1, 3, "w")}; int bh = sx_pick(1, 3, "bh"), bw = sx_pick(1, 2, "bw"), t = sx_pick(0, 2, "top"), l = sx_pick(0, 1, "left"); Ints p = {t, (bh - (s[2] + t) % bh) % bh, l, (bw - (s[3] + l) % bw) % bw}; std::vector<float> v; Tensor y; if (!s2b<float>(s, p, bh, bw, &v, &y)) return; OpT op("batch_to_space4d"); op.set("crop", pairs(p)).set("block_shape", iv({bh, bw})); want(op.run1({y}), s, v, "unblocking undoes blocking"); sx_reach("end"); }
SX_ENTRY h_space_types() { Dev d; bool back = sx_choose(2, "back");
#define CALL(T) do { if (back) b2s<T>({4, 1, 2, 1}, {1, 0, 0, 1}, 2, 2); else s2b<T>({1, 1, 3, 2}, {1, 0, 0, 2}, 2, 2); } while (0)
    SX_ALLT(CALL)
#undef CALL
    sx_reach("end"); }
template <typename T> void color(int c, int n) { Ints s = n ? Ints{n, c} : Ints{c}, o = s; auto v = symv<T>(prod(s), "x"); Tensor x = mk(s, v), y; bool t = throws([&]() { OpT op("force_color"); y = op.run1({x}); }); SX_ASSERT(t == (c != 1 && c != 3), "color from one or three channels"); if (t) { sx_reach("bad"); return; } o.back() = 3; std::vector<T> w; for (int i = 0; i < prod(o); ++i) w.push_back(c == 3 ? v[i] : v[i / 3]); want(y, o, w, "color element"); sx_reach("ok"); }
SX_ENTRY h_color() { Dev d; int c = sx_pick(1, 4, "channels"), n = sx_pick(0, 2, "pixels"); if (sx_choose(2, "gray")) { int k = sx_pick(0, 4, "scale"); Ints s = n ? Ints{n, c} : Ints{c}, o = s; o.back() = 1; auto v = symv<float>(prod(s), "x"); Tensor x = mk(s, v), y; std::vector<float> sc = {0.114f, 0.587f, 0.299f}; if (k) { sc.clear(); for (int i = 0; i < k; ++i) sc.push_back(0.5f + i); } bool ok = c == 1 || c == (int) sc.size();
        bool t = throws([&]() { OpT op("force_gray"); if (k) op.set("scale", mk<float>({k}, sc)); y = op.run1({x}); }); SX_ASSERT(t == !ok, "gray from as many channels as there are weights"); if (t) { sx_reach("bad"); return; } std::vector<float> w; for (int i = 0; i < (n ? n : 1); ++i) { float q = 0; for (int j = 0; j < c; ++j) q += sc[j] * v[i * c + j]; w.push_back(c == 1 ? v[i] : q); } want(y, o, w, "gray element"); sx_reach("ok"); return; }
#define CALL(T) color<T>(c, n)
    SX_ALLT(CALL)
#undef CALL
}
