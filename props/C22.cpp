//@ sources: @op src/backend/base/base_slice.cpp src/kernels/cpu/slice.cpp src/backend/base/base_slice_v2.cpp src/kernels/cpu/slice_v2.cpp src/backend/base/base_slice_v3.cpp src/kernels/cpu/slice_v3.cpp src/backend/base/base_strided_slice.cpp src/kernels/cpu/strided_slice.cpp
//@ entry: h_slice1 reach=ok,bad
//@ entry: h_slice reach=end
//@ entry: h_strided1 reach=end
//@ entry: h_strided2 reach=end
//@ entry: h_masks reach=end
//@ entry: h_v3 reach=end
//@ entry: h_types reach=end
//@ bounds: begin/size (slice, slice_v2) any 32-bit value on one dim, small on 2-3 dims; begin, end, stride on a dim of size 1..4 any value in [-6,6] (stride != 0); every combination of begin/end/new-axis/shrink masks and one ellipsis over up to 3 slice terms of a 1-3-dim input; slice_v3 axes positive and negative; all ten element types
//@ assume: element values are arbitrary
//@ outside: stride 0; tensors with more than 3 dims
#include "op.h"
// python slice.indices()
static Ints pyrange(int n, bool bm, int b, bool em, int e, int st) {
    int lo = st > 0 ? 0 : -1, hi = st > 0 ? n : n - 1;
    if (b < 0) b += n; if (e < 0) e += n;
    b = b < lo ? lo : b > hi ? hi : b; e = e < lo ? lo : e > hi ? hi : e;
    if (bm) b = st > 0 ? lo : hi; if (em) e = st > 0 ? hi : lo;
    Ints r; for (int i = b; st > 0 ? i < e : i > e; i += st) r.push_back(i); return r;
}
template <typename T> void expect(Tensor y, const std::vector<T> &v, const Ints &s, const std::vector<Ints> &ix, const Ints &shape) {
    Ints os; for (auto &r : ix) os.push_back((int) r.size()); std::vector<T> w;
    for (Ix o(os); !o.done; o.next()) { Ints i; for (size_t k = 0; k < s.size(); ++k) i.push_back(ix[k][o.i[k]]); w.push_back(v[at(s, i)]); }
    want(y, shape, w, "sliced element");
}
SX_ENTRY h_slice1() {   // one dim: begin and size are arbitrary integers
    Dev d; int n = sx_pick(1, 3, "n"); int b = sx_i32("begin"), z = sx_i32("size"); auto v = symv<float>(n, "x"); Tensor x = mk({n}, v); bool v2 = sx_pick(0, 1, "v2");
    bool ok = b >= 0 && b < n && (z < 0 || z <= n - b); Tensor y;
    bool t = throws([&]() { if (v2) { OpT op("slice_v2"); y = op.run1({x, iv({b}), iv({z})}); } else { OpT op("slice"); op.set("begin", iv({b})).set("size", iv({z})); y = op.run1({x}); } });
    SX_ASSERT(t == !ok, "accepted exactly when the slice lies inside the input");
    if (t) { sx_reach("bad"); return; }
    Ints r; for (int i = b; i < (z < 0 ? n : b + z); ++i) r.push_back(i); expect(y, v, {n}, {r}, {(int) r.size()}); sx_reach("ok");
}
SX_ENTRY h_slice() {
    Dev d; int n = sx_pick(2, 3, "dims"); Ints s = pick_shape(n, 1, SXT(2, 3)), b, z; std::vector<Ints> ix; Ints os;
    for (int k = 0; k < n; ++k) { b.push_back(sx_pick(0, s[k] - 1, "begin")); z.push_back(sx_pick(-1, s[k] - b[k], "size")); sx_assume(z[k] != 0); Ints r; for (int i = b[k]; i < (z[k] < 0 ? s[k] : b[k] + z[k]); ++i) r.push_back(i); ix.push_back(r); os.push_back((int) r.size()); }
    auto v = symv<float>(prod(s), "x"); Tensor x = mk(s, v), y; 
    if (sx_pick(0, 1, "v2")) { OpT op("slice_v2"); y = op.run1({x, iv(b), iv(z)}); } else { OpT op("slice"); op.set("begin", iv(b)).set("size", iv(z)); y = op.run1({x}); }
    expect(y, v, s, ix, os); sx_reach("end");
}
template <typename T> void strided(const Ints &s, const Ints &b, const Ints &e, const Ints &st, int bm, int em, bool v3 = false) {
    auto v = symv<T>(prod(s), "x"); Tensor x = mk(s, v), y; std::vector<Ints> ix; Ints os;
    for (size_t k = 0; k < s.size(); ++k) { if (k < b.size()) ix.push_back(pyrange(s[k], bm >> k & 1, b[k], em >> k & 1, e[k], st[k])); else ix.push_back(pyrange(s[k], true, 0, true, 0, 1)); os.push_back((int) ix[k].size()); }
    if (v3) { OpT op("slice_v3"); Ints ax; for (size_t i = 0; i < b.size(); ++i) ax.push_back((int) i); y = op.run1({x, iv(b), iv(e), iv(ax), iv(st)}); }
    else { OpT op("strided_slice"); op.set("begin", iv(b)).set("end", iv(e)).set("stride", iv(st)).set("begin_mask", i1(bm)).set("end_mask", i1(em)); y = op.run1({x}); }
    expect(y, v, s, ix, os);
}
static int pick_stride() { int st = sx_pick(-3, 3, "stride"); sx_assume(st != 0); return st; }
SX_ENTRY h_strided1() {
    Dev d; int n = sx_pick(1, SXT(4, 6), "n"), st = pick_stride(); int b = sx_i32("begin"), e = sx_i32("end"); sx_assume((b >= -1000000) & (b <= 1000000) & (e >= -1000000) & (e <= 1000000)); bool v3 = sx_pick(0, 1, "v3");
    int bm = v3 ? 0 : sx_pick(0, 1, "bm"), em = v3 ? 0 : sx_pick(0, 1, "em"); strided<float>({n}, {b}, {e}, {st}, bm, em, v3); sx_reach("end");
}
SX_ENTRY h_strided2() {
    Dev d; Ints s = {sx_pick(SXT(3, 2), 3, "h"), 3}; if (sx_pick(0, 1, "tail")) s.push_back(2); bool v3 = sx_pick(0, 1, "v3"); int terms = sx_pick(1, 2, "terms"); Ints b, e, st;
    for (int k = 0; k < terms; ++k) { b.push_back(sx_pick(k ? SXT(0, -2) : -2, 1, "begin")); e.push_back(sx_pick(k ? SXT(2, -1) : -1, 3, "end")); st.push_back(sx_pick(-1, k ? SXT(1, 2) : 2, "stride")); sx_assume(st[k] != 0); }
    strided<float>(s, b, e, st, 0, 0, v3); sx_reach("end");
}
SX_ENTRY h_masks() {   // per-term: 0 range, 1 new axis, 2 shrink, 3 ellipsis; remaining dims are taken whole
    Dev d; int n = sx_pick(1, 3, "dims"); Ints s; for (int i = 0; i < n; ++i) s.push_back(i + 2); int terms = sx_pick(1, 3, "terms"); Ints kind, b, e, st; int bm = 0, em = 0, el = 0, na = 0, sh = 0, used = 0, nel = 0;
    for (int t = 0; t < terms; ++t) { int k = sx_pick(0, 3, "kind"); kind.push_back(k); if (k == 3) ++nel; if (k == 0 || k == 2) ++used; }
    sx_assume(nel <= 1 && used <= n);
    int axis = 0; std::vector<Ints> ix; Ints shape;
    for (int t = 0; t < terms; ++t) {
        if (kind[t] == 0) { int f = sx_pick(0, 2, "flavour"), B = f == 2 ? -2 : f, E = f == 1 ? -1 : 9; b.push_back(B); e.push_back(E); st.push_back(f == 2 ? 1 : 1 + f); if (f == 0) { em |= 1 << t; } ix.push_back(pyrange(s[axis], false, B, f == 0, E, st.back())); shape.push_back((int) ix.back().size()); ++axis; }
        else if (kind[t] == 1) { b.push_back(0); e.push_back(sx_pick(0, 1, "e")); st.push_back(1); na |= 1 << t; shape.push_back(1); }
        else if (kind[t] == 2) { int B = sx_pick(-s[axis], s[axis] - 1, "at"); b.push_back(B); e.push_back(B + 1); st.push_back(1); sh |= 1 << t; ix.push_back({B < 0 ? B + s[axis] : B}); ++axis; }
        else { b.push_back(0); e.push_back(0); st.push_back(1); el |= 1 << t; int m = n - used; for (int i = 0; i < m; ++i) { ix.push_back(pyrange(s[axis], true, 0, true, 0, 1)); shape.push_back(s[axis]); ++axis; } }
    }
    for (; axis < n; ++axis) { ix.push_back(pyrange(s[axis], true, 0, true, 0, 1)); shape.push_back(s[axis]); }
    auto v = symv<float>(prod(s), "x"); OpT op("strided_slice");
    op.set("begin", iv(b)).set("end", iv(e)).set("stride", iv(st)).set("begin_mask", i1(bm)).set("end_mask", i1(em)).set("ellipsis_mask", i1(el)).set("new_axis_mask", i1(na)).set("shrink_axis_mask", i1(sh));
    expect(op.run1({mk(s, v)}), v, s, ix, shape); sx_reach("end");
}
SX_ENTRY h_v3() {   // explicit axes (any increasing subset, either sign), with and without steps
    Dev d; int n = sx_pick(1, SXT(2, 3), "dims"); Ints s; for (int i = 0; i < n; ++i) s.push_back(i + 2); Ints ax, b, e, st; std::vector<Ints> ix; Ints os; bool steps = sx_pick(0, 1, "steps");
    for (int k = 0; k < n; ++k) if (sx_pick(0, 1, "use")) { ax.push_back(sx_pick(0, 1, "neg") ? k - n : k); b.push_back(sx_pick(-1, 1, "b")); e.push_back(sx_pick(-1, 2, "e")); st.push_back(steps ? sx_pick(0, 1, "s") * 3 - 1 : 1); ix.push_back(pyrange(s[k], false, b.back(), false, e.back(), st.back())); os.push_back((int) ix[k].size()); } else { ix.push_back(pyrange(s[k], true, 0, true, 0, 1)); os.push_back(s[k]); }
    sx_assume(!ax.empty()); auto v = symv<float>(prod(s), "x"); std::vector<Tensor> in = {mk(s, v), iv(b), iv(e), iv(ax)}; if (steps) in.push_back(iv(st));
    OpT op("slice_v3"); expect(op.run1(in), v, s, ix, os); sx_reach("end");
}
template <typename T> void types() { 
    int which = sx_pick(0, 3, "op"); Ints s = {3, 4}; auto v = symv<T>(12, "x"); Tensor x = mk(s, v), y; std::vector<Ints> ix = {{1, 2}, {1, 2, 3}};
    if (which == 0) { OpT op("slice"); op.set("begin", iv({1, 1})).set("size", iv({2, -1})); y = op.run1({x}); }
    else if (which == 1) { OpT op("slice_v2"); y = op.run1({x, iv({1, 1}), iv({2, -1})}); }
    else if (which == 2) { OpT op("slice_v3"); y = op.run1({x, iv({1, 1}), iv({5, 4})}); }
    else { OpT op("strided_slice"); op.set("begin", iv({1, -3})).set("end", iv({3, 4})); y = op.run1({x}); }
    expect(y, v, s, ix, {2, 3}); }
SX_ENTRY h_types() { Dev d;
#define CALL(T) types<T>()
    SX_ALLT(CALL)
    sx_reach("end"); }
