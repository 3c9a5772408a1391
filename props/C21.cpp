//@ sources: @op src/backend/base/base_concat.cpp src/kernels/cpu/concat.cpp src/backend/base/base_split.cpp src/kernels/cpu/split.cpp src/backend/base/base_chunk.cpp src/kernels/cpu/chunk.cpp src/backend/base/base_stack_tensor.cpp src/kernels/cpu/stack_tensor.cpp src/utils/box.cpp
//@ entry: h_concat reach=end
//@ entry: h_concat_types reach=end
//@ entry: h_concat_bad reach=end
//@ entry: h_split reach=end
//@ entry: h_split_bad reach=end
//@ entry: h_chunk reach=end
//@ entry: h_stack reach=end
//@ entry: h_stack_bad reach=end
//@ bounds: 1-3 inputs, 1-3 dims, size 1..3 (concat/split axis sizes independent), every axis, positive and negative; all ten element types; up to 4 chunks of a dim of size up to 9
//@ assume: element values are arbitrary
//@ outside: larger shapes; packed inputs
#include "op.h"
template <typename T> void cat(const Ints &base, int axis, const Ints &sizes, bool neg) {
    int n = (int) base.size(); std::vector<Tensor> in; std::vector<std::vector<T>> vs; std::vector<Ints> ss; Ints os = base; os[axis] = 0;
    for (int z : sizes) { Ints s = base; s[axis] = z; ss.push_back(s); vs.push_back(symv<T>(prod(s), "x")); in.push_back(mk(s, vs.back())); os[axis] += z; }
    OpT op("concat"); op.set("dim", i1(neg ? axis - n : axis)); Tensor y = op.run1(in);
    std::vector<T> w(prod(os));
    for (Ix o(os); !o.done; o.next()) { Ints i = o.i; size_t k = 0; while (i[axis] >= sizes[k]) i[axis] -= sizes[k++]; w[at(os, o.i)] = vs[k][at(ss[k], i)]; }
    want(y, os, w, "concatenated element");
}
SX_ENTRY h_concat() {
    Dev d; int n = sx_pick(1, 3, "dims"), k = sx_pick(0, n - 1, "axis"), m = sx_pick(1, 3, "inputs"); Ints s = pick_shape(n, 1, 2), z; s[k] = 1;
    for (int i = 0; i < m; ++i) z.push_back(sx_pick(1, 3, "len"));
    cat<float>(s, k, z, sx_pick(0, 1, "neg")); sx_reach("end");
}
SX_ENTRY h_concat_types() {
    Dev d; int k = sx_pick(0, 2, "axis");
#define CALL(T) cat<T>({2, 2, 2}, k, {2, 1, 3}, false)
    SX_ALLT(CALL)
#undef CALL
    sx_reach("end");
}
SX_ENTRY h_concat_bad() {   // mismatching operands are rejected
    Dev d; Ints a = pick_shape(2, 1, 3), b = pick_shape(2, 1, 3); int ax = sx_pick(-3, 2, "axis"); bool same = sx_pick(0, 1, "same");
    int f = ax < 0 ? ax + 2 : ax; bool ok = same && f >= 0 && f < 2 && a[1 - f] == b[1 - f]; sx_assume(!ok);
    std::vector<Tensor> in; in.push_back(symt<float>(a, "a")); if (same) in.push_back(symt<float>(b, "b")); else in.push_back(symt<int32_t>(b, "b"));
    SX_ASSERT(throws([&]() { OpT op("concat"); op.set("dim", i1(ax)); op.run1(in); }), "incompatible operands are rejected"); sx_reach("end");
}
template <typename T> void check_parts(const std::vector<T> &v, const Ints &s, int axis, const Ints &parts, Tensor y) {
    SX_ASSERT(y.fields_count() == parts.size(), "number of parts"); int off = 0;
    for (size_t p = 0; p < parts.size(); ++p) { Ints os = s; os[axis] = parts[p]; std::vector<T> w(prod(os));
        for (Ix o(os); !o.done; o.next()) { Ints i = o.i; i[axis] += off; w[at(os, o.i)] = v[at(s, i)]; }
        want(y.field(p), os, w, "part element"); off += parts[p]; }
}
template <typename T> void spl(const Ints &s, int axis, const Ints &parts, bool neg) {
    auto v = symv<T>(prod(s), "x"); OpT op("split"); op.set("axis", i1(neg ? axis - (int) s.size() : axis));
    check_parts(v, s, axis, parts, op.run1({mk(s, v), iv(parts)}));
}
SX_ENTRY h_split() {
    Dev d; int n = sx_pick(1, 3, "dims"), k = sx_pick(0, n - 1, "axis"), m = sx_pick(1, 3, "parts"); Ints s = pick_shape(n, 1, 2), z; s[k] = 0;
    for (int i = 0; i < m; ++i) { z.push_back(sx_pick(1, 3, "len")); s[k] += z[i]; }
    bool neg = sx_pick(0, 1, "neg");
    if (n == 2 && m == 2 && !neg) {
#define CALL(T) spl<T>(s, k, z, neg)
        SX_ALLT(CALL)
#undef CALL
    } else spl<float>(s, k, z, neg);
    sx_reach("end");
}
SX_ENTRY h_split_bad() {   // part sizes that do not add up to the axis are rejected
    Dev d; int n = sx_pick(1, 3, "parts"); Ints z; long sum = 0; for (int i = 0; i < n; ++i) { z.push_back(sx_range(-2, 5, "len")); sum += z[i]; }
    bool bad = sum != 3; for (int x : z) bad = bad || x < 0; sx_assume(bad);
    SX_ASSERT(throws([&]() { OpT op("split"); op.set("axis", i1(1)); op.run1({symt<float>({2, 3}, "x"), iv(z)}); }), "parts that do not cover the axis are rejected"); sx_reach("end");
}
template <typename T> void chk(const Ints &s, int axis, int m, bool neg) {
    auto v = symv<T>(prod(s), "x"); OpT op("chunk"); op.set("chunks", i1(m)).set("dim", i1(neg ? axis - (int) s.size() : axis));
    Tensor y = op.run1({mk(s, v)}); Ints parts; int tot = 0; 
    int np = (int) y.fields_count(), step = (s[axis] + m - 1) / m; SX_ASSERT(np >= 1 && np <= m, "at most the requested number of chunks");
    for (int i = 0; i < np; ++i) { parts.push_back(y.field(i).size(axis)); tot += parts[i]; SX_ASSERT(i + 1 < np ? parts[i] == step : parts[i] >= 1 && parts[i] <= step, "equal chunks, the last may be smaller"); }
    SX_ASSERT(tot == s[axis], "chunks cover the axis");
    check_parts(v, s, axis, parts, y);
}
SX_ENTRY h_chunk() {
    Dev d; int n = sx_pick(1, 3, "dims"), k = sx_pick(0, n - 1, "axis"), m = sx_pick(1, 4, "chunks"); Ints s = pick_shape(n, 1, 2); s[k] = sx_pick(m, SXT(7, 9), "len"); bool neg = sx_pick(0, 1, "neg");
    if (n == 3 && k == 1 && m == 2 && s[k] == 3) {
#define CALL(T) chk<T>(s, k, m, neg)
        SX_ALLT(CALL)
#undef CALL
    } else chk<float>(s, k, m, neg);
    sx_reach("end");
}
template <typename T> void stk(const Ints &s, int m, int axis, bool neg) {
    int n = (int) s.size(); std::vector<Tensor> in; std::vector<std::vector<T>> vs; for (int i = 0; i < m; ++i) { vs.push_back(symv<T>(prod(s), "x")); in.push_back(mk(s, vs.back())); }
    OpT op("stack"); op.set("axis", i1(neg ? axis - n - 1 : axis)); Tensor y = op.run1(in);
    Ints os = s; os.insert(os.begin() + axis, m); std::vector<T> w(prod(os));
    for (Ix o(os); !o.done; o.next()) { Ints i = o.i; int k = i[axis]; i.erase(i.begin() + axis); w[at(os, o.i)] = vs[k][at(s, i)]; }
    want(y, os, w, "stacked element");
}
SX_ENTRY h_stack() {
    Dev d; int n = sx_pick(1, 3, "dims"), m = sx_pick(1, 3, "inputs"), k = sx_pick(0, n, "axis"); Ints s = pick_shape(n, 1, 2); bool neg = sx_pick(0, 1, "neg");
    if (sx_pick(0, 1, "float")) stk<float>(s, m, k, neg); else stk<uint8_t>(s, m, k, neg); sx_reach("end");
}
SX_ENTRY h_stack_bad() {   // stacked tensors have one shape and type
    Dev d; int n = sx_pick(1, 2, "dims"), m = sx_pick(1, 2, "dims2"), k = sx_pick(0, n, "axis"); Ints a = pick_shape(n, 1, 3), b = pick_shape(m, 1, 3); bool same = sx_pick(0, 1, "type"), flip = sx_pick(0, 1, "flip"); sx_assume(a != b || !same);
    Tensor x = symt<float>(a, "a"), y = same ? symt<float>(b, "b") : symt<int32_t>(b, "b"); OpT op("stack"); op.set("axis", i1(k)); sx_assume(!flip || k <= m);
    std::vector<Tensor> in = {x, y}; if (flip) in = {y, x}; if (sx_pick(0, 1, "three")) in.insert(in.begin(), in[0]); SX_ASSERT(throws([&]() { op.run1(in, false); }), "tensors of different shape or type are not stacked"); SX_ASSERT(throws([&]() { op.run1(in); }), "nor announced"); sx_reach("end");
}
