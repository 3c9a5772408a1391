//@ sources: @op src/backend/base/base_transpose.cpp src/kernels/cpu/transpose.cpp src/backend/base/base_dimshuffle.cpp src/kernels/cpu/dimshuffle.cpp
//@ entry: h_transpose reach=end
//@ entry: h_types reach=end
//@ entry: h_nhwc reach=end
//@ entry: h_shorter reach=end
//@ entry: h_shuffle reach=end
//@ entry: h_bad reach=end
//@ bounds: transpose: every permutation of 1-3 dims (4 in thorough), each size 1..3; all ten numeric element types; the three-channel layout swaps with width 1..9; inputs with fewer dims than the permutation; no permutation given
//@ bounds: dimshuffle: 1-3 dims, size 1..3, every dim, every shuffle list of length 1..3 (indices symbolic, in or out of range)
//@ assume: element values are arbitrary (reals for float types; bit patterns for integers)
//@ outside: tensors with more dims or larger sizes than the bounds
#include "op.h"
template <typename T> void one(const Ints &s0, const Ints &perm, bool give = true) {
    auto v = symv<T>(prod(s0), "x"); Tensor x = mk(s0, v);
    OpT op("_transpose"); if (give) op.set("permute", iv(perm));
    Tensor y = op.run1({x});
    Ints s = s0; while (s.size() < perm.size()) s.insert(s.begin(), 1);
    Ints os(s.size()); for (size_t k = 0; k < s.size(); ++k) os[k] = s[perm[k]];
    std::vector<T> w(v.size());
    for (Ix o(os); !o.done; o.next()) { Ints i(s.size()); for (size_t k = 0; k < s.size(); ++k) i[perm[k]] = o.i[k]; w[at(os, o.i)] = v[at(s, i)]; }
    want(y, os, w, "transposed element");
    want(x, s0, v, "input unchanged");
}
static Ints pick_perm(int n) { Ints p; for (int k = 0; k < n; ++k) { p.push_back(sx_pick(0, n - 1, "perm")); for (int j = 0; j < k; ++j) sx_assume(p[j] != p[k]); } return p; }
SX_ENTRY h_transpose() {
    Dev d; int n = sx_pick(1, SXT(3, 4), "dims"); Ints s = pick_shape(n, 1, n == 4 ? 2 : 3);
    one<float>(s, pick_perm(n)); sx_reach("end");
}
SX_ENTRY h_types() {
    Dev d; Ints s = {2, 3, 1, 2}, p = pick_perm(4);
#define CALL(T) one<T>(s, p)
    SX_ALLT(CALL)
    sx_reach("end");
}
SX_ENTRY h_nhwc() {   // specialised layout swaps and their vector tails
    Dev d; bool to_nchw = sx_pick(0, 1, "to_nchw"); int n = sx_pick(1, 2, "n"), h = sx_pick(1, 2, "h"), w = sx_pick(1, SXT(9, 13), "w"), c = sx_pick(2, 4, "c");
    Ints s = to_nchw ? Ints{n, h, w, c} : Ints{n, c, h, w}, p = to_nchw ? Ints{0, 3, 1, 2} : Ints{0, 2, 3, 1};
    if (sx_pick(0, 1, "float")) one<float>(s, p); else one<uint8_t>(s, p);
    sx_reach("end");
}
SX_ENTRY h_shorter() {
    Dev d; 
    if (sx_pick(0, 1, "default")) { int n = sx_pick(1, 4, "dims"); Ints s = pick_shape(n, 1, n < 4 ? 3 : 2), p; for (int i = 0; i < n; ++i) p.push_back(i); if (n >= 2) std::swap(p[n - 1], p[n - 2]); one<float>(s, p, false); }
    else { int n = sx_pick(1, 2, "dims"); one<int32_t>(pick_shape(n, 1, 3), pick_perm(3)); }
    sx_reach("end");
}
SX_ENTRY h_shuffle() {
    Dev d; int n = sx_pick(1, 3, "dims"), k = sx_pick(0, n - 1, "dim"), m = sx_pick(1, 3, "len"); Ints s = pick_shape(n, 1, SXT(2, 3)); s[k] = sx_pick(1, 3, "ksize"); Ints sh; for (int i = 0; i < m; ++i) sh.push_back(sx_range(-1, 3, "shuffle"));
    bool ok = true; for (int i : sh) ok = ok && i >= 0 && i < s[k];
    auto v = symv<float>(prod(s), "x"); Tensor x = mk(s, v);
    if (!ok) { SX_ASSERT(throws([&]() { OpT op("_dimshuffle"); op.set("dim", i1(k)).set("shuffle", iv(sh)); op.run1({x}); }), "out-of-range shuffle index is rejected"); return; }
    OpT op("_dimshuffle"); op.set("dim", i1(k)).set("shuffle", iv(sh)); Tensor y = op.run1({x});
    Ints os = s; os[k] = m; std::vector<float> w(prod(os));
    for (Ix o(os); !o.done; o.next()) { Ints i = o.i; i[k] = sh[o.i[k]]; w[at(os, o.i)] = v[at(s, i)]; }
    want(y, os, w, "shuffled element"); sx_reach("end");
}
SX_ENTRY h_bad() {   // a permutation list that is not a permutation is rejected at init
    Dev d; int n = sx_pick(1, 3, "dims"); Ints p; for (int i = 0; i < n; ++i) p.push_back(sx_range(-1, n, "perm"));
    bool ok = true; for (int i = 0; i < n; ++i) { if (p[i] < 0 || p[i] >= n) ok = false; for (int j = 0; j < i; ++j) if (p[i] == p[j]) ok = false; }
    sx_assume(!ok);
    SX_ASSERT(throws([&]() { OpT op("_transpose"); op.set("permute", iv(p)); op.op->init(); }), "non-permutation is rejected"); sx_reach("end");
}
