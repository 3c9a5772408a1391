//@ sources: @core
//@ entry: h_round reach=end
//@ entry: h_dtypes reach=end
//@ entry: h_packed reach=end
//@ entry: h_again reach=end
//@ entry: h_view reach=end
//@ entry: h_truncated reach=end
//@ entry: h_hostile reach=ok,bad
//@ bounds: every element type; 0-7 dims with sizes 0..2 (at most 8 elements); 1-3 packed fields; every truncation point; arbitrary dims/sizes/dtype header with a 12-byte body
//@ assume: element bytes are arbitrary; the stream delivers what was written
//@ outside: tensors larger than the bound; tensors on non-CPU devices
#include "op.h"
#include "io.h"
static Tensor any(DTYPE t, const Ints &s, const char *nm) { Tensor x(t, shp(s)); int n = prod(s) * type_bytes(t); unsigned char *p = x.data<unsigned char>(); for (int i = 0; i < n; ++i) p[i] = sx_u8(nm); return x; }
static void same1(const Tensor &a, const Tensor &b) {
    SX_ASSERT(a.dtype() == b.dtype(), "dtype survives"); SX_ASSERT(ints(a.sizes()) == ints(b.sizes()), "shape survives"); int n = a.count() * type_bytes(a.dtype());
    const unsigned char *p = a.data<unsigned char>(), *q = b.data<unsigned char>(); for (int i = 0; i < n; ++i) SX_ASSERT(p[i] == q[i], "every byte survives"); }
static void same(const Tensor &a, const Tensor &b) { SX_ASSERT(a.fields_count() == b.fields_count() && a.packed() == b.packed(), "number of fields survives"); for (size_t i = 0; i < a.fields_count(); ++i) same1(a.field(i), b.field(i)); }
static void round(const Tensor &x, Tensor &y, bool tail = true) {
    Buf w; size_t n = x.serialize(w); SX_ASSERT(n == w.s.size(), "serialize returns the number of bytes written"); std::string s = w.s; if (tail) s += "tail";
    Src r(s); size_t m = y.externalize(r); SX_ASSERT(m == n && r.pos == n, "externalize consumes exactly what serialize wrote"); same(x, y); }
SX_ENTRY h_round() { Dev d; int n = sx_pick(0, 7, "dims"); Ints s; int c = 1; for (int k = 0; k < n; ++k) { s.push_back(sx_pick(k < 3 ? 0 : 1, 2, "size")); c *= s[k]; sx_assume(c <= 8); } Tensor y; round(any(INT32, s, "x"), y); sx_reach("end"); }
SX_ENTRY h_dtypes() { Dev d; int t = (int) sx_choose(33, "dtype"); Tensor y; round(any((DTYPE) t, {2, 1}, "x"), y); sx_reach("end"); }
static Tensor packed(int n) { std::vector<Tensor> f; for (int i = 0; i < n; ++i) { Ints s; int k = sx_pick(0, 2, "dims"); for (int j = 0; j < k; ++j) s.push_back(sx_pick(1, 2, "size")); f.push_back(any(sx_choose(2, "t") ? FLOAT32 : UINT8, s, "f")); } return Tensor::Pack(f); }
SX_ENTRY h_packed() { Dev d; Tensor x = packed(sx_pick(1, SXT(2, 3), "fields")); Tensor y; round(x, y); sx_reach("end"); }
SX_ENTRY h_again() {   // reading into a tensor that already holds something; two in a row
    Dev d; Tensor y; if (sx_choose(2, "old")) { std::vector<Tensor> f; f.push_back(any(UINT8, {2}, "o")); f.push_back(any(INT16, {1}, "o")); y = Tensor::Pack(f); } else y = any(INT64, {3}, "o");
    Tensor keep = y, a = any(UINT8, {sx_pick(0, 2, "n")}, "a"); Tensor kc = keep.clone(); std::vector<Tensor> f; f.push_back(any(UINT8, {1}, "b")); f.push_back(any(INT32, {1}, "b")); Tensor b = Tensor::Pack(f);
    Buf w; a.serialize(w); b.serialize(w); Tensor none; none.serialize(w); Src r(w.s); y.externalize(r); same(a, y); y.externalize(r); same(b, y); y.externalize(r); same(none, y); SX_ASSERT(y.empty() && r.pos == w.s.size(), "an empty tensor survives"); same(kc, keep); sx_reach("end"); }
SX_ENTRY h_view() {   // tensors that show part of a larger block: a bigger block, a slice, a reshaped or flattened view
    Dev d; int w = (int) sx_choose(5, "view"); Tensor x, b; if (w == 0) { Memory m(MemoryDevice(CPU), 16); for (int i = 0; i < 16; ++i) m.data<unsigned char>()[i] = sx_u8("x"); x = Tensor(m, Tensor::Prototype(INT16, shp({sx_pick(0, 2, "a"), 2}))); }
    else { b = any(INT16, {3, 2}, "x"); if (w == 1) x = b.slice(sx_pick(0, 2, "i")); else if (w == 2) { int i = sx_pick(0, 2, "i"); x = b.slice(i, sx_pick(i + 1, 3, "j")); } else if (w == 3) x = b.reshape({2, 3}); else x = b.flatten(0); }
    Tensor y; round(x, y); std::vector<Tensor> f; f.push_back(x); f.push_back(any(UINT8, {1}, "f")); Tensor z; round(Tensor::Pack(f), z); sx_reach("end"); }
SX_ENTRY h_truncated() {
    Dev d; Tensor x = sx_choose(2, "pack") ? packed(2) : any(INT16, {2, sx_pick(1, 2, "n")}, "x"); Buf w; x.serialize(w); Src r(w.s); r.cut = sx_pick(0, (int) w.s.size() - 1, "cut"); Tensor y;
    SX_ASSERT(throws_any([&]() { y.externalize(r); }), "a truncated tensor is rejected"); sx_reach("end"); }
SX_ENTRY h_hostile() {   // arbitrary header in front of a short body: memory safe, and whatever is accepted is consistent
    Dev d; std::string s; auto put = [&](uint32_t v) { s.append((const char *) &v, 4); }; put(1); s += (char) sx_u8("dtype"); uint32_t dims = sx_u32("dims"); put(dims); 
    uint32_t z[3], cand[5] = {0, 1, 2, 65536, 0x7fffffff}; for (int i = 0; i < 3; ++i) { z[i] = sx_u32("size"); if (i && dims <= (uint32_t) i) z[i] = 1; int k = (int) sx_choose(6, "class"); if (k < 5) { sx_assume(z[i] == cand[k]); z[i] = cand[k]; } else sx_assume(z[i] >= 0x80000000u); put(z[i]); } for (int i = 0; i < 4; ++i) s += (char) sx_u8("body");
    sx_assume(dims > 7 || dims <= 3);
    uint64_t big = 1; bool neg = false; for (uint32_t i = 0; i < dims && i < 3; ++i) { if (z[i] > 0x7fffffff) neg = true; if (!neg) big *= z[i]; } sx_assume(neg || big <= 8 || big > 0x7fffffff);
    Src r(s); Tensor y; bool t = throws_any([&]() { y.externalize(r); });
    if (t) { sx_reach("bad"); return; }
    SX_ASSERT(dims <= 3 && !neg && y.dims() == dims, "accepted shape is the stored one"); for (uint32_t i = 0; i < dims; ++i) SX_ASSERT(y.size(i) == (int) z[i], "accepted size is the stored one"); int n = y.count() * type_bytes(y.dtype()); const unsigned char *p = y.data<unsigned char>(); 
    SX_ASSERT(n <= 4 + 4 * (3 - (int) dims), "an accepted tensor is backed by stream data"); for (int i = 0; i < n; ++i) SX_ASSERT(p[i] == (unsigned char) s[9 + 4 * dims + i], "payload bytes"); sx_reach("ok"); }
