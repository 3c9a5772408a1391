//@ sources: @op src/backend/base/element_wise_reduce.cpp src/backend/base/base_equal.cpp src/kernels/cpu/add.cpp src/kernels/cpu/sub.cpp src/kernels/cpu/mul.cpp src/kernels/cpu/div.cpp src/kernels/cpu/mod.cpp src/kernels/cpu/maximum.cpp src/kernels/cpu/equal.cpp src/kernels/cpu/cast.cpp src/backend/base/base_cast_v2.cpp
//@ entry: h_shapes0 reach=end
//@ entry: h_shapes1 reach=end
//@ entry: h_shapes2 reach=end
//@ entry: h_long reach=end
//@ entry: h_types reach=end
//@ entry: h_mixed reach=end
//@ entry: h_wide reach=end
//@ entry: h_mod reach=end
//@ entry: h_equal reach=end
//@ entry: h_deep reach=end
//@ entry: h_bad reach=end
//@ bounds: operands of 0-3 dims of size 1..3 in every broadcastable combination, selected combinations of 4 dims, lengths up to 9 (div: 5); all ten element types, also the largest integers and doubles beyond float precision; every pair of different element types
//@ assume: element values arbitrary (floats: reals); integer divisors of mod nonzero; quotients representable
//@ stub: intime::cast runs the same cast operator without a workbench
//@ outside: larger shapes; float rounding; FLOAT16; mod by zero
#include "op.h"
template <typename T> static T ref(int f, T a, T b) { typedef typename std::conditional<std::is_integral<T>::value, std::make_unsigned<T>, std::enable_if<true, T>>::type U; typedef typename U::type V;
    switch (f) { case 0: return (T) ((V) a + (V) b); case 1: return (T) ((V) a - (V) b); case 2: return (T) ((V) a * (V) b); case 3: return b == 0 ? (a > 0 ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest()) : (T) (a / b); default: return a > b ? a : b; } }
namespace ts { namespace intime { Tensor cast(const Tensor &x, DTYPE t) { if (x.dtype() == t) return x; OpT op("_cast"); op.set("dtype", i1((int) t)); return op.run1({x}); } } }
static const char *OPS[] = {"add", "sub", "mul", "div", "maximum"};
// broadcast shape; false if incompatible
static bool bc(const Ints &a, const Ints &b, Ints &o) { size_t n = std::max(a.size(), b.size()); o.assign(n, 1); for (size_t i = 0; i < n; ++i) { int x = i + a.size() >= n ? a[i + a.size() - n] : 1, y = i + b.size() >= n ? b[i + b.size() - n] : 1; if (x != y && x != 1 && y != 1) return false; o[i] = x == 1 ? y : x; } return true; }
static int bat(const Ints &s, const Ints &o) { Ints i; for (size_t k = 0; k < s.size(); ++k) { int v = o[o.size() - s.size() + k]; i.push_back(s[k] == 1 ? 0 : v); } return at(s, i); }
template <typename T> void one(int f, const Ints &a, const Ints &b) {
    Ints o; if (!bc(a, b, o)) return; auto x = symv<T>(prod(a), "x"), y = symv<T>(prod(b), "y");
    if (f == 3 && std::is_integral<T>::value && std::is_signed<T>::value) for (auto v : y) sx_assume(v != (T) -1);
    Tensor tx = mk(a, x), ty = mk(b, y); OpT op(OPS[f]); Tensor r = op.run1({tx, ty}); std::vector<T> w(prod(o)); for (Ix i(o); !i.done; i.next()) w[at(o, i.i)] = ref<T>(f, x[bat(a, i.i)], y[bat(b, i.i)]);
    want(r, o, w, "element is the operation on the broadcast operands"); want(tx, a, x, "operands are left alone"); want(ty, b, y, "operands are left alone"); }
static void shapes(int n, int m) { Ints a = pick_shape(n, 1, 3), b = pick_shape(m, 1, 3), o; if (!bc(a, b, o) || prod(o) > 12) { sx_assume(false); return; } static const int FS[] = {1, 3, 0, 2, 4}; int f = prod(o) <= 6 ? FS[sx_pick(0, 4, "op")] : 1; if (f == 3) one<int32_t>(f, a, b); else one<float>(f, a, b); sx_reach("end"); }
SX_ENTRY h_shapes0() { Dev d; int n = sx_pick(0, 2, "dims"), m = sx_pick(0, 2, "dims2"); shapes(n, m); }
SX_ENTRY h_shapes1() { Dev d; int m = sx_pick(0, 3, "dims2"); shapes(3, m); }
SX_ENTRY h_shapes2() { Dev d; int n = sx_pick(0, 2, "dims"); shapes(n, 3); }
SX_ENTRY h_long() {   // vectorised loops and their tails
    Dev d; int f = sx_pick(0, 4, "op"), k = sx_pick(0, 5, "kind"), n = sx_pick(1, 9, "n"); if (f == 3) sx_assume(n <= (k < 3 ? 5 : 2)); Ints a, b; switch (k) { case 0: a = {n}; b = {n}; break; case 1: a = {n}; b = {1}; break; case 2: a = {}; b = {n}; break; case 3: a = {2, 2, n}; b = {2, 1}; break; case 4: a = {2, 1}; b = {2, 2, n}; break; default: a = {n, 2}; b = {n, 1}; } one<float>(f, a, b); sx_reach("end"); }
SX_ENTRY h_types() { Dev d; int f = sx_pick(0, 4, "op"), k = sx_pick(0, 6, "kind"); Ints a, b; switch (k) { case 0: a = {5}; b = {5}; break; case 1: a = {2, 2}; b = {1}; break; case 2: a = {1}; b = {2, 2}; break; case 3: a = {2, 2, 2}; b = {2, 1}; break; case 4: a = {2, 1}; b = {2, 2, 2}; break; case 5: a = {2, 1, 2}; b = {1, 2, 1}; break; default: a = {2, 2}; b = {2}; }
#define CALL(T) one<T>(f, a, b)
    SX_ALLT(CALL)
#undef CALL
    sx_reach("end"); }
static const DTYPE TS_[] = {INT8, UINT8, INT16, UINT16, INT32, UINT32, INT64, UINT64, FLOAT32, FLOAT64};
static DTYPE promote(DTYPE a, DTYPE b) { if (a == b) return a; bool fa = a == FLOAT32 || a == FLOAT64, fb = b == FLOAT32 || b == FLOAT64; int sa = type_bytes(a), sb = type_bytes(b); if (fa && fb) return FLOAT64; if (fa || fb) { DTYPE f = fa ? a : b; int si = fa ? sb : sa; return f == FLOAT64 || si == 8 ? FLOAT64 : FLOAT32; } bool ua = a == UINT8 || a == UINT16 || a == UINT32 || a == UINT64, ub = b == UINT8 || b == UINT16 || b == UINT32 || b == UINT64; int s = sa > sb ? sa : sb; bool u = ua && ub; return s == 1 ? (u ? UINT8 : INT8) : s == 2 ? (u ? UINT16 : INT16) : s == 4 ? (u ? UINT32 : INT32) : (u ? UINT64 : INT64); }
template <typename A, typename B, typename R> void mix3(const std::vector<A> &x, const std::vector<B> &y, const Tensor &r) { std::vector<R> w; for (int i = 0; i < 2; ++i) w.push_back(ref<R>(1, (R) x[i], (R) y[0])); want(r, {2}, w, "operation on operands converted to the common type"); }
template <typename A, typename B> void mix2() { auto x = symv<A>(2, "x"); auto y = symv<B>(1, "y"); OpT op("sub"); bool sw = sx_choose(2, "sw"); Tensor r = op.run1({mk({2}, x), mk({1}, y)}); DTYPE p = promote(dt<A>::v, dt<B>::v); SX_ASSERT(r.dtype() == p, "common type"); if (sw) { OpT o2("add"); SX_ASSERT(o2.run1({mk({1}, y), mk({2}, x)}).dtype() == p, "the common type does not depend on the order"); return; }
    switch (p) { case INT8: mix3<A, B, int8_t>(x, y, r); break; case UINT8: mix3<A, B, uint8_t>(x, y, r); break; case INT16: mix3<A, B, int16_t>(x, y, r); break; case UINT16: mix3<A, B, uint16_t>(x, y, r); break; case INT32: mix3<A, B, int32_t>(x, y, r); break; case UINT32: mix3<A, B, uint32_t>(x, y, r); break; case INT64: mix3<A, B, int64_t>(x, y, r); break; case UINT64: mix3<A, B, uint64_t>(x, y, r); break; case FLOAT32: mix3<A, B, float>(x, y, r); break; default: mix3<A, B, double>(x, y, r); } }
template <typename A> void mix1() {
#define CALL(T) mix2<A, T>()
    SX_ALLT(CALL)
#undef CALL
}
SX_ENTRY h_mixed() { Dev d;
#define CALL(T) mix1<T>()
    SX_ALLT(CALL)
#undef CALL
    sx_reach("end"); }
template <typename T> void mod1(const Ints &a, const Ints &b) { Ints o; bc(a, b, o); auto x = symv<T>(prod(a), "x"), y = symv<T>(prod(b), "y"); for (auto v : y) sx_assume(v != 0); OpT op("mod"); for (auto v : y) if (std::is_signed<T>::value) sx_assume(v != (T) -1); Tensor r = op.run1({mk(a, x), mk(b, y)}); std::vector<T> w(prod(o)); for (Ix i(o); !i.done; i.next()) w[at(o, i.i)] = (T) (x[bat(a, i.i)] % y[bat(b, i.i)]); want(r, o, w, "remainder"); }
template <typename T> T modref(T a, T b, std::true_type) { return (T) (a % b); } template <typename T> T modref(T a, T b, std::false_type) { return a; }
template <typename T> void wide1() { auto x = edges<T>(2, "x", 0, 3), y = edges<T>(1, "y", 0, 3); int f = sx_pick(0, 6, "op"), k = sx_pick(0, 1, "form"); std::vector<T> z(2, y[0]); Tensor tx = mk({2}, x), ty = k ? mk({2}, z) : mk({1}, y); if (f == 5 && (!std::is_integral<T>::value || sizeof(T) < 4 || y[0] == 0)) return; if (f == 6) { OpT op("equal"); Tensor r = op.run1({tx, ty}); auto *p = (const uint8_t *) r.data(); for (int i = 0; i < 2; ++i) SX_ASSERT((p[i] != 0) == (x[i] == y[0]), "equality of the values"); return; }
    if (std::is_signed<T>::value && std::is_integral<T>::value && f == 2) return; std::vector<T> w; for (T e : x) w.push_back(f == 5 ? modref<T>(e, y[0], std::is_integral<T>()) : ref<T>(f, e, y[0])); OpT op(f == 5 ? "mod" : OPS[f]); want12(op.run1({tx, ty}), {2}, w, "operation on the values"); }
SX_ENTRY h_wide() { Dev d;
#define CALL(T) wide1<T>()
    SX_ALLT(CALL)
#undef CALL
    sx_reach("end"); }
SX_ENTRY h_mod() { Dev d; int k = sx_pick(0, 7, "kind"); Ints a, b; switch (k) { case 0: a = {3}; b = {3}; break; case 1: a = {2, 2}; b = {1}; break; case 2: a = {1}; b = {2, 2}; break; case 3: a = {2, 1, 2}; b = {2, 1, 1}; break; case 4: a = {2, 1}; b = {1, 2, 2}; break; case 5: a = {2, 1, 2}; b = {1, 2, 1}; break; case 6: a = {2}; b = {2, 2}; break; default: a = {2, 2}; b = {2}; }
    switch (sx_choose(4, "type")) { case 0: mod1<int8_t>(a, b); break; case 1: mod1<uint8_t>(a, b); break; case 2: mod1<int32_t>(a, b); break; default: mod1<uint16_t>(a, b); } sx_reach("end"); }
template <typename T> void eq1(const Ints &a, const Ints &b) { Ints o; bc(a, b, o); auto x = symv<T>(prod(a), "x"), y = symv<T>(prod(b), "y"); OpT op("equal"); Tensor r = op.run1({mk(a, x), mk(b, y)}); SX_ASSERT(r.dtype() == BOOLEAN, "output dtype"); want_shape(r, o, "output shape"); auto *p = (const uint8_t *) r.data(); for (Ix i(o); !i.done; i.next()) SX_ASSERT((p[at(o, i.i)] != 0) == (x[bat(a, i.i)] == y[bat(b, i.i)]), "equality of the broadcast operands"); }
SX_ENTRY h_equal() { Dev d; int n = sx_pick(0, 3, "dims"), m = sx_pick(0, 3, "dims2"); Ints a = pick_shape(n, 1, 2), b = pick_shape(m, 1, 2), o; sx_assume(bc(a, b, o)); if (n == 1 && m == 1) {
#define CALL(T) eq1<T>(a, b)
        SX_ALLT(CALL)
#undef CALL
    } else eq1<int32_t>(a, b); sx_reach("end"); }
SX_ENTRY h_deep() { Dev d; int n = 4; Ints a, b; int fill = 1; for (int i = 0; i < n; ++i) { int k = sx_pick(0, 2, "bcast"); int s = ++fill > 3 ? 2 : fill; a.push_back(k == 1 ? 1 : s); b.push_back(k == 2 ? 1 : s); } Ints o; bc(a, b, o); auto x = symv<float>(prod(a), "x"), y = symv<float>(prod(b), "y"); OpT op("sub"); Tensor r = op.run1({mk(a, x), mk(b, y)}); std::vector<float> w(prod(o)); for (Ix i(o); !i.done; i.next()) w[at(o, i.i)] = x[bat(a, i.i)] - y[bat(b, i.i)]; want(r, o, w, "element"); sx_reach("end"); }
SX_ENTRY h_bad() { Dev d; int n = sx_pick(1, 3, "dims"), m = sx_pick(1, 3, "dims2"); Ints a = pick_shape(n, 1, 3), b = pick_shape(m, 1, 3), o; sx_assume(!bc(a, b, o)); static const char *all[] = {"add", "div", "mod", "equal"}; const char *f = all[sx_choose(4, "op")]; SX_ASSERT(throws([&]() { OpT op(f); op.run1({mk(a, std::vector<int32_t>(prod(a), 1)), mk(b, std::vector<int32_t>(prod(b), 1))}); }), "shapes that do not fit are rejected"); SX_ASSERT(throws([&]() { OpT op(f); op.run1({mk(a, std::vector<int32_t>(prod(a), 1))}); }), "two operands are needed"); sx_reach("end"); }
