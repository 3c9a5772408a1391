//@ sources: @core
//@ entry: h_int8 reach=end timeout=300
//@ entry: h_int16 reach=end timeout=300
//@ entry: h_int32 reach=end timeout=300
//@ entry: h_int64 reach=end timeout=300
//@ entry: h_add reach=end timeout=300
//@ entry: h_mul8 reach=end timeout=300
//@ entry: h_mul16 reach=end timeout=300
//@ entry: h_div8 reach=end timeout=300
//@ entry: h_div16 reach=end timeout=600
//@ entry: h_cmp reach=end timeout=300
//@ entry: h_float reach=end timeout=300
//@ entry: h_back reach=end timeout=300
//@ entry: h_wide reach=end timeout=300
//@ bounds: every number of 8 and 16 bits with 0, 1, 4 and 7 (and 15) fraction bits, every 32- and 64-bit number for conversion, sum and comparison with up to 63 fraction bits
//@ assume: results fit where the representation is exact, otherwise they wrap around
//@ outside: products and quotients of 32- and 64-bit numbers; stream input and output
#include "op.h"
#include <core/sink.h>
template <typename T> struct SS { typedef typename _signed<T>::T S; };
static __attribute__((noinline)) int32_t mulref(int32_t a, int32_t b, int q) { return (a * b) >> q; }   // (kept apart from the code under test)
static int64_t asr(int64_t v, int q) { return v >> q; }
template <typename T, int Q> struct K { typedef typename _signed<T>::T S; typedef sink<T, Q> N; static N mk(S v) { return N::from_fixed((T) v); } static int64_t val(N n) { return (S) n.value; }
    static void ints() { int8_t a = (int8_t) sx_int("a", 8); int32_t c = sx_i32("c"); uint16_t b = (uint16_t) sx_int("b", 16); int64_t d = (int64_t) sx_int("d", 64); SX_ASSERT(val(N(a)) == (S) ((uint64_t) (int64_t) a << Q), "from a small integer"); SX_ASSERT(val(N(b)) == (S) ((uint64_t) b << Q), "from an unsigned integer"); SX_ASSERT(val(N(c)) == (S) ((uint64_t) (int64_t) c << Q), "from an integer"); SX_ASSERT(val(N(d)) == (S) ((uint64_t) d << Q), "from a long integer"); S v = (S) sx_int("v", 8 * sizeof(T)); N n = mk(v); SX_ASSERT((int64_t) n == asr(v, Q), "to a long integer, rounded down"); SX_ASSERT((int32_t) n == (int32_t) asr(v, Q), "to an integer"); SX_ASSERT((uint8_t) n == (uint8_t) asr(v, Q), "to a byte"); SX_ASSERT(n.template to<int64_t>() == asr(v, Q), "to()"); SX_ASSERT(val(N::Max()) == number<S>::Max() && val(N::Min()) == number<S>::Min(), "largest and smallest"); int64_t i = asr(v, Q); SX_ASSERT((int64_t) N(i) == i, "an integer that fits comes back"); }
    static void add() { S a = (S) sx_int("a", 8 * sizeof(T)), b = (S) sx_int("b", 8 * sizeof(T)); N x = mk(a), y = mk(b); SX_ASSERT(val(x + y) == (S) ((uint64_t) (int64_t) a + (uint64_t) (int64_t) b), "sum"); SX_ASSERT(val(x - y) == (S) ((uint64_t) (int64_t) a - (uint64_t) (int64_t) b), "difference"); SX_ASSERT(val(-x) == (S) (0 - (uint64_t) (int64_t) a), "negated"); }
    static void cmp() { S a = (S) sx_int("a", 8 * sizeof(T)), b = (S) sx_int("b", 8 * sizeof(T)); N x = mk(a), y = mk(b); SX_ASSERT((x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b) && (x == y) == (a == b) && (x != y) == (a != b), "ordered by value"); }
    static void mul() { S a = (S) sx_int("a", 8 * sizeof(T)), b = (S) sx_int("b", 8 * sizeof(T)); SX_ASSERT(val(mk(a) * mk(b)) == (S) mulref(a, b, Q), "product, rounded down"); }
    static void div() { S a = (S) sx_int("a", 8 * sizeof(T)), b = (S) sx_int("b", 8 * sizeof(T)); int64_t q = val(mk(a) / mk(b)); if (b == 0) { SX_ASSERT(q == number<S>::Max(), "the largest number for a quotient by zero"); return; } int32_t w = (int32_t) (((int64_t) a) << Q) / (int32_t) b; SX_ASSERT(q == (S) w, "quotient, rounded towards zero"); }
    // exact both ways where a float holds the number
    template <typename F> static void back() { S v = (S) sx_int("v", 8 * sizeof(T)); F f = (F) mk(v); SX_ASSERT(f * (F) ((uint64_t) 1 << Q) == (F) v, "the value"); SX_ASSERT(val(N(f)) == v, "back to the same number"); }
    template <typename F> static void from(int lo, int hi) { int k = sx_pick(lo, hi, "expected"); F f = dt<F>::sym("f"), scaled = f * (F) ((uint64_t) 1 << Q); if (k > 0) sx_assume(scaled >= (F) k && scaled < (F) (k + 1)); else if (k < 0) sx_assume(scaled <= (F) k && scaled > (F) (k - 1)); else sx_assume(scaled > -1 && scaled < 1); SX_ASSERT(val(N(f)) == k, "the nearest number towards zero"); } };
SX_ENTRY h_int8() { switch (sx_choose(4, "q")) { case 0: K<uint8_t, 0>::ints(); break; case 1: K<uint8_t, 4>::ints(); break; case 2: K<uint8_t, 7>::ints(); break; case 3: K<int8_t, 3>::ints(); break; } sx_reach("end"); }
SX_ENTRY h_int16() { switch (sx_choose(4, "q")) { case 0: K<uint16_t, 0>::ints(); break; case 1: K<uint16_t, 7>::ints(); break; case 2: K<uint16_t, 15>::ints(); break; case 3: K<int16_t, 3>::ints(); break; } sx_reach("end"); }
SX_ENTRY h_int32() { switch (sx_choose(4, "q")) { case 0: K<uint32_t, 0>::ints(); break; case 1: K<uint32_t, 16>::ints(); break; case 2: K<uint32_t, 31>::ints(); break; case 3: K<int32_t, 3>::ints(); break; } sx_reach("end"); }
SX_ENTRY h_int64() { switch (sx_choose(4, "q")) { case 0: K<uint64_t, 0>::ints(); break; case 1: K<uint64_t, 33>::ints(); break; case 2: K<uint64_t, 63>::ints(); break; case 3: K<int64_t, 3>::ints(); break; } sx_reach("end"); }
SX_ENTRY h_add() { switch (sx_choose(6, "q")) { case 0: K<uint8_t, 0>::add(); break; case 1: K<uint8_t, 7>::add(); break; case 2: K<uint16_t, 9>::add(); break; case 3: K<int8_t, 3>::add(); break; case 4: K<uint32_t, 31>::add(); break; case 5: K<uint64_t, 40>::add(); break; } sx_reach("end"); }
SX_ENTRY h_cmp() { switch (sx_choose(6, "q")) { case 0: K<uint8_t, 0>::cmp(); break; case 1: K<uint8_t, 7>::cmp(); break; case 2: K<uint16_t, 9>::cmp(); break; case 3: K<int8_t, 3>::cmp(); break; case 4: K<uint32_t, 31>::cmp(); break; case 5: K<uint64_t, 40>::cmp(); break; } sx_reach("end"); }
SX_ENTRY h_mul8() { switch (sx_choose(5, "q")) { case 0: K<uint8_t, 0>::mul(); break; case 1: K<uint8_t, 1>::mul(); break; case 2: K<uint8_t, 4>::mul(); break; case 3: K<uint8_t, 7>::mul(); break; case 4: K<int8_t, 3>::mul(); break; } sx_reach("end"); }
SX_ENTRY h_mul16() { switch (sx_choose(3, "q")) { case 0: K<uint16_t, 0>::mul(); break; case 1: K<uint16_t, 7>::mul(); break; case 2: K<uint16_t, 15>::mul(); break; } sx_reach("end"); }
SX_ENTRY h_div8() { switch (sx_choose(5, "q")) { case 0: K<uint8_t, 0>::div(); break; case 1: K<uint8_t, 1>::div(); break; case 2: K<uint8_t, 4>::div(); break; case 3: K<uint8_t, 7>::div(); break; case 4: K<int8_t, 3>::div(); break; } sx_reach("end"); }
SX_ENTRY h_div16() { if (sx_choose(2, "q")) K<uint16_t, 7>::div(); else K<uint16_t, 0>::div(); sx_reach("end"); }
SX_ENTRY h_back() { switch (sx_choose(6, "q")) { case 0: K<uint8_t, 0>::back<float>(); break; case 1: K<uint8_t, 7>::back<float>(); break; case 2: K<uint16_t, 9>::back<double>(); break; case 3: K<int8_t, 3>::back<double>(); break; case 4: K<uint16_t, 15>::back<float>(); break; case 5: K<uint32_t, 31>::back<double>(); break; } sx_reach("end"); }
SX_ENTRY h_float() { switch (sx_choose(4, "q")) { case 0: K<uint8_t, 0>::from<float>(-127, 127); break; case 1: K<uint8_t, 7>::from<float>(-128, 127); break; case 2: K<uint16_t, 9>::from<double>(32640, 32767); break; case 3: K<uint32_t, 31>::from<double>(-2147483647, -2147483600); break; } sx_reach("end"); }
SX_ENTRY h_wide() { typedef K<uint64_t, 40> A; typedef K<uint64_t, 63> B; typedef K<uint32_t, 31> C; SX_ASSERT(A::val(A::N(1.5)) == ((int64_t) 3 << 39) && (double) A::N(-2.25) == -2.25, "many fraction bits"); SX_ASSERT((double) B::N(0.5) == 0.5 && (double) B::N(-0.75) == -0.75, "63 fraction bits"); SX_ASSERT((double) C::N(0.5) == 0.5 && (float) C::N(-0.25f) == -0.25f, "31 fraction bits"); sx_reach("end"); }
