//@ sources: @op
//@ entry: h_widen reach=end
//@ entry: h_narrow reach=end
//@ entry: h_double reach=end
//@ entry: h_wide reach=end
//@ entry: h_round reach=end
//@ entry: h_order reach=end
//@ entry: h_arith reach=end
//@ entry: h_tensor reach=end
//@ bounds: every 16-bit, 32-bit and 64-bit pattern for the conversions, every pair of 16-bit patterns for the comparisons (no bound on values); arithmetic and conversion to and from integers on pairs out of 16 values; tensors of 1-5 of these
//@ assume: nothing for the conversions; comparisons exclude NaN and infinity
//@ outside: arithmetic on arbitrary values (it is that of float, rounded by the conversion checked here)
#include "op.h"
#include <core/ieee754_float.h>
typedef ieee754_float<16, 1, 5, 10> H; typedef ieee754_float<32, 1, 8, 23> F; typedef ieee754_float<64, 1, 11, 52> D;
static H h(uint16_t c) { return H(bitset_code<16>(c)); }
static int top(uint64_t f, int bits) { int b = 0; for (int i = 0; i < bits; ++i) if ((f >> i) & 1) b = i; return b; }
// the pattern with the same value in a wider format (E exponent bits, M fraction bits), saturated for infinity and NaN
static uint64_t widen(uint64_t c, int e0, int m0, int E, int M) { uint64_t s = c >> (e0 + m0), e = (c >> m0) & ((1u << e0) - 1), f = c & ((1ull << m0) - 1), S = s << (E + M), bias0 = (1 << (e0 - 1)) - 1, bias = (1 << (E - 1)) - 1; if (!e && !f) return S; if (e == (1u << e0) - 1) return S | (((1ull << E) - 2) << M) | ((1ull << M) - 1); if (e) return S | ((e - bias0 + bias) << M) | (f << (M - m0)); 
    uint64_t r = 0; for (int b = 0; b < m0; ++b) r = (f >> b) == 1 ? ((uint64_t) (b + 1 - m0 - (int) bias0 + (int) bias) << M) | ((f << (M - b)) & ((1ull << M) - 1)) : r; return S | r; }
// the largest pattern not above in magnitude, never zero for a number other than zero, saturated
static uint64_t narrow(uint64_t c, int e0, int m0, int E, int M) { uint64_t s = c >> (e0 + m0), e = (c >> m0) & ((1u << e0) - 1), f = c & ((1ull << m0) - 1), S = s << (E + M); if (!e && !f) return S; int64_t x = (int64_t) e - ((1 << (e0 - 1)) - 1) + ((1 << (E - 1)) - 1); if (x > (1 << E) - 2) return S | (((1ull << E) - 2) << M) | ((1ull << M) - 1); if (x > 0) return S | ((uint64_t) x << M) | (f >> (m0 - M)); uint64_t m = x < -M || !e ? 0 : ((1ull << m0) | f) >> (m0 - M + 1 - x); return S | (m ? m : 1); }
SX_ENTRY h_widen() { uint16_t c = sx_int("half", 16); SX_ASSERT(F(h(c)).code() == widen(c, 5, 10, 8, 23), "half to float keeps the value"); SX_ASSERT(D(h(c)).code() == widen(c, 5, 10, 11, 52), "half to double keeps the value"); sx_reach("end"); }
SX_ENTRY h_narrow() { uint32_t c = sx_u32("float"); SX_ASSERT(H(F(bitset_code<32>(c))).code() == narrow(c, 8, 23, 5, 10), "float to half gives the nearest half towards zero"); sx_reach("end"); }
SX_ENTRY h_double() { uint64_t c = sx_u64("double"); SX_ASSERT(H(D(bitset_code<64>(c))).code() == narrow(c, 11, 52, 5, 10), "double to half gives the nearest half towards zero"); sx_reach("end"); }
SX_ENTRY h_wide() { if (sx_choose(2, "to float")) { uint64_t c = sx_u64("double"); SX_ASSERT(F(D(bitset_code<64>(c))).code() == narrow(c, 11, 52, 8, 23), "double to float gives the nearest float towards zero"); } else { uint32_t c = sx_u32("float"); SX_ASSERT(D(F(bitset_code<32>(c))).code() == widen(c, 8, 23, 11, 52), "float to double keeps the value"); } sx_reach("end"); }
SX_ENTRY h_round() { uint16_t c = sx_int("half", 16); sx_assume((c & 0x7c00) != 0x7c00); SX_ASSERT(H(F(h(c))).code() == c && H(D(h(c))).code() == c, "a half survives conversion to a wider type and back"); uint32_t f = sx_u32("float"); uint16_t r = H(F(bitset_code<32>(f))).code(); SX_ASSERT((r & 0x7c00) != 0x7c00, "never infinity or NaN"); SX_ASSERT(((f & 0x7fffffff) == 0) == ((r & 0x7fff) == 0) && (r >> 15) == (f >> 31), "sign and zero survive"); uint32_t g = sx_u32("larger"); uint16_t q = H(F(bitset_code<32>(g))).code(); if ((g & 0x7fffffff) >= (f & 0x7fffffff)) SX_ASSERT((q & 0x7fff) >= (r & 0x7fff), "conversion keeps the order"); sx_reach("end"); }
static int32_t key(uint16_t c) { return c & 0x8000 ? -(int32_t) (c & 0x7fff) : (int32_t) c; }
SX_ENTRY h_order() { uint16_t a = sx_int("a", 16), b = sx_int("b", 16); sx_assume((a & 0x7c00) != 0x7c00 && (b & 0x7c00) != 0x7c00); int32_t x = key(a), y = key(b); H p = h(a), q = h(b); SX_ASSERT((p == q) == (x == y), "equal"); SX_ASSERT((p != q) == (x != y), "not equal"); SX_ASSERT((p < q) == (x < y), "less"); SX_ASSERT((p <= q) == (x <= y), "less or equal"); SX_ASSERT((p > q) == (x > y), "greater"); SX_ASSERT((p >= q) == (x >= y), "greater or equal"); SX_ASSERT(p.iszero() == (x == 0), "zero"); sx_reach("end"); }
static const double V[] = {0, 1, -1, 0.5, 2, 3, -7, 100, 1024, -0.25, 0.0009765625, 65504, 6.103515625e-05, 5.9604644775390625e-08, -3.0517578125e-05, 255};
static double cut(double x) { if (x == 0) return x; bool neg = x < 0; double a = neg ? -x : x; if (a >= 65536) a = 65504; double u = 1024; if (a < 6.103515625e-05) u = 5.9604644775390625e-08; else { double p = 6.103515625e-05; while (p * 2 <= a) p *= 2; u = p / 1024; } a = std::floor(a / u) * u; if (a == 0) a = 5.9604644775390625e-08; return neg ? -a : a; }
SX_ENTRY h_arith() { int i = (int) sx_choose(16, "a"), j = (int) sx_choose(16, "b"); H a(V[i]), b(V[j]), c((float) V[i]); SX_ASSERT(double(a) == V[i] && float(b) == (float) V[j] && a.code() == c.code(), "values a half can hold survive"); SX_ASSERT(double(a + b) == cut((float) V[i] + (float) V[j]), "sum"); SX_ASSERT(double(a - b) == cut((float) V[i] - (float) V[j]), "difference"); SX_ASSERT(double(a * b) == cut((float) V[i] * (float) V[j]), "product"); if (j) SX_ASSERT(double(a / b) == cut((float) V[i] / (float) V[j]), "quotient"); SX_ASSERT(double(-a) == -V[i], "negation"); SX_ASSERT((a < b) == (V[i] < V[j]) && (a == b) == (V[i] == V[j]), "comparison");
    int n = (int) V[i]; if (n == V[i]) { SX_ASSERT(H((int32_t) n).code() == a.code() && H((int64_t) n).code() == a.code(), "from an integer"); SX_ASSERT((int32_t) a == n && (int64_t) a == n, "to an integer"); if (n >= 0 && n < 256) SX_ASSERT(H((uint8_t) n).code() == a.code() && (uint8_t) a == n && H((uint32_t) n).code() == a.code(), "from and to an unsigned integer"); if (n >= -128 && n < 128) SX_ASSERT(H((int8_t) n).code() == a.code() && (int8_t) a == n && H((int16_t) n).code() == a.code(), "from and to a small integer"); } sx_reach("end"); }
SX_ENTRY h_tensor() { Dev d; int n = sx_pick(1, 5, "n"), o = sx_pick(0, 11, "from"); std::vector<float> v; for (int i = 0; i < n; ++i) v.push_back((float) V[o + i]); Tensor x = mk<float>({n}, v), y = tensor::cast(FLOAT16, x); SX_ASSERT(y.dtype() == FLOAT16 && y.count() == n, "a half tensor"); for (int i = 0; i < n; ++i) SX_ASSERT(y.data<uint16_t>()[i] == H(v[i]).code(), "every element converted"); want(tensor::cast(FLOAT32, y), {n}, v, "and back"); Tensor z = tensor::cast(BOOLEAN, y); for (int i = 0; i < n; ++i) SX_ASSERT(z.data<uint8_t>()[i] == (v[i] != 0), "as bool"); Tensor w = tensor::cast(FLOAT16, tensor::cast(FLOAT64, x)); for (int i = 0; i < n; ++i) SX_ASSERT(w.data<uint16_t>()[i] == y.data<uint16_t>()[i], "from double"); std::vector<H> hv; for (float f : v) hv.push_back(H(f)); Tensor q = tensor::from(hv); SX_ASSERT(q.dtype() == FLOAT16 && q.data<uint16_t>()[n - 1] == hv[n - 1].code(), "halves as a tensor"); sx_reach("end"); }
