//@ sources: @op src/utils/box.cpp
//@ entry: h_cast reach=end
//@ entry: h_wide reach=end
//@ entry: h_bool reach=end
//@ entry: h_reject reach=end
//@ entry: h_scalar reach=end
//@ entry: h_array reach=end
//@ entry: h_build reach=end
//@ entry: h_string reach=end
//@ entry: h_types reach=end
//@ entry: h_bins reach=end
//@ entry: h_lbins reach=end
//@ entry: h_edit reach=end
//@ bounds: every pair of the ten numeric types, BOOLEAN and CHAR8, 0-9 elements (unrolled by four, with tail), 0-2 dims; every other type value; strings up to 3 characters; up to 2 (thorough: and 4) pieces of any range of 32- or 64-bit integers, other counts of ranges of up to 16 integers at the ends and the middle; edit distance of every pair of strings up to 3 characters
//@ assume: element values arbitrary (floats: reals); a float cast to an integer type lies in the range of that type
//@ outside: 16-bit floats (C14); float rounding of 64-bit integers; numbers written in strings
#include "op.h"
#include <utils/box.h>
#include <algorithm>
#include <climits>
template <typename T> struct isf { static const bool v = false; }; template <> struct isf<float> { static const bool v = true; }; template <> struct isf<double> { static const bool v = true; };
template <typename A, typename B> static void fit(A x) { if (isf<A>::v && !isf<B>::v) { if (sizeof(B) == 8) sx_assume(x >= A(-1000000) && x <= A(1000000)); else sx_assume(x >= A(std::numeric_limits<B>::min()) && x <= A(std::numeric_limits<B>::max())); if (!std::numeric_limits<B>::is_signed) sx_assume(x >= 0); } }
template <typename A, typename B> static void cast1() { int n = isf<A>::v != isf<B>::v ? sx_pick(1, 2, "n") * 2 - 1 : sx_pick(0, 9, "n"); auto v = symv<A>(n, "x"); for (A x : v) fit<A, B>(x); bool m = n && n % 2 == 0 && sx_choose(2, "matrix"); Ints s = m ? Ints{n / 2, 2} : n == 1 && sx_choose(2, "scalar") ? Ints{} : Ints{n}; Tensor x = mk(s, v); Tensor y = sx_choose(2, "clone") ? tensor::clone(dt<B>::v, x) : tensor::cast(dt<B>::v, x); std::vector<B> w; for (A e : v) w.push_back((B) e); want(y, s, w, "every element converted"); want(x, s, v, "source left alone"); Tensor z = tensor::clone(dt<B>::v, x); if (n) { z.data<B>()[0] = B(1); want(x, s, v, "a clone is independent"); } }
template <typename A> static void cast_from() {
#define CASE(B) cast1<A, B>()
    SX_ALLT(CASE)
#undef CASE
}
SX_ENTRY h_cast() { Dev d;
#define CASE(A) cast_from<A>()
    SX_ALLT(CASE)
#undef CASE
    sx_reach("end"); }
// large integers and precise doubles: no detour over a narrower type
template <typename A, typename B> static void wide2() { auto v = edges<A>(1, "x"); v.resize(5, v[0]); v[4] = A(1); for (A e : v) if (isf<A>::v && !isf<B>::v && (e < 0 || e > 100)) return; std::vector<B> w; for (A e : v) w.push_back((B) e); want12(tensor::cast(dt<B>::v, mk({5}, v)), {5}, w, "every element converted"); }
template <typename A> static void wide1() {
#define CASE(B) wide2<A, B>()
    SX_ALLT(CASE)
#undef CASE
}
SX_ENTRY h_wide() { Dev d;
#define CASE(A) wide1<A>()
    SX_ALLT(CASE)
#undef CASE
    sx_reach("end"); }
template <typename A> static void bool1() { int n = sx_pick(1, isf<A>::v ? 2 : 5, "n"); auto v = symv<A>(n, "x"); Tensor x = mk<A>({n}, v), y = tensor::cast(BOOLEAN, x); SX_ASSERT(y.dtype() == BOOLEAN && ints(y.sizes()) == Ints{n}, "a bool tensor"); for (int i = 0; i < n; ++i) SX_ASSERT(y.data<uint8_t>()[i] == (v[i] != A(0) ? 1 : 0), "true exactly for values other than zero"); SX_ASSERT(tensor::to_bool(x) == (v[0] != A(0)), "to_bool is true exactly for values other than zero"); auto a = tensor::array::to_bool(x); SX_ASSERT((int) a.size() == n, "one value per element"); for (int i = 0; i < n; ++i) SX_ASSERT(a[i] == (v[i] != A(0)), "array of bools"); 
    std::vector<bool> b; for (int i = 0; i < n; ++i) b.push_back(v[i] != A(0)); Tensor t = tensor::from(b); SX_ASSERT(t.dtype() == BOOLEAN && t.count() == n, "bools as a tensor"); Tensor u = tensor::cast(dt<A>::v, t); for (int i = 0; i < n; ++i) dt<A>::eq(u.data<A>()[i], b[i] ? A(1) : A(0), "bools as numbers"); SX_ASSERT(tensor::to_bool(tensor::from<bool>(b[0])) == b[0], "bool survives"); }
SX_ENTRY h_bool() { Dev d;
#define CASE(A) bool1<A>()
    SX_ALLT(CASE)
#undef CASE
    sx_reach("end"); }
static bool ok(int t) { return (t >= INT8 && t <= FLOAT64) || t == CHAR8 || t == CHAR16 || t == CHAR32 || t == BOOLEAN; }
SX_ENTRY h_reject() { Dev d; int a = (int) sx_choose(34, "from"), b = (int) sx_choose(34, "to"); sx_assume(a != b); Tensor x((DTYPE) a, {2}); if (type_bytes((DTYPE) a)) memset(x.data(), 0, 2 * type_bytes((DTYPE) a)); bool t = throws([&]() { Tensor y = tensor::cast((DTYPE) b, x); SX_ASSERT(y.dtype() == b && y.count() == 2, "type of the result"); }); SX_ASSERT(t == !(ok(a) && ok(b)), "exactly the types that hold numbers are converted"); SX_ASSERT(tensor::support((DTYPE) a) == ok(a), "support tells which types are converted"); sx_reach("end"); }
template <typename A> static void scalar1() { int n = sx_pick(0, 2, "n"); auto v = symv<A>(n, "x"); Tensor x = mk<A>({n}, v); if (!n) { SX_ASSERT(throws([&]() { tensor::to_int(x); }) && throws([&]() { tensor::to_uint(x); }) && throws([&]() { tensor::to_float(x); }) && throws([&]() { tensor::to_double(x); }) && throws([&]() { tensor::to_bool(x); }), "an empty tensor has no value"); return; }
    A e = v[0]; switch (sx_choose(4, "to")) { case 0: fit<A, int32_t>(e); SX_ASSERT(tensor::to_int(x) == (int32_t) e, "first element as int"); break; case 1: fit<A, uint32_t>(e); SX_ASSERT(tensor::to_uint(x) == (uint32_t) e, "first element as unsigned"); break; case 2: sx_feq_(tensor::to_float(x), (float) e, "first element as float"); break; default: sx_feq_(tensor::to_double(x), (double) e, "first element as double"); } }
SX_ENTRY h_scalar() { Dev d;
#define CASE(A) scalar1<A>()
    SX_ALLT(CASE)
#undef CASE
    sx_reach("end"); }
template <typename A> static void array1() { int n = isf<A>::v ? sx_pick(0, 2, "n") : sx_pick(0, 5, "n"); auto v = symv<A>(n, "x"); Tensor x = mk<A>({n}, v); int k = (int) sx_choose(5, "to"); for (A e : v) { if (k == 0) fit<A, int32_t>(e); if (k == 1) fit<A, int64_t>(e); if (k == 2) fit<A, uint32_t>(e); }
#define CHK(B, F) { auto r = tensor::array::F(x); SX_ASSERT((int) r.size() == n, "one value per element"); for (int i = 0; i < n; ++i) dt<B>::eq(r[i], (B) v[i], "elements as an array"); }
    switch (k) { case 0: CHK(int32_t, to_int) break; case 1: CHK(int64_t, to_long) break; case 2: CHK(uint32_t, to_uint) break; case 3: CHK(float, to_float) break; default: CHK(double, to_double) } }
SX_ENTRY h_array() { Dev d;
#define CASE(A) array1<A>()
    SX_ALLT(CASE)
#undef CASE
    sx_reach("end"); }
template <typename A> static void build1() { int n = sx_pick(1, 4, "n"); auto v = symv<A>(n, "x"); want(tensor::from(v), {n}, v, "a vector as a tensor"); want(tensor::from(v[0]), {1}, std::vector<A>{v[0]}, "a value as a tensor"); std::vector<A> none; want(tensor::from(none), {0}, none, "no values"); want(tensor::build(dt<A>::v, Shape({n, 1}), v), {n, 1}, v, "built with a shape"); want(tensor::build(dt<A>::v, Shape({1, n}), v.data()), {1, n}, v, "built from memory"); want(tensor::build(dt<A>::v, (size_t) n, v.data()), {n}, v, "built from memory"); std::vector<double> w; for (A e : v) w.push_back((double) e); want(tensor::build(FLOAT64, v), {n}, w, "built as another type"); SX_ASSERT(throws([&]() { tensor::build(dt<A>::v, Shape({n + 1}), v); }), "a shape that does not fit is rejected"); }
SX_ENTRY h_build() { Dev d;
#define CASE(A) build1<A>()
    SX_ALLT(CASE)
#undef CASE
    sx_reach("end"); }
SX_ENTRY h_string() { Dev d; int n = sx_pick(0, 3, "n"); std::string s; for (int i = 0; i < n; ++i) s += (char) sx_u8("c"); Tensor t = tensor::from(s); SX_ASSERT(t.dtype() == CHAR8 && ints(t.sizes()) == Ints{n}, "a string as a tensor"); SX_ASSERT(tensor::to_string(t) == s, "strings survive"); Tensor x = symt<int8_t>({2}, "x"); SX_ASSERT(throws([&]() { tensor::to_string(x); }), "numbers are no string"); SX_ASSERT(throws([&]() { tensor::to_string(t.reshape({1, n})); }), "a matrix is no string");
    bool tr = n == 0 ? false : false; (void) tr; static const char *W[] = {"true", "TRUE", "True", "false", "", "tru", "true ", "1"}; int k = (int) sx_choose(8, "word"); SX_ASSERT(tensor::to_bool(tensor::from(W[k])) == (k < 3), "the word true in any case"); static const char *N[] = {"12", "-7", "0", ""}; static const int NV[] = {12, -7, 0, 0}; int q = (int) sx_choose(4, "number"); SX_ASSERT(tensor::to_int(tensor::from(N[q])) == NV[q], "numbers written in a string"); sx_reach("end"); }
SX_ENTRY h_types() { int a = (int) sx_choose(34, "a"), b = (int) sx_choose(34, "b"); std::string s = type_str((DTYPE) a), t = type_str((DTYPE) b); if (a < 33) SX_ASSERT(s != "unknown" && ((s == t) == (a == b)), "every type has its own name"); else SX_ASSERT(s == "unknown" && type_bytes((DTYPE) a) == 0, "values that are no type"); static const int W[] = {0, 1, 1, 2, 2, 4, 4, 8, 8, 2, 4, 8, 8, 1, 2, 4, 1, 2, 4, 8, 16, 1, 4, 8, 16, 1, 1, 1, 1, 1, 1, 1, 1}; if (a < 33) SX_ASSERT(type_bytes((DTYPE) a) == W[a], "width of the type"); sx_reach("end"); }
// pieces: in order, without gaps, equally long up to the last, at most as many as asked
template <typename T> static void bins(T a, T b, int k, const std::vector<std::pair<T, T>> &r) { if (b <= a) { SX_ASSERT(r.empty(), "nothing to split"); return; } SX_ASSERT(!r.empty() && (int) r.size() <= std::max(k, 1), "at most as many pieces as asked"); SX_ASSERT(r[0].first == a && r.back().second == b, "pieces cover the range"); uint64_t len = (uint64_t) r[0].second - (uint64_t) r[0].first, all = (uint64_t) b - (uint64_t) a, q = std::max(k, 1); for (size_t i = 0; i < r.size(); ++i) { SX_ASSERT(r[i].first < r[i].second, "no empty piece"); if (i) SX_ASSERT(r[i].first == r[i - 1].second, "no gap"); uint64_t n = (uint64_t) r[i].second - (uint64_t) r[i].first; SX_ASSERT(i + 1 < r.size() ? n == len : n <= len, "equal pieces, the last may be shorter"); } SX_ASSERT(len == all / q + (all % q ? 1 : 0), "pieces as short as possible"); }
template <typename T> static void bins1(T lo, T hi, T (*sym)(const char *), std::vector<std::pair<T, T>> (*split)(T, T, T)) { int k = sx_pick(0, SXT(5, 8), "bins"); T a, b; if (k == 3 || k > SXT(2, 4)) { int n = sx_pick(0, SXT(16, 64), "length"); switch (sx_choose(3, "first")) { case 0: a = lo; break; case 1: a = 5; break; default: a = hi - n; } b = a + n; } else { a = sym("first"); b = sym("second"); } bins<T>(a, b, k, split(a, b, (T) k)); }
SX_ENTRY h_bins() { bins1<int>(INT_MIN, INT_MAX, [](const char *n) { return (int) sx_i32(n); }, split_bins); sx_reach("end"); }
SX_ENTRY h_lbins() { bins1<size_t>(0, SIZE_MAX, [](const char *n) { return (size_t) sx_u64(n); }, lsplit_bins); sx_reach("end"); }
static int dist(const std::string &a, const std::string &b) { size_t M = a.size(), N = b.size(); if (!M) return (int) N; if (!N) return (int) M; std::string x = a.substr(1), y = b.substr(1); if (a[0] == b[0]) return dist(x, y); return std::min(dist(x, b), dist(a, y)) + 1; }
SX_ENTRY h_edit() { std::string s[2]; for (auto &q : s) { int n = sx_pick(0, 3, "n"); for (int i = 0; i < n; ++i) q += (char) sx_u8("c"); } int e = dist(s[0], s[1]); SX_ASSERT(edit_distance(s[0], s[1]) == e, "fewest insertions and deletions"); SX_ASSERT((e == 0) == (s[0] == s[1]), "zero exactly for equal strings"); sx_reach("end"); }
