//@ sources: @op src/module/bubble.cpp src/backend/base/base_gemm.cpp src/kernels/cpu/cpu_gemm.cpp src/backend/base/base_inner_prod.cpp src/kernels/cpu/inner_prod.cpp src/backend/base/base_matmul.cpp src/kernels/cpu/matmul.cpp src/kernels/cpu/math_cpu.cpp src/backend/base/base_transpose.cpp src/kernels/cpu/transpose.cpp
//@ entry: h_gemm reach=end
//@ entry: h_coef reach=end
//@ entry: h_prod reach=end
//@ entry: h_block reach=end
//@ entry: h_flat reach=end
//@ entry: h_matmul reach=end
//@ entry: h_double reach=end
//@ entry: h_precise reach=end
//@ entry: h_bad reach=end
//@ entry: h_badmat reach=end
//@ stub: intime::transpose (a call into a nested workbench) runs the library's transpose operator directly
//@ bounds: matrices up to 3x3x9 with every combination of transposed operands; every way C can be broadcast; blocks of 1..17 rows and columns and 1..9 products for inner_prod; left operands of 1-4 dims; matmul of 1-4-dim left operands and 4-dim pairs; float and double
//@ assume: elements arbitrary reals; alpha and beta exactly 0 or 1, or further than 0.001 from both (nearer values are treated as 0 or 1)
//@ outside: float rounding; larger matrices; weights packed ahead of time
#include "op.h"
#include <frontend/intime.h>
namespace ts { namespace intime { Tensor transpose(const Tensor &x, const std::vector<int32_t> &permute) { OpT op("_transpose"); op.set("permute", iv(Ints(permute.begin(), permute.end()))); return op.run1({x}); } } }
template <typename T> std::vector<T> mul_(int M, int N, int K, const std::vector<T> &a, const std::vector<T> &b, bool ta, bool tb) { std::vector<T> r; for (int i = 0; i < M; ++i) for (int j = 0; j < N; ++j) { T s = 0; for (int k = 0; k < K; ++k) s += a[ta ? k * M + i : i * K + k] * b[tb ? j * K + k : k * N + j]; r.push_back(s); } return r; }
template <typename T> void gemm(int M, int N, int K, bool ta, bool tb, const Ints &cs, int am, int bm) { auto a = symv<T>(M * K, "a"), b = symv<T>(K * N, "b"), c = symv<T>(prod(cs), "c"); Tensor A = mk<T>(ta ? Ints{K, M} : Ints{M, K}, a), B = mk<T>(tb ? Ints{N, K} : Ints{K, N}, b), C = mk<T>(cs, c); float al = 1, be = 1; OpT op("gemm");
    if (am) { al = am == 2 ? 0 : sx_f32("alpha"); if (am == 1) sx_assume(((al > 0.001f) | (al < -0.001f)) & ((al > 1.001f) | (al < 0.999f))); op.set("alpha", f1(al)); } if (bm) { be = bm == 2 ? 0 : sx_f32("beta"); if (bm == 1) sx_assume(((be > 0.001f) | (be < -0.001f)) & ((be > 1.001f) | (be < 0.999f))); op.set("beta", f1(be)); } if (ta || am) op.set("transA", tensor::from<bool>(ta)); if (tb || am) op.set("transB", tensor::from<bool>(tb));
    Tensor y = op.run1({A, B, C}); auto w = mul_(M, N, K, a, b, ta, tb); for (int i = 0; i < M; ++i) for (int j = 0; j < N; ++j) { int d = (int) cs.size(), ci = d == 2 && cs[0] > 1 ? i : 0, cj = d >= 1 && cs[d - 1] > 1 ? j : 0; T p = bm == 2 ? T(0) : c[ci * (d ? cs[d - 1] : 1) + cj]; w[i * N + j] = (bm == 1 ? (T) be * p : p) + (am == 1 ? (T) al * w[i * N + j] : am == 2 ? T(0) : w[i * N + j]); }
    want(y, {M, N}, w, "alpha A B + beta C"); want(A, ta ? Ints{K, M} : Ints{M, K}, a, "operand left alone"); want(C, cs, c, "operand left alone"); }
static Ints cshape(int M, int N) { switch (sx_pick(0, 6, "C")) { case 0: return {M, N}; case 1: return {1, N}; case 2: return {M, 1}; case 3: return {N}; case 4: return {1, 1}; case 5: return {1}; default: return {}; } }
SX_ENTRY h_gemm() { Dev d; int M = sx_pick(1, 3, "M"), N = sx_pick(1, 3, "N"), K = sx_pick(1, SXT(6, 9), "K"); gemm<float>(M, N, K, sx_choose(2, "transA"), sx_choose(2, "transB"), cshape(M, N), 0, 0); sx_reach("end"); }
SX_ENTRY h_coef() { Dev d; int M = 2, N = sx_pick(1, 2, "N"), K = sx_pick(1, 5, "K"); int am = sx_pick(0, 2, "alpha"), bm = sx_pick(0, 2, "beta"); gemm<float>(M, N, K, sx_choose(2, "transA"), sx_choose(2, "transB"), cshape(M, N), am, bm); sx_reach("end"); }
template <typename T> void iprod(const Ints &as, int N, bool tb, bool set) { int M = as[0], K = prod(as) / M; auto a = symv<T>(M * K, "a"), b = symv<T>(K * N, "b"); Tensor A = mk(as, a), B = mk<T>(tb ? Ints{N, K} : Ints{K, N}, b); OpT op("inner_prod"); if (set || tb) op.set("transpose", tensor::from<bool>(tb)); want(op.run1({A, B}), {M, N}, mul_(M, N, K, a, b, false, tb), "matrix product"); want(A, as, a, "operand left alone"); want(B, tb ? Ints{N, K} : Ints{K, N}, b, "operand left alone"); }
SX_ENTRY h_prod() { Dev d; int M = sx_pick(1, 3, "M"), N = sx_pick(1, 3, "N"), K = sx_pick(1, 9, "K"); iprod<float>({M, K}, N, sx_choose(2, "transpose"), sx_choose(2, "set")); sx_reach("end"); }
SX_ENTRY h_block() { Dev d; static const int S[] = {1, 7, 8, 9, 16, 17}, Q[] = {1, 3, 4, 5, 8, 9}; int M = S[sx_pick(0, 5, "M")], N = S[sx_pick(0, 5, "N")], K = Q[sx_pick(0, 5, "K")]; sx_assume(M * N * K <= SXT(700, 3000)); iprod<float>({M, K}, N, sx_choose(2, "transpose"), true); sx_reach("end"); }
SX_ENTRY h_flat() { Dev d; int n = sx_pick(1, 4, "dims"); Ints s = pick_shape(n, 1, 3); sx_assume(prod(s) <= 12); iprod<float>(s, sx_pick(1, 2, "N"), sx_choose(2, "transpose"), true); sx_reach("end"); }
SX_ENTRY h_matmul() { Dev d; int n = sx_pick(1, 4, "dims"), N = sx_pick(1, 3, "N"); bool b4 = n == 4 && sx_choose(2, "4-dim b"); Ints s = pick_shape(n, 1, n == 4 ? 2 : 3); if (b4) { s[0] = s[1] = 1; s[2] = sx_pick(1, 3, "M"); } int K = s[n - 1], M = prod(s) / K; auto a = symv<float>(M * K, "a"), b = symv<float>(K * N, "b"); Tensor A = mk(s, a), B = mk(b4 ? Ints{1, 1, K, N} : Ints{K, N}, b); OpT op("matmul"); Ints o = s; o[n - 1] = N; want(op.run1({A, B}), o, mul_(M, N, K, a, b, false, false), "matrix product of the last two dimensions"); want(A, s, a, "operand left alone"); sx_reach("end"); }
SX_ENTRY h_double() { Dev d; int w = sx_pick(0, 1, "op"); if (w == 0) gemm<double>(2, sx_pick(1, 2, "N"), sx_pick(1, 5, "K"), sx_choose(2, "transA"), sx_choose(2, "transB"), {2, 1}, 0, 0); else { static const int S[] = {1, 8, 9}; iprod<double>({S[sx_pick(0, 2, "M")], sx_pick(1, 3, "K")}, S[sx_pick(0, 2, "N")], sx_choose(2, "transpose"), true); } sx_reach("end"); }
// the double kernels keep double precision
SX_ENTRY h_precise() { Dev d; int op_ = sx_pick(0, 2, "op"), M = sx_pick(1, 2, "M") * 4, K = 5, N = 9; bool ta = op_ == 0 && sx_choose(2, "transA"), tb = op_ < 2 && sx_choose(2, "transB"); std::vector<double> a, b; for (int i = 0; i < M * K; ++i) a.push_back(i * 0.5 + (i + 1) * 1e-11); for (int i = 0; i < N * K; ++i) b.push_back(i % 3 - 1 + (i + 1) * 1e-11); Tensor A = mk<double>(ta ? Ints{K, M} : Ints{M, K}, a), B = mk<double>(tb ? Ints{N, K} : Ints{K, N}, b); auto w = mul_(M, N, K, a, b, ta, tb); OpT op(op_ == 0 ? "gemm" : op_ == 1 ? "inner_prod" : "matmul"); std::vector<Tensor> in = {A, B}; if (op_ == 0) { op.set("transA", tensor::from<bool>(ta)).set("transB", tensor::from<bool>(tb)).set("alpha", f1(1)).set("beta", f1(1)); in.push_back(mk<double>({1}, {1e-11})); for (auto &e : w) e += 1e-11; } if (op_ == 1) op.set("transpose", tensor::from<bool>(tb)); want12(op.run1(in), {M, N}, w, "product in double precision"); sx_reach("end"); }
SX_ENTRY h_bad() { Dev d; int w = sx_pick(0, 9, "what"); Tensor A = symt<float>({2, 3}, "a"), B = symt<float>({3, 2}, "b"), C = symt<float>({2, 2}, "c"); std::vector<Tensor> in; switch (w) { case 0: B = symt<float>({2, 2}, "b"); break; case 1: A = symt<float>({2}, "a"); break; case 2: B = symt<float>({3, 2, 1}, "b"); break; case 3: C = symt<float>({2, 2, 1}, "c"); break; case 4: C = symt<float>({3, 2}, "c"); break; case 5: C = symt<float>({2, 3}, "c"); break; case 6: C = symt<float>({3}, "c"); break; case 7: B = symt<double>({3, 2}, "b"); break; case 8: C = symt<double>({2, 2}, "c"); break; default: A = symt<int32_t>({2, 3}, "a"); B = symt<int32_t>({3, 2}, "b"); C = symt<int32_t>({2, 2}, "c"); }
    { OpT op("gemm"); SX_ASSERT(throws([&]() { op.run1({A, B, C}, false); }), "gemm rejects operands that do not fit"); } if (w == 0 || w == 2 || w == 7 || w == 9) { OpT op("inner_prod"); SX_ASSERT(throws([&]() { op.run1({A, B}, false); }), "inner_prod rejects operands that do not fit"); OpT o2("inner_prod"); o2.set("transpose", tensor::from<bool>(true)); if (w == 0) B = symt<float>({2, 2}, "b"); SX_ASSERT(throws([&]() { o2.run1({A, B}, false); }), "inner_prod rejects operands that do not fit"); } sx_reach("end"); }
SX_ENTRY h_badmat() { Dev d; int m = sx_pick(0, 4, "a dims"), n = sx_pick(0, 5, "b dims"); Ints as = pick_shape(m, 2, 2), bs = pick_shape(n, 2, 2); if (n == 4 && m >= 2) { bs[0] = bs[1] = 1; if (m == 4) as[0] = 2; } sx_assume(n != 2 || m == 0 || sx_choose(2, "size")); if (n == 2 && m > 0) bs[0] = 3; OpT op("matmul"); Tensor A = symt<float>(as, "a"), B = symt<float>(bs, "b"); SX_ASSERT(throws([&]() { op.run1({A, B}, false); }), "matmul rejects operands that do not fit"); OpT o2("matmul"); o2.op->init(); MemoryDevice md(CPU); Stack st(md); st.push(A); st.push(B); std::vector<Tensor::Prototype> pr; SX_ASSERT(throws([&]() { InferOperator(o2.op, st, 2, pr); }), "inference rejects operands that do not fit"); sx_reach("end"); }
