// Shared by the operator harnesses: run one operator exactly as the workbench
// does (create by name on CPU, set parameters, init, infer, run).
#pragma once
#include <sx.h>
#include <global/operator_factory.h>
#include <core/device_context.h>
#include <core/tensor_builder.h>
#include <runtime/stack.h>
#include <runtime/operator.h>
#include <utils/ctxmgr_lite.h>
#include <cmath>
using namespace ts;
typedef std::vector<int> Ints;
struct Dev { DeviceContext dc; ctx::bind<DeviceContext> b; Dev() : dc(ComputingDevice(CPU, 0)), b(dc) {} };
static inline int prod(const Ints &s) { int n = 1; for (size_t i = 0; i < s.size(); ++i) n *= s[i]; return n; }
static inline Shape shp(const Ints &s) { Shape r; for (size_t i = 0; i < s.size(); ++i) r.push_back(s[i]); return r; }
static inline Ints ints(const Shape &s) { Ints r; for (size_t i = 0; i < s.size(); ++i) r.push_back(s[i]); return r; }
template <typename T> struct dt; 
template <> struct dt<float> { static const DTYPE v = FLOAT32; static float sym(const char *n) { return sx_f32(n); } static void eq(float a, float b, const char *m) { sx_feq_(a, b, m); } };
template <> struct dt<double> { static const DTYPE v = FLOAT64; static double sym(const char *n) { return sx_f64(n); } static void eq(double a, double b, const char *m) { sx_feq_(a, b, m); } };
#define SX_IDT(T, D, B) template <> struct dt<T> { static const DTYPE v = D; static T sym(const char *n) { return (T) sx_int(n, B); } static void eq(T a, T b, const char *m) { SX_ASSERT(a == b, m); } };
SX_IDT(int8_t, INT8, 8) SX_IDT(uint8_t, UINT8, 8) SX_IDT(int16_t, INT16, 16) SX_IDT(uint16_t, UINT16, 16)
SX_IDT(int32_t, INT32, 32) SX_IDT(uint32_t, UINT32, 32) SX_IDT(int64_t, INT64, 64) SX_IDT(uint64_t, UINT64, 64)
template <typename T> std::vector<T> symv(int n, const char *name) { std::vector<T> v(n); for (int i = 0; i < n; ++i) v[i] = dt<T>::sym(name); return v; }
template <typename T> Tensor mk(const Ints &s, const std::vector<T> &v) {
    Tensor t(dt<T>::v, shp(s)); T *p = t.data<T>(); for (size_t i = 0; i < v.size(); ++i) p[i] = v[i]; return t; }
template <typename T> Tensor symt(const Ints &s, const char *name) { return mk<T>(s, symv<T>(prod(s), name)); }
// concrete values at the edges of a type, where a detour over a narrower type or over a floating point type would show
template <typename T> static T edge_(int k, const std::true_type &) { typedef std::numeric_limits<T> L; int m = sizeof(T) == 8 ? 53 : sizeof(T) == 4 ? 24 : 4; switch (k) { case 0: return (T) ((T(1) << m) + 1); case 1: return T(1) << m; case 2: return L::max(); case 3: return L::lowest(); default: return (T) (L::max() - 1); } }
template <typename T> static T edge_(int k, const std::false_type &) { double e = sizeof(T) == 8 ? 9.094947017729282e-13 : 0; return (T) ((k == 0 ? 1 : k == 1 ? 2.5 : k == 2 ? -3 : k == 3 ? 16777217 : 0.25) + (k == 3 ? e * 65536 : e * (k + 1))); }
template <typename T> std::vector<T> edges(int n, const char *name, int lo = 0, int hi = 4) { std::vector<T> v; for (int i = 0; i < n; ++i) v.push_back(edge_<T>(sx_pick(lo, hi, name), std::is_integral<T>())); return v; }
// exact for integers, to twelve digits for doubles (concrete values only)
template <typename T> void want12(const Tensor &t, const Ints &s, const std::vector<T> &v, const char *m) { SX_ASSERT(t.dtype() == dt<T>::v, "output dtype"); SX_ASSERT(ints(t.sizes()) == s, "output shape"); const T *p = t.data<T>(); for (size_t i = 0; i < v.size(); ++i) { if (std::is_integral<T>::value) SX_ASSERT(p[i] == v[i], m); else { double a = (double) p[i], b = (double) v[i], r = a > b ? a - b : b - a, q = b < 0 ? -b : b; SX_ASSERT(a == b || r <= (sizeof(T) == 8 ? 1e-13 : 1e-5) * (1 + q), m); } } }
static inline Tensor iv(const Ints &v) { return mk<int32_t>({(int) v.size()}, std::vector<int32_t>(v.begin(), v.end())); }
static inline Tensor i1(int v) { return tensor::from<int32_t>(v); }
static inline Tensor f1(float v) { return tensor::from<float>(v); }
struct OpT { Operator::shared op; bool failed; 
    explicit OpT(const std::string &name) : op(OperatorCreator::Create(CPU, name, true)), failed(false) { op->set("#op", tensor::from(name)); op->set("#name", tensor::from("op")); }
    OpT &set(const std::string &n, const Tensor &v) { op->set(n, v); return *this; }
    // run on inputs; the result is the packed/unpacked output list
    std::vector<Tensor> run(const std::vector<Tensor> &in, bool check_infer = true) {
        op->init();
        MemoryDevice md(CPU); Stack st(md);
        std::vector<Tensor::Prototype> pr; bool refused = false;
        if (check_infer) {
            try { for (size_t i = 0; i < in.size(); ++i) st.push(in[i]); InferOperator(op, st, (int) in.size(), pr); SX_ASSERT(st.size() == 0, "infer leaves nothing on the stack"); }
            catch (const std::exception &) { refused = true; st.clear(); } }
        for (size_t i = 0; i < in.size(); ++i) st.push(in[i]);
        int n = RunOperator(op, st, (int) in.size());
        SX_ASSERT(!refused, "what inference refuses is not run");
        SX_ASSERT(n >= 1 && st.size() == (size_t) n, "operator returns exactly its results on the stack");
        std::vector<Tensor> out; for (int i = 0; i < n; ++i) out.push_back(st[i]);
        if (check_infer) {   // n==1 packed outputs: fields
            std::vector<Tensor::Prototype> got; for (int i = 0; i < n; ++i) { auto &t = out[i]; if (t.packed()) for (size_t k = 0; k < t.fields_count(); ++k) got.push_back(t.field(k).proto()); else got.push_back(t.proto()); }
            SX_ASSERT(got.size() == pr.size(), "inferred number of outputs equals the number produced");
            for (size_t i = 0; i < got.size() && i < pr.size(); ++i) { SX_ASSERT(got[i].dtype() == pr[i].dtype(), "inferred dtype equals the produced dtype"); SX_ASSERT(got[i].sizes() == pr[i].sizes(), "inferred shape equals the produced shape"); }
        }
        return out;
    }
    Tensor run1(const std::vector<Tensor> &in, bool check_infer = true) { return run(in, check_infer)[0]; }
};
static inline void want_shape(const Tensor &t, const Ints &s, const char *m) { SX_ASSERT(ints(t.sizes()) == s, m); }
template <typename T> void want(const Tensor &t, const Ints &s, const std::vector<T> &v, const char *m) {
    SX_ASSERT(t.dtype() == dt<T>::v, "output dtype"); want_shape(t, s, "output shape"); 
    const T *p = t.data<T>(); for (size_t i = 0; i < v.size(); ++i) dt<T>::eq(p[i], v[i], m); }
// multi-index iteration
struct Ix { Ints s, i; bool done; explicit Ix(const Ints &s_) : s(s_), i(s_.size(), 0), done(prod(s_) == 0) {} void next() { int k = (int) s.size() - 1; for (; k >= 0; --k) { if (++i[k] < s[k]) return; i[k] = 0; } done = true; } };
static inline int at(const Ints &s, const Ints &i) { int k = 0; for (size_t d = 0; d < s.size(); ++d) k = k * s[d] + i[d]; return k; }
// run F<T>::go() for one element type chosen by case split
#define SX_ALLT(CALL) switch (sx_choose(10, "dtype")) { \
    case 0: CALL(int8_t); break; case 1: CALL(uint8_t); break; case 2: CALL(int16_t); break; case 3: CALL(uint16_t); break; case 4: CALL(int32_t); break; \
    case 5: CALL(uint32_t); break; case 6: CALL(int64_t); break; case 7: CALL(uint64_t); break; case 8: CALL(float); break; default: CALL(double); break; }
static inline Ints pick_shape(int dims, int lo, int hi) { Ints s; for (int k = 0; k < dims; ++k) s.push_back(sx_pick(lo, hi, "size")); return s; }
template <typename F> bool throws(F f) { try { f(); } catch (const ts::Exception &) { return true; } catch (const std::exception &) { return true; } return false; }
