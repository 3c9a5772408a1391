#pragma once
#include <global/operator_factory.h>
#include <global/setup.h>
#include <core/device_context.h>
#include <core/tensor_builder.h>
#include <runtime/stack.h>
#include <runtime/operator.h>
#include <runtime/workbench.h>
#include <utils/ctxmgr_lite.h>
#include <iostream>
#include <cmath>
using namespace ts;
static int bad_ = 0;
#define CHECK(c) do { if (!(c)) { std::cerr << "FAILED " #c " line " << __LINE__ << std::endl; bad_ = 1; } } while (0)
struct Env { Env() { setup(); } } env_;
struct Dev { DeviceContext dc; ctx::bind<DeviceContext> b; Dev() : dc(ComputingDevice(CPU, 0)), b(dc) {} };
static inline std::vector<Tensor> run(Operator::shared op, const std::vector<Tensor> &in) { op->init(); MemoryDevice md(CPU); Stack st(md); for (auto &t : in) st.push(t); int n = RunOperator(op, st, (int) in.size()); std::vector<Tensor> r; for (int i = 0; i < n; ++i) r.push_back(st[i]); return r; }
static inline std::vector<Tensor::Prototype> infer(Operator::shared op, const std::vector<Tensor> &in) { op->init(); MemoryDevice md(CPU); Stack st(md); for (auto &t : in) st.push(t); std::vector<Tensor::Prototype> r; InferOperator(op, st, (int) in.size(), r); return r; }
static inline Operator::shared make(const std::string &name) { auto op = OperatorCreator::Create(CPU, name, true); op->set("#op", tensor::from(name)); op->set("#name", tensor::from(std::string("op"))); return op; }
static inline Tensor fill(const Shape &s) { Tensor t(FLOAT32, s); for (int i = 0; i < t.count(); ++i) t.data<float>()[i] = float(i + 1); return t; }
static inline Tensor ten(const Shape &s, const std::vector<float> &v) { Tensor t(FLOAT32, s); for (int i = 0; i < t.count(); ++i) t.data<float>()[i] = v[i]; return t; }
static inline Tensor iv(const std::vector<int> &v) { return tensor::build(INT32, v); }
static inline Tensor pad4(const std::vector<int> &v) { Tensor t = iv(v); return t.reshape({4, 2}); }
static inline bool eq(const Tensor &t, const Shape &s, const std::vector<float> &v) { if (t.sizes() != s || t.count() != (int) v.size()) return false; for (int i = 0; i < t.count(); ++i) if (std::fabs(t.data<float>()[i] - v[i]) > 1e-4 * (1 + std::fabs(v[i]))) return false; return true; }
