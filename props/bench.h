// Compiling and running modules of arbitrary small graphs on a workbench.
#pragma once
#include "dag.h"
#include <runtime/workbench.h>
#include <runtime/program.h>
#include <compiler/compiler.h>
#include <runtime/inside/thread_pool.h>
#include <global/operator_factory.h>
#include <backend/name.h>
#include <utils/cpu_info.h>
// stand-in: the pool is only created and bound here; nothing schedules on it in this build
namespace ts { bool check_cpu_feature(CPUFeature) { return true; }
ThreadPool::ThreadPool(size_t n) { thread_pool.resize(n); } ThreadPool::~ThreadPool() {} size_t ThreadPool::size() const { return thread_pool.size(); } void ThreadPool::join() {} }
// an operator that mixes its attribute and its operands in order: different expressions give different values
static int mix(int a, const std::vector<int> &x) { uint32_t r = (uint32_t) a; for (int v : x) r = r * 31u + (uint32_t) v; return (int) r; }
struct MixOp : public Operator { int a, k; explicit MixOp(int k_) : a(0), k(k_) { field("a", REQUIRED); } void init() override { Operator::init(); a = tensor::to_int(get("a")); }
    int infer(Stack &stack, std::vector<Tensor::Prototype> &out) override { out.resize(1); out[0] = Tensor::Prototype(INT32, Shape()); return 1; }
    int run(Stack &stack) override { std::vector<int> x; for (size_t i = 0; i < stack.size(); ++i) { auto &t = stack[(int) i]; for (size_t f = 0; f < t.fields_count(); ++f) x.push_back(t.field(f).data<int32_t>()[0]); } stack.push(tensor::from<int32_t>(mix(a + k, x))); return 1; } };
static Operator::shared mk0() { return std::make_shared<MixOp>(0); }
static Operator::shared mk1() { return std::make_shared<MixOp>(1); }
struct Reg { Reg() { OperatorCreator::Register(CPU, "f0", mk0); OperatorCreator::Register(CPU, "f1", mk1); } };
struct Mod { Reg reg; Dev d; Workbench b; std::unique_ptr<Dag> gp; std::vector<int> os, in; std::vector<Node> outs, inputs; std::vector<int> pv; Module::shared m;
    Mod() : b(ComputingDevice(CPU, 0)) {}
    Dag &g() { return *gp; }
    void build(int P, int C, int K, int maxin = 2) { gp.reset(new Dag(P, C, K, true, maxin)); pv.assign(P, 0); }
    void outputs(int n) { int k = sx_pick(1, n, "outs"); for (int i = 0; i < k; ++i) { int o = sx_pick(0, (int) g().v.size() - 1, "out"); os.push_back(o); outs.push_back(g().v[o]); } }
    void order() { auto r = g().reach(os); for (int i = 0; i < g().P; ++i) if (r[i]) in.push_back(i); if (in.size() > 1 && sx_choose(2, "order")) std::reverse(in.begin(), in.end()); sync(); }
    void sync() { inputs.clear(); for (int i : in) inputs.push_back(g().v[i]); }
    void load() { m = Module::Load(g().g, outs); m->sort_inputs(inputs); b.setup(b.compile(m)); }
    int eval(int k) { if (g().kind[k] == 0) return pv[k]; if (g().kind[k] == 1) return g().val[k]; std::vector<int> x; for (int i : g().in[k]) x.push_back(eval(i)); return mix(g().val[k] + (k - g().P - g().C) % 2, x); }
    void values() { for (auto &v : pv) v = sx_i32("input"); }
    void feed(Workbench &w) { values(); for (size_t i = 0; i < in.size(); ++i) w.input((int) i, tensor::from<int32_t>(pv[in[i]])); }
    void check(Workbench &w) { for (size_t i = 0; i < os.size(); ++i) { auto &t = w.output((int) i); SX_ASSERT(t.dtype() == INT32 && t.count() == 1, "output tensor"); SX_ASSERT(t.data<int32_t>()[0] == eval(os[i]), "an output has the value of its expression"); } }
};
