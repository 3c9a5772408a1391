// NATIVE_SCHED: counterexamples are replayed under rt/sched.cpp
//@ sources: @runtime !src/runtime/inside/thread_pool.cpp !src/runtime/inside/parallel.cpp !src/module/io/fstream.cpp src/kernels/cpu/cast.cpp src/backend/base/base_cast_v2.cpp src/kernels/cpu/math_cpu.cpp
//@ entry: h_clones reach=end args="--preempt 1 --preempt-at 0"
//@ entry: h_cloning reach=end args="--preempt 1 --preempt-at 0"
//@ entry: h_made reach=end args="--preempt 1 --preempt-at 0"
//@ entry: h_again reach=end args="--preempt 1 --preempt-at 0"
//@ entry: h_clones2 reach=end tier=thorough timeout=900 args="--preempt 1 --preempt-at 2"
//@ entry: h_cloning2 reach=end tier=thorough timeout=900 args="--preempt 2 --preempt-at 0"
//@ entry: h_made2 reach=end tier=thorough timeout=900 args="--preempt 1 --preempt-at 2"
//@ bounds: two threads, a graph of two operators, an input, a shared constant and a conversion; one run each (two for h_again); at most one preemption at a lock, unlock, wait, notify or thread operation (thorough: also at atomic operations, or two preemptions); data races are detected on every path whatever the timing
//@ assume: operand and attribute values are arbitrary 32-bit integers; sequentially consistent atomics
//@ stub: thread pool (only created, nothing runs on it in this build), CPU feature detection, a small regular expression matcher in place of std::regex
//@ outside: more threads, more preemptions; compiling one module object in two threads at once (translation links to the module while it works)
#include "bench.h"
#include <thread>
static int one(const Tensor &t) { SX_ASSERT(t.dtype() == INT32 && t.count() == 1, "output tensor"); return t.data<int32_t>()[0]; }
struct P1 { Reg r; Dev d; int a, c; Module::shared m; P1() { a = sx_i32("a"); c = sx_i32("c"); m = make(); }
    Module::shared make() { Graph g; ctx::bind<Graph> bg(g); Node p = bubble::param("p", INT32), q = bubble::data("q", tensor::from<int32_t>(4)), x = bubble::op("x", "f0", {p, q}), y = bubble::op("y", "f1", {x, q}); x->set("a", tensor::from<int32_t>(a)); y->set("a", tensor::from<int32_t>(c)); auto m = Module::Load(g, std::vector<Node>({y, x})); m->sort_inputs({"p"}); return m; }
    int want(int p, int k = 0) { int x = mix(a, {p, 4}); return k ? x : mix(c + 1, {x, 4}); }
    void check(Workbench &b, int p) { SX_ASSERT(one(b.output(0)) == want(p) && one(b.output(1)) == want(p, 1), "the bench computes the values of its own input"); }
    void go(Workbench &b, int p) { b.input(0, tensor::from<int32_t>(p)); b.run(); check(b, p); } };
// a bench and its clone run at the same time
static void clones() { P1 s; Workbench b(ComputingDevice(CPU, 0)); b.setup(b.compile(s.m)); int u = sx_i32("u"), v = sx_i32("v"); if (sx_choose(2, "ran")) s.go(b, v); { auto c = b.clone(); std::thread t([&s, c, u]() { s.go(*c, u); }); s.go(b, v); t.join(); s.check(*c, u); } s.check(b, v); sx_reach("end"); }
SX_ENTRY h_clones() { clones(); }
SX_ENTRY h_clones2() { clones(); }
// two threads clone one bench that is not running, and run their clones
static void cloning() { P1 s; Workbench b(ComputingDevice(CPU, 0)); b.setup(b.compile(s.m)); int u = sx_i32("u"), v = sx_i32("v"); auto f = [&](int p) { auto c = b.clone(); s.go(*c, p); }; std::thread t([&]() { f(u); }); f(v); t.join(); s.go(b, u); sx_reach("end"); }
SX_ENTRY h_cloning() { cloning(); }
SX_ENTRY h_cloning2() { cloning(); }
// each thread loads its own module and makes its own bench
static void made() { P1 s; int u = sx_i32("u"), v = sx_i32("v"); auto f = [&s](int p) { auto m = s.make(); Workbench b(ComputingDevice(CPU, 0)); b.setup(b.compile(m)); s.go(b, p); }; std::thread t([&]() { f(u); }); f(v); t.join(); sx_reach("end"); }
SX_ENTRY h_made() { made(); }
SX_ENTRY h_made2() { made(); }
// a clone is handed to a thread, used, and used again by the thread that made it
SX_ENTRY h_again() { P1 s; Workbench b(ComputingDevice(CPU, 0)); b.setup(b.compile(s.m)); int u = sx_i32("u"), v = sx_i32("v"); auto c = b.clone(); Tensor kept; { std::thread t([&]() { s.go(*c, u); kept = c->output(0); c->set_operator_param("y", "a", tensor::from<int32_t>(s.c)); }); s.go(b, v); t.join(); } s.go(*c, v); SX_ASSERT(one(kept) == s.want(u), "results handed over keep their values"); s.go(b, u); sx_reach("end"); }
