//@ sources: @runtime !src/runtime/inside/thread_pool.cpp !src/runtime/inside/parallel.cpp !src/module/io/fstream.cpp
//@ entry: h_deep0 reach=end
//@ entry: h_deep1 reach=end
//@ entry: h_deep2 reach=end
//@ entry: h_deep3 reach=end
//@ entry: h_four0 reach=end
//@ entry: h_four1 reach=end
//@ entry: h_four2 reach=end
//@ entry: h_four3 reach=end
//@ entry: h_two0 reach=end
//@ entry: h_two1 reach=end
//@ entry: h_two2 reach=end
//@ entry: h_two3 reach=end
//@ entry: h_extra reach=end
//@ entry: h_fields reach=end
//@ entry: h_constfields reach=end
//@ entry: h_wide reach=end
//@ entry: h_names reach=end
//@ entry: h_reject reach=end
//@ entry: h_tiny reach=tiny,kept,off
//@ bounds: every graph of 2 inputs, 1 constant and 2 operators of 1-2 operands with 1-2 outputs (any nodes, repeated or not), 1 input, 1 constant and 3 operators (thorough 4), 1 input and 4 operators, one operator of up to 4 operands; module inputs in any order, with unused and repeated ones; packing and field selection over graphs of 3 such nodes
//@ assume: operand and attribute values are arbitrary 32-bit integers; the test operators mix them so that different expressions give different values
//@ stub: thread pool (only created, nothing runs on it in this build), CPU feature detection
//@ outside: larger graphs; packing tensors that are packed already; graph rewriting for other devices
#include "bench.h"
static void part(int v, int k, int n) { sx_assume(v % n == k); }
static void deep(int k) { Mod m; m.build(1, 1, SXT(3, 4)); part(m.g().in[3][0] + (m.g().in[3].size() > 1 ? 2 * m.g().in[3][1] : 0), k, 4); m.os = {(int) m.g().v.size() - 1}; m.outs = {m.g().v.back()}; m.order(); m.load(); m.feed(m.b); m.b.run(); m.check(m.b); sx_reach("end"); }
SX_ENTRY h_deep0() { deep(0); } SX_ENTRY h_deep1() { deep(1); } SX_ENTRY h_deep2() { deep(2); } SX_ENTRY h_deep3() { deep(3); }
static void four(int k) { Mod m; m.build(1, 0, 4); auto &last = m.g().in[4]; part(last[0] + (last.size() > 1 ? 2 * last[1] : 0) + m.g().in[3][0], k, 4); m.os = {4}; m.outs = {m.g().v.back()}; m.order(); m.load(); m.feed(m.b); m.b.run(); m.check(m.b); sx_reach("end"); }
SX_ENTRY h_four0() { four(0); } SX_ENTRY h_four1() { four(1); } SX_ENTRY h_four2() { four(2); } SX_ENTRY h_four3() { four(3); }
static void two(int k) { Mod m; m.build(SXT(1, 2), 1, 2); m.outputs(2); part((m.os.size() > 1 ? m.os[1] : 0) + m.g().in[SXT(2, 3)][0], k, 4); m.order(); m.load(); SX_ASSERT(m.b.input_count() == (int) m.inputs.size() && m.b.output_count() == (int) m.outs.size(), "as many inputs and outputs as the module"); m.feed(m.b); m.b.run(); m.check(m.b); sx_reach("end"); }
SX_ENTRY h_two0() { two(0); } SX_ENTRY h_two1() { two(1); } SX_ENTRY h_two2() { two(2); } SX_ENTRY h_two3() { two(3); }
SX_ENTRY h_extra() {   // modules may list inputs no output needs, and list an input again
    Mod m; m.build(2, 1, 1); m.outputs(2); auto r = m.g().reach(m.os); int k = sx_pick(0, 3, "inputs"); std::vector<bool> have(2, false); for (int i = 0; i < k; ++i) { int p = (int) sx_choose(2, "in"); m.in.push_back(p); have[p] = true; } for (int i = 0; i < 2; ++i) sx_assume(!r[i] || have[i]); m.sync(); m.load(); m.feed(m.b); m.b.run(); m.check(m.b); sx_reach("end"); }
// packing and field selection: values are lists
typedef std::vector<int> L;
struct Pk { Mod m; Graph g; std::vector<Node> v; std::vector<L> val; 
    void leaf(bool c) { ctx::bind<Graph> b(g); int x = sx_i32("leaf"); if (c) v.push_back(bubble::data("c", tensor::from<int32_t>(x))); else v.push_back(bubble::param("p")); val.push_back({x}); }
    void node(int k) { ctx::bind<Graph> b(g); int t = (int) sx_choose(3, "kind"), a = sx_pick(0, (int) v.size() - 1, "a"); if (t == 0) { int o = sx_pick(0, 2, "offset"); sx_assume(o < (int) val[a].size()); Node n = bubble::op(nm('n', k), "_field", {v[a]}); n->set("offset", tensor::from<int32_t>(o)); v.push_back(n); val.push_back({val[a][o]}); return; }
        int c = sx_pick(0, (int) v.size() - 1, "b"); if (t == 1) sx_assume(val[a].size() == 1 && val[c].size() == 1); L x = val[a]; x.insert(x.end(), val[c].begin(), val[c].end()); if (t == 1) { v.push_back(bubble::op(nm('n', k), "_pack", {v[a], v[c]})); val.push_back(x); } else { Node n = bubble::op(nm('n', k), "f0", {v[a], v[c]}); n->set("a", tensor::from<int32_t>(5)); v.push_back(n); val.push_back({mix(5, x)}); } }
    void go(bool feed) { auto mod = Module::Load(g, std::vector<Node>({v.back()})); m.b.setup(m.b.compile(mod)); if (m.b.input_count()) m.b.input(0, tensor::from<int32_t>(val[0][0])); m.b.run(); auto &t = m.b.output(0); L &w = val.back(); SX_ASSERT(t.fields_count() == w.size(), "number of fields"); for (size_t i = 0; i < w.size(); ++i) SX_ASSERT(t.field(i).data<int32_t>()[0] == w[i], "field value"); sx_reach("end"); } };
SX_ENTRY h_fields() { Pk p; p.leaf(false); p.leaf(true); for (int i = 0; i < SXT(2, 3); ++i) p.node(i); p.go(true); }
SX_ENTRY h_constfields() { Pk p; p.leaf(true); for (int i = 0; i < SXT(2, 3); ++i) p.node(i); p.go(false); }
SX_ENTRY h_wide() { Mod m; m.build(2, 1, 1, SXT(3, 4)); m.os = {3, 3}; m.outs = {m.g().v[3], m.g().v[3]}; if (sx_choose(2, "one")) { m.os.pop_back(); m.outs.pop_back(); } m.order(); m.load(); m.feed(m.b); m.b.run(); m.check(m.b); sx_reach("end"); }
SX_ENTRY h_names() {   // values go in and come out under the names of the nodes
    Mod m; m.build(2, SXT(0, 1), 2); int top = (int) m.g().v.size() - 1, o = sx_pick(0, top, "o"); m.os = {top, o}; m.outs = {m.g().v[top], m.g().v[o]}; m.order(); m.load(); m.values(); for (int i : m.in) m.b.input(m.g().v[i]->name(), tensor::from<int32_t>(m.pv[i])); m.b.run(); m.check(m.b); for (int k : m.os) SX_ASSERT(m.b.output(m.g().v[k]->name()).data<int32_t>()[0] == m.eval(k), "output by name"); 
    for (int i : m.in) SX_ASSERT(m.b.input(m.g().v[i]->name()).data<int32_t>()[0] == m.pv[i], "input by name"); SX_ASSERT(throws([&]() { m.b.input("zz", tensor::from<int32_t>(0)); }) && throws([&]() { m.b.output("zz"); }), "unknown names are rejected"); sx_reach("end"); }
SX_ENTRY h_reject() {   // what cannot be compiled is rejected
    Mod m; int w = (int) sx_choose(3, "what"); m.build(2, 0, 2); Node bad = m.g().v[0]; { ctx::bind<Graph> b(m.g().g); bad = bubble::op("bad", w == 0 ? "nosuchop" : "f0", {m.g().v.back()}); if (w == 1) {} else bad->set("a", tensor::from<int32_t>(0)); }
    if (w < 2) { auto mod = Module::Load(m.g().g, std::vector<Node>({bad})); SX_ASSERT(throws([&]() { m.b.compile(mod); }), "unknown operators and missing attributes are rejected"); }
    else { auto r = m.g().reach({3}); std::vector<Node> ins; bool missing = false; for (int i = 0; i < 2; ++i) { if (sx_choose(2, "give")) ins.push_back(m.g().v[i]); else if (r[i]) missing = true; } Compiler c(ComputingDevice(CPU, 0)); ctx::bind<Workbench> bw(m.b); SX_ASSERT(throws([&]() { c.compile(ins, {m.g().v[3]}); }) == missing, "an output that needs an input which is not given is rejected"); } sx_reach("end"); }
// constants pass into programs as they are; with --filter those nearer to zero than the machine epsilon become zero
struct PassOp : public Operator { int infer(Stack &s, std::vector<Tensor::Prototype> &o) override { o.assign(1, s[0].proto()); return 1; } int run(Stack &s) override { s.push(s[0].clone()); return 1; } };
static Operator::shared mkpass() { return std::make_shared<PassOp>(); }
template <typename T> static void tiny(T eps, bool on, bool tinyv, T x) { Workbench b(ComputingDevice(CPU, 0)); Graph g; ctx::bind<Graph> bg(g); Node y = bubble::op("y", "pass", {bubble::data("c", mk<T>({3}, {x, T(1), x}))}), z = bubble::op("z", "pass", {bubble::data("i", mk<int32_t>({1}, {1}))}); auto m = Module::Load(g, std::vector<Node>({y, z})); b.setup(b.compile(m, on ? "--filter" : "--no-filter")); b.run(); auto &t = b.output(0); SX_ASSERT(t.dtype() == dt<T>::v && t.count() == 3, "constant"); T w = on && tinyv ? T(0) : x; SX_ASSERT(t.data<T>()[0] == w && t.data<T>()[1] == T(1) && t.data<T>()[2] == w, "only values next to zero are filtered"); SX_ASSERT(b.output(1).data<int32_t>()[0] == 1, "integers are kept"); sx_reach(!on ? "off" : tinyv ? "tiny" : "kept"); }
SX_ENTRY h_tiny() { OperatorCreator::Register(CPU, "pass", mkpass); Dev d; bool on = sx_choose(2, "on"), dbl = sx_choose(2, "double"); if (dbl) { double e = DBL_EPSILON, x = sx_f64("x"); bool t = x > -e && x < e; tiny<double>(e, on, t, x); } else { float e = FLT_EPSILON, x = sx_f32("x"); bool t = x > -e && x < e; tiny<float>(e, on, t, x); } }
