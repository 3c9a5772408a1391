//@ sources: @runtime !src/runtime/inside/thread_pool.cpp !src/runtime/inside/parallel.cpp !src/module/io/fstream.cpp src/kernels/cpu/cast.cpp src/backend/base/base_cast_v2.cpp src/kernels/cpu/math_cpu.cpp
//@ entry: h_repeat reach=end
//@ entry: h_clone reach=end
//@ entry: h_clonehook reach=end
//@ entry: h_slots reach=ok,bad
//@ entry: h_fail reach=end
//@ entry: h_cast reach=end
//@ entry: h_param reach=end
//@ entry: h_hook reach=end
//@ entry: h_offline reach=end
//@ entry: h_switch reach=end
//@ entry: h_filter reach=ok,bad
//@ bounds: every graph of 1-2 inputs, 0-1 constant and 2 operators; up to 3 runs with any of the inputs changed in between; clones before and after runs; arbitrary 32-bit slots
//@ assume: operand and attribute values are arbitrary 32-bit integers
//@ stub: thread pool (only created, nothing runs on it in this build), CPU feature detection
//@ outside: larger graphs; concurrent use of clones (see the properties about threads)
#include "bench.h"
struct Boom : public MixOp { Boom() : MixOp(0) {} int run(Stack &s) override { if (s[0].data<int32_t>()[0] == 0) throw Exception("boom"); return MixOp::run(s); } };
static Operator::shared mkboom() { return std::make_shared<Boom>(); }
static int got(const Tensor &t) { SX_ASSERT(t.dtype() == INT32 && t.count() == 1, "output tensor"); return t.data<int32_t>()[0]; }
SX_ENTRY h_repeat() {   // every run uses the inputs set last; tensors handed out before keep their values
    Mod m; m.build(2, 0, 2); int top = 3; m.os = {top, sx_pick(0, 2, "o")}; m.outs = {m.g().v[top], m.g().v[m.os[1]]}; m.order(); m.load(); m.feed(m.b); std::vector<Tensor> keep; std::vector<int> kv;
    for (int r = 0; r < SXT(2, 3); ++r) { if (r) { int w = sx_pick(0, (int) m.in.size(), "change"); if (w < (int) m.in.size()) { m.pv[m.in[w]] = sx_i32("new"); m.b.input(w, tensor::from<int32_t>(m.pv[m.in[w]])); } } m.b.run(); m.check(m.b); for (size_t i = 0; i < m.os.size(); ++i) { keep.push_back(m.b.output((int) i)); kv.push_back(m.eval(m.os[i])); } }
    for (size_t i = 0; i < keep.size(); ++i) SX_ASSERT(got(keep[i]) == kv[i], "results of earlier runs keep their values"); for (size_t i = 0; i < m.in.size(); ++i) SX_ASSERT(got(m.b.input((int) i)) == m.pv[m.in[i]], "inputs are left as given"); sx_reach("end"); }
SX_ENTRY h_clone() {   // a clone computes the same and shares nothing observable
    Mod m; m.build(1, 1, 2); m.os = {3}; m.outs = {m.g().v[3]}; m.order(); m.load(); bool before = sx_choose(2, "ran"); if (before) { m.feed(m.b); m.b.run(); m.check(m.b); } Workbench::shared c = m.b.clone(); SX_ASSERT(c->input_count() == m.b.input_count() && c->output_count() == m.b.output_count(), "clone has the same slots");
    int v0; m.feed(m.b); m.b.run(); m.check(m.b); v0 = m.eval(3); Tensor t0 = m.b.output(0); auto pv = m.pv; m.feed(*c); c->run(); m.check(*c); int v1 = m.eval(3); SX_ASSERT(got(m.b.output(0)) == v0 && got(t0) == v0, "running the clone leaves the original alone"); if (!m.in.empty()) SX_ASSERT(got(m.b.input(0)) == pv[0], "inputs are not shared");
    int w = 2 + (int) sx_choose(2, "which"), x = sx_i32("param"); bool orig = sx_choose(2, "orig"); auto r = m.g().reach({3}); bool folded = !m.g().reach({w})[0]; sx_assume(!folded); (orig ? m.b : *c).set_operator_param(m.g().v[w]->name(), "a", tensor::from<int32_t>(x)); m.b.run(); c->run(); auto cv = m.pv; int keep = m.g().val[w]; if (orig) m.g().val[w] = x; m.pv = pv; SX_ASSERT(got(m.b.output(0)) == m.eval(3), "setting a parameter changes only the bench it is set on"); m.g().val[w] = orig ? keep : x; m.pv = cv; SX_ASSERT(got(c->output(0)) == m.eval(3), "setting a parameter changes only the bench it is set on"); sx_reach("end"); }
SX_ENTRY h_clonehook() { Mod m; m.build(1, 0, 2); m.os = {2}; m.outs = {m.g().v[2]}; m.order(); m.load(); Workbench::shared c = m.b.clone(); m.feed(*c); c->run_hook({m.g().v[1]->name()}); m.check(*c); auto r = m.g().reach({2}); if (r[1]) SX_ASSERT(got(c->output(m.g().v[1]->name())) == m.eval(1), "intermediate value of the clone"); SX_ASSERT(got(c->output(m.g().v[2]->name())) == m.eval(2), "output by name"); if (!m.in.empty()) SX_ASSERT(got(c->output(m.g().v[0]->name())) == m.pv[0], "hooked input"); sx_reach("end"); }
SX_ENTRY h_slots() { Mod m; m.build(2, 0, 1); m.os = {2, 0}; m.outs = {m.g().v[2], m.g().v[0]}; m.order(); m.load(); m.feed(m.b); m.b.run(); int n = (int) m.in.size(); bool in = sx_choose(2, "in"); int lim = in ? n : 2; int s = sx_pick(-1, lim, "slot class"); bool ok = s >= 0 && s < lim; if (!ok) { bool neg = s < 0; s = sx_i32("slot"); sx_assume(neg ? s < 0 : s >= lim); } 
    bool t = throws([&]() { if (in) m.b.input(s, tensor::from<int32_t>(1)); else m.b.output(s); }); SX_ASSERT(t == !ok, "slots outside the program are rejected, those inside are not"); if (t) { m.b.run(); m.check(m.b); sx_reach("bad"); } else sx_reach("ok"); Workbench e(ComputingDevice(CPU, 0)); SX_ASSERT(throws([&]() { e.run(); }) && throws([&]() { e.run_hook({"x"}); }), "nothing to run is an error"); }
SX_ENTRY h_fail() {   // an operator that fails makes the run fail; afterwards the bench works again
    Reg r; Dev d; OperatorCreator::Register(CPU, "boom", mkboom); Workbench b(ComputingDevice(CPU, 0)); Graph g; ctx::bind<Graph> bg(g); Node p = bubble::param("p"), q = bubble::param("q"), x = bubble::op("x", "boom", {p}), y = bubble::op("y", "boom", {q, x}); int a = sx_i32("a"), c = sx_i32("c"); x->set("a", tensor::from<int32_t>(a)); y->set("a", tensor::from<int32_t>(c)); auto m = Module::Load(g, std::vector<Node>({y, x})); m->sort_inputs({"p", "q"}); b.setup(b.compile(m));
    for (int k = 0; k < SXT(2, 3); ++k) { int vp = sx_i32("p"), vq = sx_i32("q"); b.input(0, tensor::from<int32_t>(vp)); b.input(1, tensor::from<int32_t>(vq)); bool t = throws([&]() { b.run(); }); SX_ASSERT(t == (vp == 0 || vq == 0), "the run fails exactly when an operator does"); SX_ASSERT(b.stack().size() == 0, "nothing is left behind"); if (!t) { int wx = mix(a, {vp}); SX_ASSERT(got(b.output(1)) == wx && got(b.output(0)) == mix(c, {vq, wx}), "later runs are right"); } } sx_reach("end"); }
SX_ENTRY h_cast() {   // inputs are converted to the declared type
    Reg r; Dev d; Workbench b(ComputingDevice(CPU, 0)); Graph g; ctx::bind<Graph> bg(g); Node p = bubble::param("p", INT32), q = bubble::param("q"), y = bubble::op("y", "f0", {p, q}); int a = sx_i32("a"); y->set("a", tensor::from<int32_t>(a)); auto m = Module::Load(g, std::vector<Node>({y, p})); m->sort_inputs({"q", "p"}); b.setup(b.compile(m)); int q0 = sx_i32("q"); b.input("q", tensor::from<int32_t>(q0)); int want = 0; Tensor in; int t = (int) sx_choose(4, "type");
    if (t == 0) { uint8_t v = sx_u8("v"); want = v; in = tensor::from<uint8_t>(v); } else if (t == 1) { int16_t v = (int16_t) sx_u16("v"); want = v; in = tensor::from<int16_t>(v); } else if (t == 2) { uint32_t v = sx_u32("v"); want = (int) v; in = tensor::from<uint32_t>(v); } else { int32_t v = sx_i32("v"); want = v; in = tensor::from<int32_t>(v); }
    DTYPE had = in.dtype(); b.input("p", in); for (int k = 0; k < 2; ++k) { b.run(); SX_ASSERT(got(b.output(0)) == mix(a, {want, q0}), "the operator sees the converted input"); SX_ASSERT(got(b.output(1)) == want, "converted input as output"); SX_ASSERT(b.input("p").dtype() == had, "the input given stays as it is"); } sx_reach("end"); }
SX_ENTRY h_param() { Mod m; m.build(1, 1, 2); m.os = {3, 2}; m.outs = {m.g().v[3], m.g().v[2]}; m.order(); m.load(); int w = 2 + (int) sx_choose(2, "which"); sx_assume(m.g().reach({w})[0]); if (sx_choose(2, "ran")) { m.feed(m.b); m.b.run(); } m.g().val[w] = sx_i32("param"); m.b.set_operator_param(m.g().v[w]->name(), "a", tensor::from<int32_t>(m.g().val[w])); m.b.set_operator_param("nobody", "a", tensor::from<int32_t>(0)); m.feed(m.b); m.b.run(); m.check(m.b); sx_reach("end"); }
SX_ENTRY h_hook() { Mod m; m.build(1, 1, 2); m.os = {3}; m.outs = {m.g().v[3]}; m.order(); m.load(); m.feed(m.b); auto r = m.g().reach({3}); m.b.run_hook({m.g().v[2]->name(), "zz"}); m.check(m.b); if (!m.in.empty()) SX_ASSERT(got(m.b.output(m.g().v[0]->name())) == m.pv[0], "input saved by the hook"); bool live = r[2] && m.g().reach({2})[0]; if (live) SX_ASSERT(got(m.b.output(m.g().v[2]->name())) == m.eval(2), "hooked intermediate value"); else SX_ASSERT(throws([&]() { m.b.output(m.g().v[2]->name()); }), "a node that did not run has no value"); SX_ASSERT(throws([&]() { m.b.output("zz"); }), "unknown node"); m.feed(m.b); m.b.run(); m.check(m.b); SX_ASSERT(throws([&]() { m.b.output(m.g().v[2]->name()); }), "a plain run hooks nothing"); sx_reach("end"); }
SX_ENTRY h_offline() {   // running a program on given arguments
    Mod m; m.build(2, 0, 2); m.os = {3}; m.outs = {m.g().v[3]}; m.order(); m.m = Module::Load(m.g().g, m.outs); m.m->sort_inputs(m.inputs); auto p = m.b.compile(m.m); m.values(); std::vector<Tensor> a; std::map<std::string, Tensor> na; for (int i : m.in) { a.push_back(tensor::from<int32_t>(m.pv[i])); na[m.g().v[i]->name()] = a.back(); } m.b.stack().push(tensor::from<int32_t>(77)); 
    bool map = sx_choose(2, "map"); auto o = map ? m.b.launch_offline(p, na) : m.b.launch_offline(p, a); SX_ASSERT(o.size() == 1 && got(o[0]) == m.eval(3), "value of the expression"); SX_ASSERT(m.b.stack().size() == 1 && got(*m.b.stack().top()) == 77, "the stack is as before"); a.push_back(tensor::from<int32_t>(1)); SX_ASSERT(throws([&]() { m.b.launch_offline(p, a); }), "wrong number of arguments"); SX_ASSERT(throws([&]() { m.b.launch_offline(nullptr, a); }), "no program"); SX_ASSERT(m.b.stack().size() == 1 && got(*m.b.stack().top()) == 77, "the stack is as before"); 
    for (int i : m.in) m.b.stack().push(tensor::from<int32_t>(m.pv[i])); if (!m.in.empty()) { int n = m.b.launch_online(p, (int) m.in.size()); SX_ASSERT(n == 1 && m.b.stack().size() == 2 && got(*m.b.stack().top()) == m.eval(3) && got(*m.b.stack().index(0)) == 77, "results replace the arguments"); } sx_reach("end"); }
SX_ENTRY h_switch() {   // two programs on one bench
    Mod m; m.build(1, 0, 2); m.os = {2}; m.outs = {m.g().v[2]}; m.order(); m.load(); auto p1 = m.b.compile(m.m); m.os = {1, 0}; m.outs = {m.g().v[1], m.g().v[0]}; m.in.clear(); m.order(); m.m = Module::Load(m.g().g, m.outs); auto p2 = m.b.compile(m.m); m.b.setup(p2); m.feed(m.b); m.b.run(); m.check(m.b); m.os = {2}; m.in.clear(); m.order(); m.b.setup(p1); m.feed(m.b); m.b.run(); SX_ASSERT(m.b.output_count() == 1, "outputs of the program set up last"); m.check(m.b); m.b.setup(nullptr); SX_ASSERT(m.b.input_count() == 0 && throws([&]() { m.b.run(); }), "no program"); sx_reach("end"); }
static Module::shared fmod(const std::vector<std::string> &ps, int a) { Graph g; ctx::bind<Graph> b(g); std::vector<Node> in; for (auto &p : ps) in.push_back(p == "q" ? bubble::param(p, INT32) : bubble::param(p)); Node z = bubble::op("z", "f0", in); z->set("a", tensor::from<int32_t>(a)); auto m = Module::Load(g, std::vector<Node>({z})); m->sort_inputs(in); return m; }
SX_ENTRY h_filter() {   // a program bound to an input is applied to that input only; clones have filters of their own
    Reg r; Dev d; Workbench b(ComputingDevice(CPU, 0)); int a = sx_i32("a"), c = sx_i32("c"); auto f = b.compile(fmod({"x"}, c)), prog = b.compile(fmod({"p", "q"}, a)); int slot = (int) sx_choose(2, "slot"); bool both = sx_choose(2, "both");
    SX_ASSERT(throws([&]() { prog->bind_filter(2, f); }) && throws([&]() { prog->bind_filter(-1, f); }) && throws([&]() { prog->bind_filter(0, prog); }), "filters take one tensor to one tensor, at an input of the program");
    prog->bind_filter(slot, f); if (both) prog->bind_filter(1 - slot, f); b.setup(prog); bool has[2] = {both || slot == 0, both || slot == 1}; SX_ASSERT((prog->input_filter(0) != nullptr) == has[0] && (prog->input_filter(1) != nullptr) == has[1], "filters are where they were bound");
    int v[2] = {sx_i32("p"), sx_i32("q")}; int dims = sx_pick(0, 5, "dims"); Ints one(dims, 1); b.input(0, mk<int32_t>(one, {v[0]})); b.input(1, mk<int32_t>(one, {v[1]})); bool bad = dims < 2 || dims > 4; bool t = throws([&]() { b.run(); }); SX_ASSERT(t == bad, "filters take images of 2 to 4 dimensions"); SX_ASSERT(b.stack().size() == 0, "nothing is left behind"); if (t) { sx_reach("bad"); return; }
    auto value = [&](int c) { std::vector<int> x; for (int i = 0; i < 2; ++i) x.push_back(has[i] ? mix(c, {v[i]}) : v[i]); return mix(a, x); }; SX_ASSERT(got(b.output(0)) == value(c), "the filtered value goes in"); SX_ASSERT(got(b.input(0)) == v[0] && got(b.input(1)) == v[1], "the inputs stay as given");
    Workbench w(ComputingDevice(CPU, 0)); Program::shared k = prog->clone(); w.setup(k); int c2 = sx_i32("c2"), kc = c, oc = c; bool clone = sx_choose(2, "whose"); (clone ? kc : oc) = c2; { ctx::bind<DeviceContext> bd(b.device()); (clone ? k : prog)->input_filter(slot)->set_operator_param("z", "a", tensor::from<int32_t>(c2)); }
    w.input(0, mk<int32_t>(one, {v[0]})); w.input(1, mk<int32_t>(one, {v[1]})); w.run(); b.run(); auto val = [&](int cs, int co) { std::vector<int> x; for (int i = 0; i < 2; ++i) x.push_back(has[i] ? mix(i == slot ? cs : co, {v[i]}) : v[i]); return mix(a, x); }; SX_ASSERT(got(b.output(0)) == val(oc, oc), "the filters of a clone are its own"); SX_ASSERT(got(w.output(0)) == val(kc, c), "the clone filters with its own filters");
    prog->bind_filter(slot, nullptr); b.run(); has[slot] = false; SX_ASSERT(got(b.output(0)) == value(oc), "unbound"); sx_reach("ok"); }
