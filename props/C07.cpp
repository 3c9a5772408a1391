//@ sources: @core src/runtime/operator.cpp src/runtime/stack.cpp src/runtime/runtime.cpp src/backend/name.cpp src/backend/common_function.cpp src/module/*.cpp src/module/io/stream.cpp !src/module/io/fstream.cpp src/compiler/translater.cpp src/compiler/option/fp16_translator_option.cpp src/compiler/option/pack_translator_option.cpp src/compiler/option/translator_option.cpp src/backend/base/base_conv2d.cpp src/kernels/cpu/conv2d.cpp src/kernels/cpu/conv2d_core.cpp src/kernels/cpu/conv2d_v2.cpp src/kernels/cpu/im2col.cpp src/kernels/cpu/math_cpu.cpp src/backend/base/base_gemm.cpp src/kernels/cpu/cpu_gemm.cpp src/backend/base/base_inner_prod.cpp src/kernels/cpu/inner_prod.cpp src/backend/base/element_wise_reduce.cpp src/backend/base/base_cast_v2.cpp src/backend/base/base_cast.cpp src/kernels/cpu/cast.cpp src/backend/base/base_broadcast*.cpp src/kernels/cpu/broadcast*.cpp src/kernels/cpu/add.cpp src/kernels/cpu/mul.cpp src/backend/base/base_transpose.cpp src/kernels/cpu/transpose.cpp src/utils/box.cpp
//@ entry: h_conv reach=end
//@ entry: h_inner reach=end
//@ entry: h_gemm reach=end
//@ entry: h_shared reach=end
//@ entry: h_other reach=end
//@ entry: h_half reach=end
//@ entry: h_bn reach=end
//@ stub: intime::transpose (a call into a nested workbench) runs the library's transpose operator directly
//@ bounds: graphs of 1-3 conv2d, conv2d_v2, inner_prod or gemm nodes around the 8-wide blocking, weights constant or fed, shared between two nodes or also used elsewhere, float or double; every choice of gemm coefficients 0, 1, other, set or not; translated once, twice and again after translation; half-precision translation of every graph of 2 inputs, 1 constant and 2 operators
//@ assume: element values arbitrary reals; one operator kind stands for those with a half-precision version
//@ outside: values after rounding to half precision; the Winograd rewrite (ARM only)
#include "dag.h"
#include "conv.h"
#include <compiler/translater.h>
#include <compiler/option/pack_translator_option.h>
#include <compiler/option/fp16_translator_option.h>
#include <global/fp16_operator_factory.h>
#include <frontend/intime.h>
namespace ts { namespace intime { Tensor transpose(const Tensor &x, const std::vector<int32_t> &permute) { OpT op("_transpose"); op.set("permute", iv(Ints(permute.begin(), permute.end()))); return op.run1({x}); } } }
typedef std::map<std::string, Tensor> Feed;
// what a node computes, straight from its description
static Tensor eval(const Node &n, const Feed &f) { if (n->op() == Bubble::Parameter) { auto it = f.find(n->name()); SX_ASSERT(it != f.end(), "every parameter of the module is an input"); return it->second; } if (n->op() == Bubble::Const) return n->get("value"); std::vector<Tensor> in; for (auto &i : n.inputs()) in.push_back(eval(i, f)); OpT op(n->op()); for (auto &p : n->params()) op.set(p.first, p.second); return op.run1(in, false); }
template <typename T> static void same(const Tensor &a, const Tensor &b, const char *m) { SX_ASSERT(a.dtype() == b.dtype() && ints(a.sizes()) == ints(b.sizes()), m); const T *p = a.data<T>(), *q = b.data<T>(); for (int i = 0, n = a.count(); i < n; ++i) dt<T>::eq(p[i], q[i], m); }
static void same_any(const Tensor &a, const Tensor &b, const char *m) { if (b.dtype() == FLOAT64) same<double>(a, b, m); else same<float>(a, b, m); }
static std::vector<Tensor> evals(const Module::shared &m, const Feed &f) { std::vector<Tensor> r; for (auto &o : m->outputs()) r.push_back(eval(o, f)); return r; }
static Module::shared tr(const Module::shared &m) { return Translator(ComputingDevice(CPU, 0)).translate(m); }
template <typename O> static void use() { static O o; RegisterTranslateOption(&o); }
static void check(Graph &g, const std::vector<Node> &outs, const std::vector<Node> &ins, const Feed &f) {
    Module::shared m = Module::Load(g, outs); m->sort_inputs(ins); auto w = evals(m, f); use<PackTranslatorOption>(); 
    auto cmp = [&](const Module::shared &t, const char *what) { auto r = evals(t, f); SX_ASSERT(r.size() == w.size() && t->outputs().size() == outs.size(), what); for (size_t i = 0; i < w.size(); ++i) { same_any(r[i], w[i], what); SX_ASSERT(t->output(i)->name() == outs[i]->name(), "outputs keep their names"); } SX_ASSERT(t->inputs().size() == ins.size(), "inputs survive"); for (size_t i = 0; i < ins.size(); ++i) SX_ASSERT(t->input(i)->name() == ins[i]->name(), "inputs keep their order"); };
    auto t = tr(m); cmp(t, "the translated module computes the same"); cmp(m, "the module itself is left alone"); auto u = tr(m); cmp(u, "translating the module again"); cmp(t, "a translated module does not depend on later translations"); cmp(tr(t), "translating a translated module"); }
static Node conv_(const std::string &name, bool v2, const Geo &g, const Node &x, const Node &w) { Node n = v2 ? bubble::op(name, "conv2d_v2", {x, bubble::data(name + "_pad", g.pad()), w}) : bubble::op(name, "conv2d", {x, w}); n->set("format", tensor::from("NCHW")); n->set("stride", g.stride()); n->set("dilation", g.dilation()); n->set("padding_value", f1(0)); if (!v2) n->set("padding", g.pad()); return n; }
template <typename T> static void conv1() { static const int O[] = {1, 7, 8, 9, 17}; Geo g = {1, sx_pick(1, 2, "c"), 2, 3, O[sx_pick(0, 4, "o")], 1, 2, 1, 1, 1, 1, 0, 0, 0, sx_pick(0, 1, "pad")}; bool v2 = sx_choose(2, "v2"), cw = sx_choose(2, "const weights"); Graph gr; ctx::bind<Graph> b(gr); Feed f; Node x = bubble::param("x"); f["x"] = symt<T>({g.n, g.c, g.h, g.w}, "x"); Tensor w = symt<T>({g.o, g.c, g.kh, g.kw}, "w"); f["w"] = w; Node k = cw ? bubble::data("w", w) : bubble::param("w"); std::vector<Node> ins = {x}; if (!cw) ins.push_back(k); check(gr, {conv_("y", v2, g, x, k)}, ins, f); }
SX_ENTRY h_conv() { Dev d; if (sx_choose(2, "double")) conv1<double>(); else conv1<float>(); sx_reach("end"); }
template <typename T> static void inner1() { static const int O[] = {1, 8, 9, 17}; int M = sx_pick(1, 2, "M"), K = sx_pick(1, 5, "K"), N = O[sx_pick(0, 3, "N")]; int tb = sx_pick(0, 2, "transpose"); bool cw = sx_choose(2, "const weights"); Graph gr; ctx::bind<Graph> b(gr); Feed f; Node x = bubble::param("x"); f["x"] = symt<T>({M, K}, "x"); Tensor w = symt<T>(tb == 1 ? Ints{N, K} : Ints{K, N}, "w"); f["w"] = w; Node k = cw ? bubble::data("w", w) : bubble::param("w"); Node y = bubble::op("y", "inner_prod", {x, k}); if (tb) y->set("transpose", tensor::from<bool>(tb == 1)); std::vector<Node> ins = {x}; if (!cw) ins.push_back(k); check(gr, {y}, ins, f); }
SX_ENTRY h_inner() { Dev d; if (sx_choose(2, "double")) inner1<double>(); else inner1<float>(); sx_reach("end"); }
template <typename T> static void gemm1() { int M = 2, K = 3, N = sx_choose(2, "N") ? 9 : 2; bool ta = sx_choose(2, "transA"), tb = sx_choose(2, "transB"), ca = sx_choose(2, "const A"), cb = sx_choose(2, "const B"); int al = sx_pick(0, 3, "alpha"), be = sx_pick(0, 3, "beta"), cs = sx_pick(0, 2, "C"); sx_assume(N == 2 || cs == 0); if (SXT(1, 0)) { sx_assume(cs == 0 || al == 0); sx_assume(sizeof(T) == 4 || (al == 0 && be == 0)); sx_assume(N == 2 || al == 0 || be == 0); } Graph gr; ctx::bind<Graph> b(gr); Feed f; std::vector<Node> ins; auto in = [&](const char *n, bool c, const Ints &s) { Tensor t = symt<T>(s, n); f[n] = t; if (c) return bubble::data(n, t); Node p = bubble::param(n); ins.push_back(p); return p; };
    Node A = in("a", ca, ta ? Ints{K, M} : Ints{M, K}), B = in("b", cb, tb ? Ints{N, K} : Ints{K, N}), C = in("c", false, cs == 0 ? Ints{N} : cs == 1 ? Ints{M, 1} : Ints{}); Node y = bubble::op("y", "gemm", {A, B, C}); static const float V[] = {0, 1, 0, 2.5f}; if (al) y->set("alpha", f1(V[al - 1 + (al == 3)])); if (be) y->set("beta", f1(V[be - 1 + (be == 3)])); if (ta) y->set("transA", tensor::from<bool>(true)); if (tb) y->set("transB", tensor::from<bool>(true)); check(gr, {y}, ins, f); }
SX_ENTRY h_gemm() { Dev d; if (sx_choose(2, "double")) { gemm1<double>(); } else gemm1<float>(); sx_reach("end"); }
// one constant used by several nodes, in several roles, and as an output
SX_ENTRY h_shared() { Dev d; int k = sx_pick(0, 5, "case"); Graph gr; ctx::bind<Graph> b(gr); Feed f; Node x = bubble::param("x"); std::vector<Node> outs; 
    if (k <= 2) { Geo g = {1, 1, 1, 2, 9, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0}; f["x"] = symt<float>({1, 1, 1, 2}, "x"); Node w = bubble::data("w", symt<float>({9, 1, 1, 1}, "w")); outs.push_back(conv_("y0", k == 1, g, x, w)); if (k < 2) outs.push_back(conv_("y1", false, g, x, w)); else outs.push_back(bubble::op("y1", "add", {w, w})); if (sx_choose(2, "output")) outs.push_back(w); }
    else { f["x"] = symt<float>({3, 3}, "x"); Node w = bubble::data("w", symt<float>({3, 9}, "w")), q = bubble::data("q", symt<float>({3, 3}, "q")); outs.push_back(bubble::op("y0", "inner_prod", {x, w})); if (k == 3) outs.push_back(bubble::op("y1", "inner_prod", {x, w})); Node c = bubble::data("c", symt<float>({1}, "c")); if (k == 4) { Node y = bubble::op("y1", "gemm", {x, q, c}), z = bubble::op("y2", "gemm", {q, q, c}); y->set("transB", tensor::from<bool>(true)); z->set("transA", tensor::from<bool>(true)); outs.push_back(y); outs.push_back(z); } if (k == 5) { Node y = bubble::op("y1", "inner_prod", {q, q}); y->set("transpose", tensor::from<bool>(true)); outs.push_back(y); outs.push_back(q); } }
    check(gr, outs, {x}, f); sx_reach("end"); }
// anything else passes through: every small graph keeps its structure
SX_ENTRY h_other() { Dev d; Dag g(2, 1, SXT(2, 3)); int o = sx_pick(0, (int) g.v.size() - 1, "out"), p = sx_pick(0, (int) g.v.size() - 1, "out"); auto r = g.reach({o, p}); sx_assume(r[0] && r[1]); auto m = Module::Load(g.g, {g.v[o], g.v[p]}); m->sort_inputs({g.v[1], g.v[0]}); std::string a = draw(g.v[o]), b = draw(g.v[p]); if (sx_choose(2, "half")) use<Fp16TranslatorOption>(); use<PackTranslatorOption>(); auto t = tr(m); SX_ASSERT(t->outputs().size() == 2 && draw(t->output(0)) == a && draw(t->output(1)) == b, "the translated graph is the same graph"); SX_ASSERT(t->inputs().size() == 2 && t->input(0)->name() == "p1" && t->input(1)->name() == "p0", "inputs keep their order"); SX_ASSERT(draw(m->output(0)) == a && draw(m->output(1)) == b, "the module itself is left alone");
    std::vector<Node> todo = t->outputs(); while (!todo.empty()) { Node n = todo.back(); todo.pop_back(); for (auto &i : n.inputs()) todo.push_back(i); int k = -1; for (size_t j = 0; j < g.v.size(); ++j) if (g.v[j]->name() == n->name()) k = (int) j; SX_ASSERT(k >= 0 && n.ptr() != g.v[k].ptr(), "the translated graph has its own nodes"); if (g.kind[k] == 2) SX_ASSERT(n->get("a").data<int32_t>()[0] == g.val[k], "attributes survive"); if (g.kind[k] == 1) SX_ASSERT(n->get("value").data<int32_t>()[0] == g.val[k], "constants survive"); } sx_reach("end"); }
// half precision: operators that have a half version get half inputs, all others and the outputs stay full
static int stream(const Node &n) { if (n->op() == "f0") return FLOAT16; if (n->op() == "_cast") return n->get("dtype").data<int32_t>()[0]; if (n->op() == Bubble::Const) return n->get("value").dtype(); return FLOAT32; }
static std::string plain(const Node &n) { if (n->op() == "_cast") return plain(n.inputs()[0]); std::string s = n->name(); if (n.inputs().empty()) return s; s += "("; for (auto &i : n.inputs()) s += plain(i) + ","; return s + ")"; }
static void halves(const Node &n) { for (auto &i : n.inputs()) { int s = stream(i); if (s == FLOAT16 || s == FLOAT32) { if (n->op() == "f0") SX_ASSERT(s == FLOAT16, "an operator computing in half gets half inputs"); if (n->op() != "f0" && n->op() != "_cast") SX_ASSERT(s == FLOAT32, "an operator computing in full gets full inputs"); } halves(i); } }
static Operator::shared none() { return nullptr; }
SX_ENTRY h_half() { Dev d; Dag g(2, 1, SXT(2, 3)); g.v[2]->set("value", sx_choose(2, "const") ? tensor::from<float>(1) : tensor::from<int32_t>(1)); Fp16OperatorCreator::Register(CPU, "f0", none); int o = sx_pick(0, (int) g.v.size() - 1, "out"), p = sx_pick(0, (int) g.v.size() - 1, "out"); sx_assume(SXT(0, 1) || o == (int) g.v.size() - 1 || p == (int) g.v.size() - 1); auto m = Module::Load(g.g, {g.v[o], g.v[p]}); std::string a = plain(g.v[o]), b = plain(g.v[p]), c = draw(g.v[o]), e = draw(g.v[p]); use<Fp16TranslatorOption>(); auto t = tr(m);
    SX_ASSERT(t->outputs().size() == 2 && plain(t->output(0)) == a && plain(t->output(1)) == b, "apart from conversions the graph is the same"); halves(t->output(0)); halves(t->output(1)); SX_ASSERT(stream(t->output(0)) != FLOAT16 && stream(t->output(1)) != FLOAT16, "outputs are never half"); SX_ASSERT(draw(m->output(0)) == c && draw(m->output(1)) == e, "the module itself is left alone"); SX_ASSERT(t->inputs().size() == m->inputs().size(), "inputs survive"); sx_reach("end"); }
SX_ENTRY h_bn() { Dev d; Graph gr; ctx::bind<Graph> b(gr); Node x = bubble::param("x"), mean = bubble::data("mean", f1(0)); float v = sx_f32("variance"), e = sx_f32("epsilon"); Node var = bubble::data("var", mk<float>({1}, {v})); Node y = bubble::op("y", "batch_norm", {x, mean, var}), z = bubble::op("z", "batch_norm", {x, mean, var}), q = bubble::op("q", "f1", {var}); for (Node n : {y, z}) { n->set("dim", i1(1)); n->set("epsilon", f1(e)); } bool h = sx_choose(2, "half"); if (h) Fp16OperatorCreator::Register(CPU, "batch_norm", none); auto m = Module::Load(gr, {y, z, q}); use<Fp16TranslatorOption>(); for (int k = 0; k < 2; ++k) { auto t = tr(m); for (int i = 0; i < 2; ++i) { Node n = t->output(i); if (n->op() == "_cast") n = n.inputs()[0]; SX_ASSERT(n->op() == "batch_norm", "still a batch norm"); float ep = n->get("epsilon").data<float>()[0]; Node w = n.inputs()[2]; if (w->op() == "_cast") w = w.inputs()[0]; sx_feq_(w->get("value").data<float>()[0] + ep, v + e, "variance plus epsilon is kept, however often the constant is used"); }
        sx_feq_(t->output(2).inputs()[0]->get("value").data<float>()[0], v, "other uses of the constant see its value"); sx_feq_(var->get("value").data<float>()[0], v, "the module itself is left alone"); } sx_reach("end"); }
