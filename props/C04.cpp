//@ sources: @core src/module/*.cpp src/module/io/stream.cpp src/utils/box.cpp src/backend/name.cpp src/compiler/translater.cpp !src/module/io/fstream.cpp
//@ entry: h_inputs reach=end
//@ entry: h_leaves reach=end
//@ entry: h_by_name reach=ok,bad
//@ entry: h_sort reach=ok,bad
//@ entry: h_reject reach=end
//@ entry: h_relink reach=end
//@ entry: h_replace reach=end
//@ entry: h_fusion reach=end
//@ entry: h_chain reach=end
//@ entry: h_set_param reach=end
//@ bounds: every graph of up to 2 inputs, 1 constant and 2-3 operators with 1-2 operands; every choice of 1-2 outputs; two modules of up to 2 inputs and 2 outputs joined by every route, three modules joined in a chain with routes in either order
//@ assume: node names are distinct unless stated
//@ outside: larger graphs; module graphs with cycles
#include "dag.h"
static std::vector<std::string> names(const std::vector<Node> &v) { std::vector<std::string> r; for (auto &n : v) r.push_back(n->name()); return r; }
SX_ENTRY h_inputs() {   // the inputs of a module are exactly the parameters its outputs need
    Dev d; Dag g(2, 1, SXT(2, 3)); std::vector<int> os; int k = sx_pick(1, 2, "outs"); std::vector<Node> outs; for (int i = 0; i < k; ++i) { int o = sx_pick(0, (int) g.v.size() - 1, "out"); os.push_back(o); outs.push_back(g.v[o]); }
    auto m = Module::Load(g.g, outs); auto r = g.reach(os); std::vector<std::string> want; for (int i = 0; i < 2; ++i) if (r[i]) want.push_back(g.v[i]->name()); auto got = names(m->inputs()); std::sort(got.begin(), got.end()); SX_ASSERT(got == want, "inputs are exactly the needed parameters"); SX_ASSERT(names(m->outputs()) == names(outs), "outputs as asked for"); sx_reach("end"); }
SX_ENTRY h_leaves() {   // without explicit outputs: the nodes nobody consumes
    Dev d; Dag g(1, 1, SXT(2, 3)); auto m = Module::Load(g.g); std::vector<bool> used(g.v.size(), false); for (auto &in : g.in) for (int i : in) used[i] = true; std::vector<std::string> want; for (size_t i = 0; i < g.v.size(); ++i) if (!used[i]) want.push_back(g.v[i]->name()); SX_ASSERT(names(m->outputs()) == want, "outputs are the unconsumed nodes"); sx_reach("end"); }
SX_ENTRY h_by_name() {
    Dev d; Graph g; ctx::bind<Graph> b(g); const char *nms[3] = {"a", "b", "c"}; std::vector<Node> v; v.push_back(bubble::param(sx_choose(2, "param too") ? "b" : "p")); for (int i = 0; i < 3; ++i) { std::vector<Node> in(i == 1 ? 2 : 1, v[0]); v.push_back(bubble::op(nms[sx_choose(3, "nm")], i == 2 ? "h" : "f", in)); } int k = sx_pick(1, 2, "k"); std::vector<std::string> q; for (int i = 0; i < k; ++i) q.push_back(sx_choose(4, "q") ? nms[sx_choose(3, "w")] : "zz");
    bool bad = false; std::vector<Node> want; for (auto &s : q) { int c = 0; Node *f = nullptr; for (auto &n : v) if (n->name() == s) { ++c; f = &n; } if (c != 1) bad = true; else want.push_back(*f); }
    Module::shared m; bool t = throws([&]() { m = Module::Load(g, q); }); SX_ASSERT(t == bad, "missing or ambiguous output names are rejected"); if (t) { sx_reach("bad"); return; } SX_ASSERT(m->outputs() == want, "outputs in the order asked for"); sx_reach("ok"); }
SX_ENTRY h_sort() {
    Dev d; Graph g; ctx::bind<Graph> b(g); std::vector<Node> p = {bubble::param("a"), bubble::param("b"), bubble::param("c")}; Node o = bubble::op("o", "f", p); const char *nms[4] = {"a", "b", "c", "zz"}; int k = sx_pick(2, 4, "k"); std::vector<std::string> q; std::vector<Node> want; bool bad = false; int seen = 0; for (int i = 0; i < k; ++i) { int w = (int) sx_choose(4, "w"); q.push_back(nms[w]); if (w == 3) bad = true; else { want.push_back(p[w]); seen |= 1 << w; } } if (seen != 7) bad = true;
    auto m = Module::Load(g, std::vector<Node>({o})); bool t = throws([&]() { m->sort_inputs(q); }); SX_ASSERT(t == bad, "every input must be named, and nothing else"); if (t) { auto got = names(m->inputs()); std::sort(got.begin(), got.end()); SX_ASSERT(got == std::vector<std::string>({"a", "b", "c"}), "a rejected order changes nothing"); sx_reach("bad"); } else { SX_ASSERT(m->inputs() == want, "inputs in the given order"); 
        auto m2 = Module::Load(g, std::vector<Node>({o})); m2->sort_inputs(want); SX_ASSERT(m2->inputs() == want, "inputs in the given order"); sx_reach("ok"); } }
SX_ENTRY h_reject() {
    Dev d; Graph g, h; Node foreign = [&]() { ctx::bind<Graph> b(h); return bubble::param("x"); }(); ctx::bind<Graph> b(g); Node p = bubble::param("p"); int w = (int) sx_choose(4, "what"); Node o = p;
    if (w == 0) o = bubble::op("o", "f", {p, foreign}); else if (w == 1) o = bubble::op("o", "f", {p, bubble::op("q", "f", {})}); else if (w == 2) o = foreign; else o = bubble::op("o", "f", {});
    SX_ASSERT(throws([&]() { Module::Load(g, std::vector<Node>({o})); }), "nodes of other graphs and operators without operands are rejected"); sx_reach("end"); }
static bool consistent(const std::vector<Node> &v) { for (auto &n : v) { auto in = n.inputs(); for (auto &m : v) { int a = 0, b = 0; for (auto &i : in) a += i == m; for (auto &o : m.outputs()) b += o == n; if (a != b) return false; } } return true; }
SX_ENTRY h_relink() {   // operand and consumer lists always mirror each other, also after relinking and after other graphs are gone
    Dev d; Dag g(1, 1, 2); { Graph tmp; ctx::bind<Graph> b(tmp); bubble::op("t", "f", {g.v[0], g.v[1]}); if (sx_choose(2, "late")) bubble::op("t2", "f", {g.v[0]}); }
    int n = 2 + (int) sx_choose(2, "node"); int k = sx_pick(0, 2, "k"); std::vector<Node> in; for (int i = 0; i < k; ++i) in.push_back(g.v[sx_pick(0, n - 1, "in")]); Node::Link(g.v[n], in); SX_ASSERT(g.v[n].inputs() == in, "operands are those linked last"); SX_ASSERT(consistent(g.v), "consumers mirror operands"); sx_reach("end"); }
SX_ENTRY h_replace() {
    Dev d; Dag g(2, 0, SXT(2, 3)); int o = sx_pick(0, 2, "old"); Node fresh = [&]() { ctx::bind<Graph> b(g.g); return bubble::param("new"); }(); std::vector<std::vector<Node>> want; for (size_t i = 0; i < g.v.size(); ++i) { auto in = g.v[i].inputs(); for (auto &x : in) if (x == g.v[o]) x = fresh; want.push_back(in); }
    Node::ReplaceOutput(g.v[o], fresh); for (size_t i = 0; i < g.v.size(); ++i) SX_ASSERT(g.v[i].inputs() == want[i], "every use is replaced, nothing else"); SX_ASSERT(g.v[o].outputs().empty(), "the old node has no consumers"); auto all = g.v; all.push_back(fresh); SX_ASSERT(consistent(all), "consumers mirror operands"); sx_reach("end"); }
// expression with routed inputs substituted (a copy node stands for the routed value)
static std::string ex(const Node &n, const std::map<std::string, std::string> &sub) { auto in = n.inputs(); auto it = sub.find(n->name()); if (it != sub.end() && in.empty()) return it->second; if (in.empty()) return n->name(); std::string s = n->name() + "("; for (auto &i : in) s += ex(i, sub) + ","; return s + ")"; }
static std::string fx(const Node &n) { auto in = n.inputs(); if (in.empty()) return n->name(); if (in.size() == 1 && n->op() == "_copy") return fx(in[0]); std::string s = n->name() + "("; for (auto &i : in) s += fx(i) + ","; return s + ")"; }
struct Sub { Graph g; std::vector<Node> in, out; Module::shared m; Sub(char tag, int ni, int no) { ctx::bind<Graph> b(g); for (int i = 0; i < ni; ++i) in.push_back(bubble::param(std::string(1, tag) + "in" + char('0' + i))); Node c = bubble::data(std::string(1, tag) + "c", tensor::from<int32_t>(1)); for (int i = 0; i < no; ++i) { auto ops = in; if (i) std::reverse(ops.begin(), ops.end()); ops.push_back(c); out.push_back(bubble::op(std::string(1, tag) + "out" + char('0' + i), "f", ops)); } m = Module::Load(g, out); m->sort_inputs(in); } };
static void check(const Module::shared &f, const std::vector<std::string> &ins, const std::vector<std::string> &outs) { SX_ASSERT(names(f->inputs()) == ins, "the unconnected inputs, in order"); SX_ASSERT(f->outputs().size() == outs.size(), "the unconnected outputs"); for (size_t i = 0; i < outs.size(); ++i) SX_ASSERT(fx(f->output(i)) == outs[i], "an output computes the composition"); }
SX_ENTRY h_fusion() {
    Dev d; int no = sx_pick(1, 2, "no"), ni = sx_pick(1, 2, "ni"); Sub a('a', sx_pick(1, 2, "ai"), no), b('b', ni, sx_pick(1, 2, "bo")); int os = sx_pick(-1, no, "oslot"), is = sx_pick(-1, ni, "islot"); bool ba = sx_choose(2, "order"); Module::Route r(ba ? 1 : 0, os, ba ? 0 : 1, is); std::vector<Module::shared> ms = {a.m, b.m}; if (ba) std::swap(ms[0], ms[1]);
    bool bad = (os < 0 && no > 1) || (is < 0 && ni > 1) || os >= no || is >= ni; Module::shared f; bool t = throws([&]() { f = Module::Fusion(ms, {r}); }); SX_ASSERT(t == bad, "routes to missing or ambiguous slots are rejected"); sx_reach("end"); if (t) return; int o = os < 0 ? 0 : os, i = is < 0 ? 0 : is;
    std::map<std::string, std::string> none, sub; sub[b.in[i]->name()] = ex(a.out[o], none); std::vector<std::string> ins, outs; for (int q = 0; q < 2; ++q) { bool isa = (q == 0) != ba; auto &s = isa ? a : b; for (size_t k = 0; k < s.in.size(); ++k) if (isa || (int) k != i) ins.push_back(s.in[k]->name()); for (size_t k = 0; k < s.out.size(); ++k) if (!isa || (int) k != o) outs.push_back(ex(s.out[k], sub)); }
    check(f, ins, outs); for (auto &n : a.out) SX_ASSERT(names(n.inputs()).size() == a.in.size() + 1, "the fused modules are left as they were"); sx_reach("end"); }
SX_ENTRY h_chain() {   // a -> b -> c, routes in any order; b may also feed from a twice
    Dev d; Sub a('a', 1, 1), b('b', sx_pick(1, 2, "bi"), 1), c('c', 1, 1); std::vector<Module::Route> rs; rs.push_back(Module::Route(0, 0, 1, 0)); if (b.in.size() == 2) rs.push_back(Module::Route(0, 0, 1, 1)); rs.push_back(Module::Route(1, 0, 2, 0)); if (sx_choose(2, "rev")) std::reverse(rs.begin(), rs.end()); else if (sx_choose(2, "rot")) std::rotate(rs.begin(), rs.begin() + 1, rs.end());
    auto f = Module::Fusion({a.m, b.m, c.m}, rs); std::map<std::string, std::string> none, sb, sc; for (auto &n : b.in) sb[n->name()] = ex(a.out[0], none); sc[c.in[0]->name()] = ex(b.out[0], sb); check(f, {"ain0"}, {ex(c.out[0], sc)}); sx_reach("end"); }
SX_ENTRY h_set_param() { Dev d; Dag g(1, 1, 2); auto m = Module::Load(g.g, std::vector<Node>({g.v[3], g.v[2]})); int k = sx_pick(0, 3, "k"), x = sx_i32("v"); m->set_param(g.v[k]->name(), "a2", tensor::from<int32_t>(x)); for (int i = 0; i < 4; ++i) { SX_ASSERT(g.v[i]->has("a2") == (i == k), "exactly the named node is changed"); } SX_ASSERT(g.v[k]->get_int("a2") == x, "value"); sx_reach("end"); }
