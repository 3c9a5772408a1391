//@ sources: @core src/module/*.cpp src/module/io/stream.cpp src/utils/box.cpp src/backend/name.cpp src/compiler/translater.cpp !src/module/io/fstream.cpp src/module/loaders/open.cpp src/global/module_loader_factory.cpp
//@ entry: h_module reach=end
//@ entry: h_graph reach=end
//@ entry: h_order reach=end
//@ entry: h_truncated reach=end
//@ entry: h_index reach=ok,bad
//@ entry: h_io_index reach=ok,bad
//@ entry: h_loaders reach=ok,bad
//@ bounds: every graph of 2 inputs, 1 constant and 2 (thorough 3) operators with 1-2 operands each (computation order: 1 input and 4 operators), every choice of 1-2 outputs; every truncation point of a saved module; arbitrary 32-bit node, input and output indices
//@ assume: attribute values are arbitrary
//@ outside: larger graphs; files (streams are in memory)
#include "dag.h"
#include "io.h"
#include <global/module_loader_factory.h>
static Module::shared ld(Src &r) { return sx_choose(2, "v2") ? Module::LoadV2(r, nullptr, 0) : Module::Load(r); }
static void same_attr(const Node &a, const Node &b) { for (auto &p : a->params()) { SX_ASSERT(b->has(p.first), "attribute survives"); auto &x = p.second; auto &y = b->get(p.first); SX_ASSERT(x.proto() == y.proto(), "attribute type survives"); int n = x.count() * x.proto().type_bytes(); for (int i = 0; i < n; ++i) SX_ASSERT(x.data<char>()[i] == y.data<char>()[i], "attribute value survives"); } }
static void collect(const Node &n, std::map<std::string, Node> &m) { if (m.find(n->name()) != m.end()) return; m.insert({n->name(), n}); for (auto &i : n.inputs()) collect(i, m); }
static void same_nodes(const std::vector<Node> &a, const std::vector<Node> &b) { std::map<std::string, Node> x, y; for (auto &n : a) collect(n, x); for (auto &n : b) collect(n, y); SX_ASSERT(x.size() == y.size(), "same nodes"); for (auto &p : x) { auto it = y.find(p.first); SX_ASSERT(it != y.end(), "node survives"); same_attr(p.second, it->second); } }
SX_ENTRY h_module() {
    Dev d; Dag g(2, 1, SXT(2, 3)); std::vector<Node> outs; int k = sx_pick(1, 2, "outs"); std::vector<int> oi; for (int i = 0; i < k; ++i) { int o = (int) g.v.size() - 1 - (i ? sx_pick(0, (int) g.v.size() - 1, "out") : 0); oi.push_back(o); outs.push_back(g.v[o]); }
    auto m = Module::Load(g.g, outs); auto r = g.reach(oi); std::vector<Node> ins; for (int i = 0; i < 2; ++i) if (r[i]) ins.push_back(g.v[i]); if (ins.size() == 2 && sx_choose(2, "swap")) std::swap(ins[0], ins[1]); m->sort_inputs(ins);
    Buf w; Module::Save(w, m); Src s(w.s); auto l = ld(s); SX_ASSERT(s.pos == w.s.size(), "the whole stream is read");
    SX_ASSERT(l->inputs().size() == ins.size() && l->outputs().size() == outs.size(), "number of inputs and outputs"); for (size_t i = 0; i < ins.size(); ++i) SX_ASSERT(l->input(i)->name() == ins[i]->name() && l->input(i)->op() == Bubble::Parameter, "inputs keep their order");
    for (size_t i = 0; i < outs.size(); ++i) SX_ASSERT(draw(l->output(i)) == draw(outs[i]), "each output computes the same expression"); same_nodes(outs, l->outputs()); same_nodes(l->outputs(), outs);
    for (size_t i = 0; i < l->outputs().size(); ++i) { std::map<std::string, Node> x; collect(l->output(i), x); for (size_t j = 0; j < l->inputs().size(); ++j) { auto it = x.find(l->input(j)->name()); if (it != x.end()) SX_ASSERT(it->second == l->input(j), "an input is one node of the graph"); } }
    sx_reach("end"); }
SX_ENTRY h_graph() {   // serialize_graph keeps every node, also the unreachable ones, in order
    Dev d; Dag g(1, 1, SXT(2, 3)); Buf w; size_t n = serialize_graph(w, g.g); SX_ASSERT(n == w.s.size(), "bytes written"); Src s(w.s); Graph h; SX_ASSERT(externalize_graph(s, h) == n, "bytes read"); auto v = h.nodes(); SX_ASSERT(v.size() == g.v.size(), "node count");
    for (size_t i = 0; i < v.size(); ++i) { SX_ASSERT(draw(v[i]) == draw(g.v[i]), "node computes the same expression"); same_attr(g.v[i], v[i]); SX_ASSERT(v[i].outputs().size() == g.v[i].outputs().size(), "consumers survive"); auto in = v[i].inputs(); for (size_t j = 0; j < in.size(); ++j) SX_ASSERT(in[j] == v[g.in[i][j]], "operands refer to the same nodes"); } sx_reach("end"); }
SX_ENTRY h_order() {   // computation order: every node comes after all of its operands
    Dev d; Dag g(1, SXT(0, 1), 4); int o = (int) g.v.size() - 1; std::vector<int> os = {o}; if (sx_choose(2, "two")) os.push_back(o - 1); std::vector<Node> outs; for (int k : os) outs.push_back(g.v[k]); auto l = Module::list_reference_nodes(outs); auto r = g.reach(os); size_t cnt = 0; for (bool b : r) cnt += b; SX_ASSERT(l.size() == cnt, "exactly the needed nodes, each once");
    std::map<std::string, size_t> at; for (size_t i = 0; i < l.size(); ++i) at[l[i].first->name()] = i; for (size_t i = 0; i < g.v.size(); ++i) if (r[i]) { SX_ASSERT(at.find(g.v[i]->name()) != at.end(), "needed node listed"); for (int k : g.in[i]) SX_ASSERT(at[g.v[k]->name()] < at[g.v[i]->name()], "operands come first"); } sx_reach("end"); }
static std::string saved(int n = 1) { Graph g; ctx::bind<Graph> b(g); Node p = bubble::param("p"), c = bubble::data("c", tensor::from<int32_t>(sx_i32("v"))), o = bubble::op("o", "f", {p, c}); Buf w; Module::Save(w, Module::Load(g, std::vector<Node>({o}))); return w.s; }
SX_ENTRY h_truncated() { Dev d; std::string s = saved(); Src r(s); r.cut = sx_pick(0, (int) s.size() - 1, "cut"); SX_ASSERT(throws_any([&]() { ld(r); }), "a truncated module is rejected"); sx_reach("end"); }
static void put(std::string &s, size_t at, uint32_t v) { memcpy(&s[at], &v, 4); }
static uint32_t idx(const char *n) { uint32_t i = sx_u32(n); uint32_t k = (uint32_t) sx_choose(4, "class"); if (k < 3) { sx_assume(i == k); return k; } sx_assume(i >= 3); return i; }
SX_ENTRY h_index() {   // the operand index of the last node is arbitrary
    Dev d; std::string s = saved(); uint32_t i = idx("index"); put(s, s.size() - 4, i); Src r(s); Module::shared m; bool t = throws_any([&]() { m = ld(r); });
    if (i >= 3) { SX_ASSERT(t, "a dangling operand is rejected"); sx_reach("bad"); } else if (!t) { SX_ASSERT(m->output(0).inputs().size() == 2, "operands"); sx_reach("ok"); } }
SX_ENTRY h_io_index() { Dev d; std::string s = saved(); uint32_t i = idx("in"), o = idx("out"); put(s, 128 + 4, i); put(s, 128 + 12, o); Src r(s); Module::shared m; bool t = throws_any([&]() { m = ld(r); });
    if (i >= 3 || o >= 3) { SX_ASSERT(t, "a dangling input or output is rejected"); sx_reach("bad"); } else if (!t) { SX_ASSERT(m->inputs().size() == 1 && m->outputs().size() == 1, "one input, one output"); sx_reach("ok"); } }

// the stream is offered to every loader, from its start, until one knows the format
static int seen, kind; static std::string first;
static Module::shared odd(StreamReaderV2 &r, const void *b, int32_t n, Module::SerializationFormat) { char c[3]; size_t k = r.read(c, 3); first.assign(c, k); seen++; SX_ASSERT(b == &seen && n == 9, "the buffer is passed on"); if (kind == 0) throw FormatMismatchException("not mine"); if (kind == 1) throw Exception("broken"); Graph g; ctx::bind<Graph> bg(g); Node o = bubble::op("own", "f", {bubble::param("p")}); return Module::Load(g, std::vector<Node>({o})); }
SX_ENTRY h_loaders() { Dev d; std::string s = saved(); bool before = sx_pick(0, 1, "before"), after = sx_pick(0, 1, "after"), code = sx_pick(0, 1, "format"); kind = sx_pick(0, 2, "other loader"); if (before) ModuleLoader::Register("a", odd); if (after) ModuleLoader::Register("z", odd); if (!code) put(s, 0, 0x12345678), put(s, 4, 0x12345678); Src r(s); seen = 0; Module::shared m; bool t = throws_any([&]() { m = Module::LoadV2(r, &seen, 9); });
    if (seen) SX_ASSERT(first == s.substr(0, 3), "each loader reads from the start"); if (before && kind > 0) { SX_ASSERT(t == (kind == 1) && seen == 1, "the first loader decides"); if (!t) SX_ASSERT(m->output(0)->name() == "own", "its module"); } else if (code) { SX_ASSERT(!t && seen == before && m->output(0)->name() == "o", "the module is loaded"); } else if (after && kind == 2) { SX_ASSERT(!t && m->output(0)->name() == "own" && seen == 1, "the next loader's module"); } else { SX_ASSERT(t && !m && seen == before + after, "no loader knows the format"); }
    sx_reach(t ? "bad" : "ok"); }
