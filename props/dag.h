// Arbitrary small graphs and a structural rendering of what an output computes.
#pragma once
#include "op.h"
#include <module/module.h>
#include <module/menu.h>
#include <utils/ctxmgr_lite.h>
#include <algorithm>
#include <map>
static inline std::string nm(char c, int i) { std::string s(1, c); s += char('0' + i); return s; }
// every path of the DAG above node, spelled out: op:name(inputs...)
static std::string draw(const Node &n, const char *skip = "") { std::string s = n->op() + ":" + n->name(); auto in = n.inputs(); if (in.empty()) return s; s += "("; for (auto &i : in) s += draw(i) + ","; return s + ")"; }
struct Dag { Graph g; std::vector<Node> v; std::vector<int> kind; std::vector<std::vector<int>> in; int P, C, K; // kind 0 param, 1 const, 2 op
    std::vector<int> val;
    Dag(int P_, int C_, int K_, bool names = true, int maxin = 2) : P(P_), C(C_), K(K_) { build(maxin); }
    void build(int maxin) { ctx::bind<Graph> b(g); for (int i = 0; i < P; ++i) { v.push_back(bubble::param(nm('p', i))); kind.push_back(0); in.push_back({}); val.push_back(0); }
        for (int i = 0; i < C; ++i) { int x = sx_i32("const"); v.push_back(bubble::data(nm('c', i), tensor::from<int32_t>(x))); kind.push_back(1); in.push_back({}); val.push_back(x); }
        for (int i = 0; i < K; ++i) { int m = sx_pick(1, maxin, "nin"); std::vector<int> is; std::vector<Node> ns; for (int j = 0; j < m; ++j) { int k = sx_pick(0, (int) v.size() - 1, "in"); is.push_back(k); ns.push_back(v[k]); }
            Node n = bubble::op(nm('n', i), nm('f', i % 2), ns); int x = sx_i32("attr"); n->set("a", tensor::from<int32_t>(x)); v.push_back(n); kind.push_back(2); in.push_back(is); val.push_back(x); } }
    void reach(int k, std::vector<bool> &r) const { if (r[k]) return; r[k] = true; for (int i : in[k]) reach(i, r); }
    std::vector<bool> reach(const std::vector<int> &o) const { std::vector<bool> r(v.size(), false); for (int k : o) reach(k, r); return r; }
};
