//@ sources: @core src/module/bubble.cpp src/utils/box.cpp
//@ entry: h_dict reach=end,missing
//@ entry: h_round reach=end
//@ entry: h_reread reach=end
//@ entry: h_copy reach=end
//@ entry: h_truncated reach=end
//@ bounds: up to 3 operations over 3 attribute names (one retained name); names of op/node/attributes up to 3 arbitrary bytes; shapes of 0-7 dims; every truncation point
//@ assume: attribute values are arbitrary 32-bit integers or short strings
//@ outside: larger attribute tables
#include "op.h"
#include "io.h"
#include <module/bubble.h>
static std::string str(int hi, const char *n) { int k = sx_pick(0, hi, "len"); std::string s; for (int i = 0; i < k; ++i) s += (char) sx_u8(n); return s; }
SX_ENTRY h_dict() {   // the attribute table is a map; retained ('#') attributes survive clear_params
    Bubble b("op", "nm"); const char *names[3] = {"a", "bb", "#z"}; bool has[3] = {}; int val[3] = {};
    for (int step = 0; step < SXT(3, 4); ++step) { int k = (int) sx_choose(3, "k"), op = (int) sx_choose(4, "op");
        if (op == 0) { val[k] = sx_i32("v"); has[k] = true; b.set(names[k], tensor::from<int32_t>(val[k])); }
        else if (op == 1) { bool t = throws([&]() { b.clear(names[k]); }); SX_ASSERT(t == !has[k], "clearing an unknown attribute is an error"); has[k] = false; }
        else if (op == 2) { b.clear_params(); has[0] = has[1] = false; }
        else { b.op("op2"); b.name("nm2"); b.op("op"); b.name("nm"); }
        for (int i = 0; i < 3; ++i) { SX_ASSERT(b.has(names[i]) == has[i], "has() tells which attributes are set"); if (has[i]) { SX_ASSERT(b.get_int(names[i]) == val[i], "an attribute keeps the value set last"); } }
        SX_ASSERT(b.op() == "op" && b.name() == "nm" && b.get_string("#op") == "op" && b.get_string("#name") == "nm", "operator and node name are retained"); }
    for (int i = 0; i < 3; ++i) if (!has[i]) { SX_ASSERT(throws([&]() { b.get(names[i]); }), "reading an unknown attribute is an error"); sx_reach("missing"); }
    sx_reach("end"); }
static Shape shape(int lo) { int n = sx_pick(lo, 7, "dims"); Shape s; for (int i = 0; i < n; ++i) s.push_back(sx_i32("size")); return s; }
static void same(const Bubble &a, const Bubble &b) { SX_ASSERT(a.op() == b.op() && a.name() == b.name() && a.output_count() == b.output_count(), "operator and name survive"); SX_ASSERT(ints(a.shape()) == ints(b.shape()), "shape survives"); SX_ASSERT(a.dtype() == b.dtype(), "dtype survives"); SX_ASSERT(a.params().size() == b.params().size(), "number of attributes");
    for (auto &p : a.params()) { SX_ASSERT(b.has(p.first), "attribute survives"); auto &x = p.second; auto &y = b.get(p.first); SX_ASSERT(x.proto() == y.proto(), "attribute type and shape survive"); int n = x.count() * x.proto().type_bytes(); const char *u = x.data<char>(), *v = y.data<char>(); for (int i = 0; i < n; ++i) SX_ASSERT(u[i] == v[i], "attribute bytes survive"); } }
static Bubble any(bool full) { Bubble b; if (full) { b = Bubble(str(2, "op"), str(2, "name")); if (sx_choose(2, "shape")) b.shape(shape(1)); if (b.shape().size() < 3 && sx_choose(2, "reshaped")) b.shape(shape(0)); if (sx_choose(2, "dtype")) b.dtype(DTYPE(sx_range(0, 32, "dtype"))); } else b = Bubble("op", "x", shape(0)); 
    std::string key = full && sx_choose(2, "key") ? "" : "key"; b.set(key, tensor::from<int32_t>(sx_i32("v"))); b.set("s", tensor::from(std::string("\1\0z", 3))); return b; }
SX_ENTRY h_round() { Bubble b = any(sx_choose(2, "full")), c; Buf w; size_t n = b.serialize(w); SX_ASSERT(n == w.s.size(), "serialize returns the bytes written"); std::string s = w.s + "x"; Src r(s); SX_ASSERT(c.externalize(r) == n && r.pos == n, "externalize consumes exactly them"); same(b, c); sx_reach("end"); }
SX_ENTRY h_reread() {   // reading over a used bubble leaves nothing of the old one
    Bubble old("oo", "on", Shape({1, 2})); old.set("zz", tensor::from<int32_t>(1)); old.dtype(INT8); Bubble b = sx_choose(2, "s") ? Bubble("op", "x") : Bubble("op", "x", Shape({sx_i32("d")})); b.set("s", tensor::from<int32_t>(sx_i32("v"))); Buf w; b.serialize(w); Src r(w.s); old.externalize(r); same(b, old); sx_reach("end"); }
SX_ENTRY h_copy() { Bubble b = any(false); Bubble c = b; same(b, c); Bubble keep = b; Bubble m(std::move(c)); same(b, m); Bubble m2("q", "q", Shape({9})); m2 = std::move(m); same(b, m2); m2.set("s", tensor::from<int32_t>(5)); m2.name("other"); same(keep, b); SX_ASSERT(b.name() == "x", "copies are independent"); sx_reach("end"); }
SX_ENTRY h_truncated() { Bubble b("op", "x", Shape({sx_i32("d"), 2})); b.set("k", tensor::from<int32_t>(sx_i32("v"))); Buf w; b.serialize(w); Src r(w.s); r.cut = sx_pick(0, (int) w.s.size() - 1, "cut"); Bubble c; SX_ASSERT(throws_any([&]() { c.externalize(r); }), "a truncated bubble is rejected"); sx_reach("end"); }
