//@ sources: @utils src/core/device.cpp
//@ entry: h_step reach=ok,full
//@ entry: h_build reach=ok,full
//@ entry: h_iter reach=end
//@ entry: h_string reach=ok,long
//@ entry: h_device reach=end
//@ bounds: vectors of capacity 3 and 7 in any reachable state (every size, arbitrary contents), one arbitrary operation (so by induction every history); strings of up to 9 arbitrary bytes; device ids arbitrary 32-bit
//@ assume: iterators passed to insert/erase point into the vector
//@ outside: element types other than 32-bit integers; indexing past size()
#include <sx.h>
#include <utils/otl.h>
#include <core/device.h>
#include <algorithm>
using namespace ts;
template <typename F> bool throws(F f) { try { f(); } catch (const ts::Exception &) { return true; } return false; }
typedef std::vector<int32_t> SV;
template <size_t N> struct Guarded { uint64_t lo; otl::vector<int32_t, N, int32_t> v; uint64_t hi; Guarded() : lo(0x1122334455667788ull), hi(0x8877665544332211ull) {} bool ok() const { return lo == 0x1122334455667788ull && hi == 0x8877665544332211ull; } };
template <typename V> void same(const V &v, const SV &w, const char *m) {
    SX_ASSERT(v.size() == w.size(), "size as for std::vector"); SX_ASSERT(v.empty() == w.empty(), "empty()"); for (size_t i = 0; i < w.size() && i < v.size(); ++i) SX_ASSERT(v[i] == w[i], m);
    if (!w.empty()) { SX_ASSERT(v.front() == w.front() && v.back() == w.back(), "front/back"); }
    SX_ASSERT(v.std() == w, "conversion to std::vector"); }
template <size_t N> void step() {
    Guarded<N> g; auto &v = g.v; int n = sx_pick(0, (int) N, "n"); SV w; for (int i = 0; i < n; ++i) { int x = sx_i32("x"); v.push_back(x); w.push_back(x); }
    int op = (int) sx_choose(10, "op"); int a = sx_i32("a"); SV w0 = w; bool over = false, t = false;
    if (op == 0) { over = n + 1 > (int) N; t = throws([&]() { v.push_back(a); }); w.push_back(a); }
    else if (op == 1) { over = n + 1 > (int) N; t = throws([&]() { v.emplace_back(a); }); w.push_back(a); }
    else if (op == 2) { if (n == 0) return; v.pop_back(); w.pop_back(); }
    else if (op == 3) { int i = sx_pick(0, n, "i"); over = n + 1 > (int) N; t = throws([&]() { auto r = v.insert(v.begin() + i, a); SX_ASSERT(r == v.begin() + i, "insert returns the new element"); }); w.insert(w.begin() + i, a); }
    else if (op == 4) { int i = sx_pick(0, n, "i"), k = sx_pick(0, (int) N + 1, "k"); SV s; for (int j = 0; j < k; ++j) s.push_back(sx_i32("s")); over = n + k > (int) N; t = throws([&]() { v.insert(v.begin() + i, s.begin(), s.end()); }); w.insert(w.begin() + i, s.begin(), s.end()); }
    else if (op == 5) { if (n == 0) return; int i = sx_pick(0, n - 1, "i"); auto r = v.erase(v.begin() + i); SX_ASSERT(r == v.begin() + i, "erase returns the next element"); w.erase(w.begin() + i); }
    else if (op == 6) { int i = sx_pick(0, n, "i"), j = sx_pick(i, n, "j"); v.erase(v.begin() + i, v.begin() + j); w.erase(w.begin() + i, w.begin() + j); }
    else if (op == 7) { int k = sx_pick(0, (int) N + 1, "k"); over = k > (int) N; t = throws([&]() { v.resize(k, a); }); w.resize(k, a); }
    else if (op == 8) { v.clear(); w.clear(); }
    else { auto c = v; v = c; SX_ASSERT(v == c && !(v != c), "a copy is equal"); if (n) { c[0] = c[0] ^ 1; SX_ASSERT(v != c, "different contents compare different"); c.pop_back(); SX_ASSERT(v != c, "different sizes compare different"); } }
    SX_ASSERT(g.ok(), "nothing outside the vector is written");
    SX_ASSERT(t == over, "an operation is rejected exactly when the capacity would be exceeded");
    if (over) { same(v, w0, "a rejected operation changes nothing"); sx_reach("full"); } else { same(v, w, "contents as for std::vector"); sx_reach("ok"); }
}
SX_ENTRY h_step() { if (sx_choose(2, "cap")) step<3>(); else step<7>(); }
SX_ENTRY h_build() {   // constructors
    typedef otl::vector<int32_t, 3, int32_t> V; struct G { uint64_t lo; alignas(V) unsigned char b[sizeof(V)]; uint64_t hi; } g; g.lo = g.hi = 0xabcdef0123456789ull;
    int k = sx_pick(0, 5, "k"), how = (int) sx_choose(5, "how"); SV s; for (int i = 0; i < k; ++i) s.push_back(sx_i32("s")); int a = sx_i32("a"); V *v = (V *) g.b;
    bool t = throws([&]() { switch (how) { case 0: new (v) V(s.begin(), s.end()); break; case 1: new (v) V(s); break; case 2: new (v) V(k, a); break; case 3: new (v) V(size_t(k), a); break; default: new (v) V(size_t(k)); } });
    SX_ASSERT(g.lo == 0xabcdef0123456789ull && g.hi == 0xabcdef0123456789ull, "nothing outside the vector is written");
    SX_ASSERT(t == (k > 3), "construction is rejected exactly beyond the capacity"); if (t) { sx_reach("full"); return; }
    SX_ASSERT((int) v->size() == k, "size"); for (int i = 0; i < k; ++i) { if (how < 2) SX_ASSERT((*v)[i] == s[i], "element"); else if (how < 4) SX_ASSERT((*v)[i] == a, "filled element"); } sx_reach("ok");
}
SX_ENTRY h_iter() {
    otl::vector<int32_t, 7, int32_t> v; SV w; int n = sx_pick(0, 7, "n"); for (int i = 0; i < n; ++i) { int x = sx_i32("x"); v.push_back(x); w.push_back(x); }
    SV f; for (auto &x : v) f.push_back(x); SX_ASSERT(f == w, "forward iteration"); const auto &c = v; SV f2; for (auto &x : c) f2.push_back(x); SX_ASSERT(f2 == w, "const forward iteration");
    SV r; for (auto it = v.rbegin(); it != v.rend(); ++it) r.push_back(*it); std::reverse(w.begin(), w.end()); SX_ASSERT(r == w, "reverse iteration"); sx_reach("end");
}
SX_ENTRY h_string() {
    typedef otl::sso::string<8> S; int n = sx_pick(0, 9, "n"), m = sx_pick(0, 9, "m"); std::string a, b; for (int i = 0; i < n; ++i) { char c = (char) sx_u8("a"); sx_assume(c != 0); a += c; } for (int i = 0; i < m; ++i) { char c = (char) sx_u8("b"); sx_assume(c != 0); b += c; }
    bool cs = sx_choose(2, "from"); S s, u; bool t = throws([&]() { s = cs ? S(a.c_str()) : S(a); u = cs ? S(b.c_str()) : S(b); });
    SX_ASSERT(t == (n > 7 || m > 7), "only names longer than 7 bytes are rejected"); if (t) { sx_reach("long"); return; }
    SX_ASSERT(s.std() == a && s.length() == a.size() && s.empty() == a.empty(), "the name is kept");
    bool e = a == b; SX_ASSERT((s == u) == e && (s != u) == !e, "equality is equality of names");
    SX_ASSERT(!((s < u) && (u < s)) && ((s < u) || (u < s) || s == u) && !((s < u) && s == u), "< is a total order on names"); SX_ASSERT((s > u) == (u < s) && (s <= u) == !(u < s) && (s >= u) == !(s < u), "comparisons agree");
    if (e) SX_ASSERT(std::hash<S>()(s) == std::hash<S>()(u), "equal names hash equally"); sx_reach("ok");
}
SX_ENTRY h_device() {
    std::string k[3]; Device d[3]; for (int i = 0; i < 3; ++i) { int n = sx_pick(0, i == 2 ? 1 : 2, "n"); for (int j = 0; j < n; ++j) { char c = (char) sx_u8("c"); sx_assume(c != 0); k[i] += c; } d[i] = Device(DeviceType(k[i]), sx_i32("id")); }
    bool e = k[0] == k[1] && d[0].id() == d[1].id(); SX_ASSERT((d[0] == d[1]) == e && (d[0] != d[1]) == !e, "devices are equal iff type and id are");
    bool lt = d[0] < d[1], gt = d[1] < d[0]; SX_ASSERT((int) lt + (int) gt + (int) e == 1, "devices are totally ordered"); SX_ASSERT((d[0] > d[1]) == gt && (d[0] <= d[1]) == !gt && (d[0] >= d[1]) == !lt, "device comparisons agree");
    if (lt && d[1] < d[2]) SX_ASSERT(d[0] < d[2], "the order is transitive"); sx_reach("end");
}
