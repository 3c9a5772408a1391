//@ sources: @core
//@ entry: h_bij reach=end timeout=300
//@ entry: h_back reach=end
//@ entry: h_over reach=end
//@ entry: h_iter reach=end
//@ entry: h_down reach=end
//@ entry: h_scan reach=end
//@ entry: h_update reach=end
//@ entry: h_own reach=end
//@ entry: h_iter4 reach=end tier=thorough timeout=600
//@ entry: h_scan2 reach=end tier=thorough timeout=900
//@ bounds: shapes of up to 4 dimensions with sizes 1..3 and arbitrary coordinates and indices in them, 10 dimensions with two large ones; nested loops of depth 3, 2 parts each, 0..2 times
//@ assume: coordinates and indices lie inside the shape
//@ outside: shapes of more than INT32_MAX elements; coordinates outside the shape (not checked by design)
#include "op.h"
#include <core/scan.h>
// an index names one coordinate and a coordinate one index, in row-major order
SX_ENTRY h_bij() { Ints s = pick_shape(sx_pick(0, 4, "dims"), 1, 3); Shape sh = shp(s); HypeShape h(sh); int n = (int) s.size(); SX_ASSERT(h.count() == prod(s), "count"); std::vector<int32_t> c; int want = 0; for (int i = 0; i < n; ++i) { int x = sx_i32("coordinate"); sx_assume(x >= 0 && x < s[i]); c.push_back(x); want = want * s[i] + x; SX_ASSERT(h.shape(i) == s[i], "shape"); int w = 1; for (int q = i; q < n; ++q) w *= s[q]; SX_ASSERT(h.weight(i) == w, "weight"); } int at = h.to_index(c); SX_ASSERT(at == want, "row-major index"); Shape cs; for (int x : c) cs.push_back(x); SX_ASSERT(h.to_index(cs) == want, "index of a shape"); auto b = h.to_coordinate(at); SX_ASSERT(b.size() == c.size(), "coordinate size"); for (int i = 0; i < n; ++i) SX_ASSERT(b[i] == c[i], "back to the coordinate"); std::vector<int32_t> into(7, 5); h.to_coordinate(at, into); SX_ASSERT(into.size() == c.size(), "coordinate size"); for (int i = 0; i < n; ++i) SX_ASSERT(into[i] == c[i], "into a given vector"); HypeShape k(h), m(std::move(k)), z(shp({9})); z = m; SX_ASSERT(z.to_index(c) == want && ints((Shape) z) == s && ints(z.shape()) == s, "copied and moved"); sx_reach("end"); }
SX_ENTRY h_back() { Ints s = pick_shape(sx_pick(1, 4, "dims"), 1, 3); HypeShape h(shp(s)); int at = sx_i32("index"); sx_assume(at >= 0 && at < prod(s)); auto c = h.to_coordinate(at); for (size_t i = 0; i < s.size(); ++i) SX_ASSERT(c[i] >= 0 && c[i] < s[i], "inside the shape"); SX_ASSERT(h.to_index(c) == at, "back to the index"); sx_reach("end"); }
// every way to give a coordinate gives the same index; a short coordinate counts from the last dimension
SX_ENTRY h_over() { Ints s; int n = sx_pick(1, 7, "dims"); for (int i = 0; i < n; ++i) s.push_back(i == n - 1 ? 1000 : i == n - 2 ? 300 : (i & 1) + 1); HypeShape h(shp(s)); int m = sx_pick(1, n, "given"); std::vector<int32_t> a; int w = 0; for (int i = n - m; i < n; ++i) { int x = sx_i32("coordinate"); sx_assume(x >= 0 && x < s[i]); a.push_back(x); w = w * s[i] + x; } SX_ASSERT(h.to_index(a) == w, "vector"); Shape as; for (int x : a) as.push_back(x); SX_ASSERT(h.to_index(as) == w, "shape"); int r = -1, l = -1; switch (m) { case 1: r = h.to_index(a[0]); l = r; break; case 2: r = h.to_index(a[0], a[1]); l = h.to_index({a[0], a[1]}); break; case 3: r = h.to_index(a[0], a[1], a[2]); l = h.to_index({a[0], a[1], a[2]}); break; case 4: r = h.to_index(a[0], a[1], a[2], a[3]); l = h.to_index({a[0], a[1], a[2], a[3]}); break; case 5: r = h.to_index(a[0], a[1], a[2], a[3], a[4]); l = h.to_index({a[0], a[1], a[2], a[3], a[4]}); break; case 6: r = h.to_index(a[0], a[1], a[2], a[3], a[4], a[5]); l = h.to_index({a[0], a[1], a[2], a[3], a[4], a[5]}); break; case 7: r = h.to_index(a[0], a[1], a[2], a[3], a[4], a[5], a[6]); l = h.to_index({a[0], a[1], a[2], a[3], a[4], a[5], a[6]}); break; } SX_ASSERT(r == w && l == w, "arguments and list"); Tensor t(INT8, shp({2, 3})); SX_ASSERT(t.hype_shape().count() == 6 && t.hype_shape().to_index({1, 1}) == 4, "shape of a tensor"); std::vector<int32_t> none; SX_ASSERT(h.to_index(none) == 0, "no coordinate"); sx_reach("end"); }
static void iter(int d) { Ints s = pick_shape(d, 1, 3); int n = prod(s), k = 0; HypeShape h(shp(s)); ShapeIterator it(shp(s)); int start = sx_pick(0, n - 1, "start"); auto c0 = h.to_coordinate(start); Shape sc; for (int x : c0) sc.push_back(x); if (sx_choose(2, "from")) { it = ShapeIterator(shp(s), sc); k = start; } for (int q = 0; q <= n; ++q) { auto c = h.to_coordinate(k); SX_ASSERT(it.coordinate().size() == c.size(), "size"); for (size_t i = 0; i < c.size(); ++i) SX_ASSERT(it.coordinate()[i] == c[i], "coordinates in row-major order, each once, then again from the start"); k = (k + 1) % n; if (q & 1) { ShapeIterator old = it++; for (size_t i = 0; i < c.size(); ++i) SX_ASSERT(old.coordinate()[i] == c[i], "the value before"); } else { ShapeIterator &r = ++it; SX_ASSERT(&r == &it, "itself"); } } ShapeIterator cp(it), mv(std::move(cp)); it.rewind(); for (size_t i = 0; i < s.size(); ++i) SX_ASSERT(it.coordinate()[i] == 0 && mv.coordinate()[i] == h.to_coordinate(k)[i], "rewound; copies keep their place"); sx_reach("end"); }
SX_ENTRY h_iter() { iter(sx_pick(0, 3, "dims")); }
SX_ENTRY h_iter4() { iter(4); }
SX_ENTRY h_down() { Ints s = pick_shape(sx_pick(0, 3, "dims"), 1, 3); int n = prod(s), k = 0; HypeShape h(shp(s)); ShapeIterator it(shp(s)); for (int q = 0; q <= n; ++q) { auto c = h.to_coordinate(k); for (size_t i = 0; i < c.size(); ++i) SX_ASSERT(it.coordinate()[i] == c[i], "coordinates backwards"); k = (k + n - 1) % n; if (q & 1) { ShapeIterator old = it--; for (size_t i = 0; i < c.size(); ++i) SX_ASSERT(old.coordinate()[i] == c[i], "the value before"); } else --it; } ++it; k = (k + 1) % n; for (size_t i = 0; i < s.size(); ++i) SX_ASSERT(it.coordinate()[i] == h.to_coordinate(k)[i], "up undoes down"); sx_reach("end"); }
// ---- loops described as trees: stepping gives every leaf step, as often as asked, in order
typedef std::vector<long> Steps;
static Scan leaf(Steps &w) { int t = sx_pick(0, 2, "times"); long s = sx_i32("step"); for (int i = 0; i < t; ++i) w.push_back(s); return Scan((size_t) t, s); }
static Scan tree(int depth, Steps &w, int parts) { if (depth == 0 || sx_choose(3, "leaf") == 0) return leaf(w); Steps in; int t = sx_pick(0, 2, "times"); if (parts == 1 || sx_choose(2, "one part")) { Scan a = tree(depth - 1, in, parts); for (int i = 0; i < t; ++i) w.insert(w.end(), in.begin(), in.end()); if (sx_choose(2, "moved")) return Scan((size_t) t, std::move(a)); return Scan((size_t) t, (const Scan &) a); } Scan a = tree(depth - 1, in, parts), b = tree(0, in, parts); for (int i = 0; i < t; ++i) w.insert(w.end(), in.begin(), in.end()); Scan::Group g((const Scan &) a, std::move(b)); if (sx_choose(2, "moved")) return Scan((size_t) t, std::move(g)); return Scan((size_t) t, (const Scan::Group &) g); }
static void steps(Scan &s, const Steps &w) { Loop l; l.bind(s); for (int r = 0; r < 2; ++r) { for (size_t i = 0; i < w.size(); ++i) { SX_ASSERT(l.step() == w[i], "the step to come"); SX_ASSERT(l.next() == w[i], "every step in order"); } SX_ASSERT(l.step() == Loop::finish && l.next() == Loop::finish && l.next() == Loop::finish, "finished"); l.rewind(); } }
SX_ENTRY h_scan() { Steps w; Scan s = tree(1, w, 2); steps(s, w); sx_reach("end"); }
SX_ENTRY h_scan2() { Steps w; Scan s = tree(2, w, 2); steps(s, w); sx_reach("end"); }
// dropping the parts done no times changes nothing else, and tells how many steps there are
SX_ENTRY h_update() { Steps w; Scan s = tree(2, w, 1 + (int) sx_choose(2, "parts") * 0); size_t n = s.update(); SX_ASSERT(n == w.size(), "number of steps"); SX_ASSERT((s.proto() == nullptr) == w.empty(), "nothing is left of a loop without steps"); steps(s, w); SX_ASSERT(s.update() == w.size(), "again"); sx_reach("end"); }
SX_ENTRY h_own() { Steps w, v; Scan s = tree(1, w, 1), t = leaf(v); Scan c = s.clone(), d(s), e(std::move(d)); t = s; SX_ASSERT(t.proto() != s.proto() && c.proto() != s.proto(), "copies are separate"); steps(t, w); steps(c, w); steps(e, w); Steps u; Scan f = leaf(u); s = std::move(f); steps(s, u); steps(t, w); s = s.clone(); steps(s, u); sx_reach("end"); }
