//@ sources: @core
//@ entry: h_share reach=end
//@ entry: h_ops reach=end timeout=600
//@ entry: h_ops2 reach=end timeout=600
//@ entry: h_reshape reach=ok,bad
//@ entry: h_flatten reach=end
//@ entry: h_slice reach=ok,bad
//@ entry: h_slices reach=ok,bad
//@ entry: h_fields reach=ok,bad
//@ entry: h_refield reach=end
//@ entry: h_has reach=end
//@ entry: h_proto reach=end
//@ entry: h_smart reach=end timeout=600
//@ entry: h_dead reach=end
//@ entry: h_life reach=end
//@ entry: h_ops3 reach=end tier=thorough timeout=900
//@ bounds: three tensors and every sequence of 2 operations, two and 3 (thorough: three and 3); shapes of up to 3 dimensions with sizes 0..3; shapes asked for with arbitrary 32-bit first entries; has_shape of up to 10 dimensions with arbitrary sizes; three counted pointers and every sequence of 3 operations
//@ assume: contents are arbitrary
//@ outside: tensors of more than INT32_MAX elements; using a weak tensor after its owner is gone (documented)
#include "op.h"
typedef std::vector<int32_t> VI;
// ---- copies share, clones do not; any sequence of operations on three tensors keeps every tensor's fields, shapes and bytes
struct Buf { VI v; }; struct F { std::shared_ptr<Buf> b; Ints shape; };           // model: a field is a buffer seen with a shape
typedef std::vector<F> TM;
static F fresh(const Ints &s) { F f; f.b.reset(new Buf); f.shape = s; return f; }
static void same(const Tensor &t, const TM &m) { SX_ASSERT(t.fields_count() == m.size() && t.packed() == (m.size() > 1), "number of fields"); for (size_t i = 0; i < m.size(); ++i) { Tensor f = t.field(i); SX_ASSERT(ints(f.sizes()) == m[i].shape && f.dtype() == INT32 && f.fields_count() == 1, "field shape"); for (size_t q = 0; q < m[i].b->v.size(); ++q) SX_ASSERT(f.data<int32_t>()[q] == m[i].b->v[q], "field content"); } }
static void ops(int steps, int first, int nt = 3) { Tensor t[3]; TM m[3]; for (int i = 0; i < 3; ++i) { F f = fresh(i == 1 ? Ints{2, 1} : Ints{2}); f.b->v = i < 2 ? symv<int32_t>(2, "x") : VI{5, 6}; t[i] = mk<int32_t>(f.shape, f.b->v); m[i].push_back(f); } Tensor::shared keep;
    for (int s = 0; s < steps; ++s) { int op = s == 0 && first >= 0 ? first * 5 + (int) sx_choose(5, "op") : (int) sx_choose(10, "op"); int i = (int) sx_choose(nt, "tensor"), j = nt == 2 ? 1 - i : (i + 1 + (int) sx_choose(2, "other")) % 3;
        switch (op) {
            case 0: t[i] = t[j]; m[i] = m[j]; break;
            case 1: { Tensor x(t[j]); t[i] = std::move(x); m[i] = m[j]; break; }
            case 2: t[i] = sx_choose(2, "shared") ? *t[j].clone_shared() : t[j].clone(); m[i] = m[j]; for (auto &f : m[i]) { f.b = std::make_shared<Buf>(*f.b); } break;
            case 3: { if (sx_choose(2, "over")) { t[i].pack(t[j].unpack()); m[i] = m[j]; break; } if (m[i].size() + m[j].size() > 3) break; std::vector<Tensor> fs = t[i].unpack(), gs = t[j].unpack(); SX_ASSERT(fs.size() == m[i].size() && gs.size() == m[j].size(), "unpacked fields"); fs.insert(fs.end(), gs.begin(), gs.end()); if (sx_choose(2, "static")) t[i] = Tensor::Pack(fs); else t[i].pack(fs); TM n = m[i]; n.insert(n.end(), m[j].begin(), m[j].end()); m[i] = n; break; }
            case 4: { size_t k = m[i].size() - 1; int32_t v = sx_i32("written"); t[i].field((int) -1).data<int32_t>()[1] = v; m[i][k].b->v[1] = v; break; }
            case 5: { size_t k = sx_choose((int) m[i].size(), "field"); t[i].field(k, t[j].field((size_t) 0)); m[i][k] = m[j][0]; break; }
            case 6: { Ints s = sx_choose(2, "shape") ? Ints{2} : Ints{1, 2}; t[i] = t[i].reshape(shp(s)); m[i][0].shape = s; break; }
            case 7: { t[i] = t[i].field((int) -1); F f = m[i].back(); m[i] = TM{f}; break; }
            case 8: { t[i] = t[j].weak().strong(); m[i] = m[j]; break; }
            case 9: { int d = (int) sx_choose(2, "dim"); t[i] = t[j].flatten(d); m[i] = m[j]; m[i][0].shape = d ? (m[j][0].shape.size() == 1 ? Ints{2, 1} : m[j][0].shape) : Ints{2}; break; } }
        for (int k = 0; k < 3; ++k) same(t[k], m[k]); }
    sx_reach("end"); }
SX_ENTRY h_ops() { ops(2, -1); }
SX_ENTRY h_ops2() { ops(3, -1, 2); }
SX_ENTRY h_ops3() { ops(3, (int) sx_choose(2, "half")); }
SX_ENTRY h_share() { int n = sx_pick(0, 3, "n"); VI v = symv<int32_t>(n, "x"); Tensor x = mk<int32_t>({n}, v); const Tensor c = x; Tensor y = x, z = x.clone(), e; SX_ASSERT(e.empty() && e.dims() == 0 && e.dtype() == VOID && !x.empty() && e.fields_count() == 1, "empty tensor"); Tensor e2 = e, e3 = e.clone(); SX_ASSERT(e2.empty() && e3.empty(), "copies of the empty tensor"); SX_ASSERT(y.data() == x.data() && c.data() == x.data() && (n == 0 || z.data() != x.data()), "copies share, clones do not"); for (int i = 0; i < n; ++i) { y.data<int32_t>(i) = v[i] = sx_i32("written"); SX_ASSERT(x.data<int32_t>((size_t) i) == v[i] && c.data<int32_t>(i) == v[i], "shared"); } SX_ASSERT(x.count() == n && (int) x.size(0) == n && x.proto().count() == n && x.proto().type_bytes() == 4 && x.device().type() == CPU, "shape"); sx_reach("end"); }
SX_ENTRY h_reshape() { Ints s = pick_shape(sx_pick(0, 3, "dims"), 0, 3); int n = prod(s); Tensor x(INT8, shp(s)); for (int i = 0; i < n; ++i) x.data<int8_t>()[i] = (int8_t) i; int nd = sx_pick(0, 3, "to dims"); Ints w; for (int i = 0; i < nd; ++i) w.push_back(sx_pick(i == 2 ? -1 : -2, i == 2 ? 3 : 4, "size")); Tensor y; bool t = throws([&]() { y = x.reshape(shp(w)); }); int neg = 0, rest = 1; for (int a : w) if (a < 0) neg++; else rest *= a; bool ok = neg == 0 ? rest == n : neg == 1 && rest > 0 && n % rest == 0; SX_ASSERT(t == !ok, "reshaping works exactly when the elements fit"); if (t) { sx_reach("bad"); return; } for (int &a : w) if (a < 0) a = n / rest; SX_ASSERT(ints(y.sizes()) == w && y.data() == x.data() && y.dtype() == INT8, "same elements seen with the new shape"); SX_ASSERT(ints(x.sizes()) == s, "the tensor keeps its shape"); sx_reach("ok"); }
SX_ENTRY h_flatten() { Ints s = pick_shape(sx_pick(0, 3, "dims"), 0, 3); Tensor x(INT16, shp(s)); int d = sx_pick(-2, 4, "dim"), k = std::max(d, 0); Tensor y = x.flatten(d); Ints w; for (int i = 0; i <= k; ++i) w.push_back(i < (int) s.size() ? s[i] : 1); for (int i = k + 1; i < (int) s.size(); ++i) w[k] *= s[i]; SX_ASSERT(ints(y.sizes()) == w && y.data() == x.data(), "flattened"); sx_reach("end"); }
// slices share the tensor's bytes, and never reach outside
SX_ENTRY h_slice() { Ints s = pick_shape(sx_pick(0, 3, "dims"), 0, 2); int n = prod(s); VI v = symv<int32_t>(n, "x"); Tensor x = mk<int32_t>(s, v); int i = sx_i32("index"); Tensor y; bool ok = !s.empty() && i >= 0 && i < s[0]; bool t = throws([&]() { y = x.slice(i); }); SX_ASSERT(t == !ok, "slices inside the tensor only"); if (t) { sx_reach("bad"); return; } i = sx_concretize(i); Ints w(s.begin() + 1, s.end()); int k = prod(w); want<int32_t>(y, w, VI(v.begin() + i * k, v.begin() + (i + 1) * k), "slice"); if (k) { y.data<int32_t>()[k - 1] = 7; SX_ASSERT(x.data<int32_t>()[i * k + k - 1] == 7, "slices are borrowed"); } sx_reach("ok"); }
SX_ENTRY h_slices() { Ints s = pick_shape(sx_pick(0, 2, "dims"), 0, 3); int n = prod(s); VI v = symv<int32_t>(n, "x"); Tensor x = mk<int32_t>(s, v); int i = sx_i32("begin"), j = sx_i32("end"); Tensor y; bool ok = !s.empty() && i >= 0 && i < j && j <= s[0]; bool t = throws([&]() { y = x.slice(i, j); }); SX_ASSERT(t == !ok, "slices inside the tensor only"); if (t) { sx_reach("bad"); return; } i = sx_concretize(i); j = sx_concretize(j); Ints w = s; w[0] = j - i; int k = s[0] ? n / s[0] : 0; want<int32_t>(y, w, VI(v.begin() + i * k, v.begin() + j * k), "slice"); sx_reach("ok"); }
SX_ENTRY h_fields() { int f = sx_pick(1, 3, "fields"); std::vector<Tensor> fs; for (int i = 0; i < f; ++i) fs.push_back(mk<int32_t>({1}, {10 + i})); Tensor x = Tensor::Pack(fs); TensorPrototype p(x); int64_t at = sx_choose(2, "signed") ? (int64_t) sx_i32("index") : (int64_t) sx_i32("index"); bool sg = sx_choose(2, "int"); int a = (int) at; bool ok = sg ? (a >= -f && a < f) : (a >= 0 && a < f); Tensor y; TensorPrototype q; bool t = throws([&]() { y = sg ? x.field(a) : x.field((size_t) a); }), u = throws([&]() { q = sg ? p.field(a) : p.field((size_t) a); }); SX_ASSERT(t == !ok && u == !ok, "fields that exist only"); Tensor w = mk<uint8_t>({2}, {1, 2}); TensorPrototype wp(w); SX_ASSERT(throws([&]() { if (sg) x.field(a, w); else x.field((size_t) a, w); }) == !ok && throws([&]() { if (sg) p.field(a, wp); else p.field((size_t) a, wp); }) == !ok, "fields that exist only"); if (t) { for (int i = 0; i < f; ++i) want<int32_t>(x.field(i), {1}, {10 + i}, "kept"); sx_reach("bad"); return; } a = sx_concretize(a); if (a < 0) a += f; want<int32_t>(y, {1}, {10 + a}, "field"); SX_ASSERT(q.dtype() == INT32 && ints(q.sizes()) == Ints{1} && q.fields_count() == 1, "field prototype"); for (int i = 0; i < f; ++i) { SX_ASSERT(x.field(i).dtype() == (i == a ? UINT8 : INT32) && p.field(i).dtype() == (i == a ? UINT8 : INT32) && p.field(i).sizes() == x.field(i).sizes(), "one field replaced"); if (i != a) want<int32_t>(x.field(i), {1}, {10 + i}, "others kept"); else want<uint8_t>(x.field(i), {2}, {1, 2}, "replaced"); } sx_reach("ok"); }
SX_ENTRY h_refield() { int f = sx_pick(1, 3, "fields"), n = sx_pick(0, 4, "n"); std::vector<Tensor> fs; for (int i = 0; i < f; ++i) fs.push_back(mk<int32_t>({1}, {10 + i})); Tensor x = Tensor::Pack(fs), o = x; TensorPrototype p(x); x.refield((size_t) n); p.refield((size_t) n); SX_ASSERT((int) x.fields_count() == std::max(n, 1) && (int) p.fields_count() == std::max(n, 1) && p.packed() == (n > 1), "fields asked for"); for (int i = 0; i < n; ++i) if (i < f) { want<int32_t>(x.field(i), {1}, {10 + i}, "kept"); SX_ASSERT(p.field(i).dtype() == INT32, "kept"); } else SX_ASSERT(x.field(i).empty() && p.field(i).dtype() == VOID, "new fields are empty"); if (n == 0) SX_ASSERT(x.empty() && p.dtype() == VOID && p.dims() == 0, "empty"); SX_ASSERT((int) o.fields_count() == f, "copies keep their fields"); std::vector<Tensor> none; o.pack(none); SX_ASSERT(o.empty() && o.fields_count() == 1, "packing nothing"); auto u = p.unpack(); SX_ASSERT(u.size() == p.fields_count(), "unpacked"); TensorPrototype q; q.pack(u); SX_ASSERT(q == p, "packed again"); q.pack({}); SX_ASSERT(q.fields_count() == 1 && q.dtype() == VOID, "packing nothing"); sx_reach("end"); }
// asking whether a tensor has a shape: negative sizes match anything
SX_ENTRY h_has() { int n = sx_pick(0, 7, "dims"); Ints s; for (int i = 0; i < n; ++i) s.push_back(i + 2); Tensor x(Memory(CPU, 0), Tensor::Prototype(INT8, shp(s))); int m = sx_choose(3, "as many") ? n : sx_pick(0, 10, "asked dims"); Ints a; bool w = m == n; int k = m ? (int) sx_choose(m, "odd one") : 0; for (int i = 0; i < m; ++i) { a.push_back(i == k || i == k + 1 ? sx_i32("size") : (i == (k + 3) % 7) ? -1 : i + 2); } for (int i = 0; i < m && w; ++i) w = a[i] < 0 || a[i] == s[i]; if (m <= 7) SX_ASSERT(x.has_shape(shp(a)) == w, "has_shape"); SX_ASSERT(x.has_empty_shape() == (n == 0), "has_empty_shape"); bool b = w; switch (m) { case 1: b = x.has_shape(a[0]); break; case 2: b = x.has_shape(a[0], a[1]); break; case 3: b = x.has_shape(a[0], a[1], a[2]); break; case 4: b = x.has_shape(a[0], a[1], a[2], a[3]); break; case 5: b = x.has_shape(a[0], a[1], a[2], a[3], a[4]); break; case 6: b = x.has_shape(a[0], a[1], a[2], a[3], a[4], a[5]); break; case 7: b = x.has_shape(a[0], a[1], a[2], a[3], a[4], a[5], a[6]); break; case 8: b = x.has_shape(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]); break; case 9: b = x.has_shape(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]); break; case 10: b = x.has_shape(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]); break; } SX_ASSERT(b == w, "has_shape with sizes"); if (m == 2) SX_ASSERT(x.has_shape({a[0], a[1]}) == w, "has_shape with a list"); sx_reach("end"); }
SX_ENTRY h_proto() { auto one = [&](const char *) { Ints s; int n = sx_pick(0, 2, "dims"); for (int i = 0; i < n; ++i) s.push_back(sx_i32("size")); DTYPE d = sx_choose(2, "type") ? INT32 : FLOAT32; return Tensor::Prototype(d, shp(s)); }; int na = sx_pick(1, 2, "fields"), nb = sx_pick(1, 2, "fields"); std::vector<Tensor::Prototype> a, b; for (int i = 0; i < na; ++i) a.push_back(i ? Tensor::Prototype(INT8, Shape({sx_i32("size")})) : one("a")); for (int i = 0; i < nb; ++i) b.push_back(i ? Tensor::Prototype(INT8, Shape({sx_i32("size")})) : one("b")); TensorPrototype p(a), q; q.pack(b); auto eq = [](const Tensor::Prototype &x, const Tensor::Prototype &y) { return x.dtype() == y.dtype() && ints(x.sizes()) == ints(y.sizes()); }; bool w = na == nb; for (int i = 0; i < na && w; ++i) w = eq(a[i], b[i]); SX_ASSERT((p == q) == w && (q == p) == w && (p != q) == !w, "prototypes are equal exactly when every field is"); SX_ASSERT((a[0] == b[0]) == eq(a[0], b[0]) && (a[0] != b[0]) == !eq(a[0], b[0]), "prototypes without fields"); bool w1 = nb == 1 && eq(a[0], b[0]); SX_ASSERT((a[0] == q) == w1 && (q == a[0]) == w1 && (a[0] != q) == !w1 && (q != a[0]) == !w1, "a packed prototype is never equal to a single one"); TensorPrototype c = p, m = std::move(c), k; k = m; SX_ASSERT(k == p && m == p, "copied and moved"); k = b[0]; (void) k; sx_reach("end"); }
// ---- counted pointers
static int gone = 0;
static void smart(int steps) { gone = 0; int objs = 3; { Smart<int> p[3] = {Smart<int>(new int(0), [](const int *x) { gone++; delete x; }), Smart<int>(new int(1), [](const int *x) { gone++; delete x; }), Smart<int>(new int(2), [](const int *x) { gone++; delete x; })}; int o[3] = {0, 1, 2}, freed = 0; auto cnt = [&](int k) { int n = 0; for (int x : o) n += x == k; return n; }; auto drop = [&](int i) { int k = o[i]; o[i] = -1; if (k >= 0 && cnt(k) == 0) freed++; };
      for (int s = 0; s < steps; ++s) { int i = (int) sx_choose(3, "pointer"), j = (int) sx_choose(3, "other"); switch (sx_choose(7, "op")) { case 0: { int k = o[j]; if (i != j) { drop(i); o[i] = k; } p[i] = p[j]; break; } case 1: p[i] = std::move(p[j]); std::swap(o[i], o[j]); break; case 2: p[i].swap(p[j]); std::swap(o[i], o[j]); break; case 3: p[i].dispose(); drop(i); break; case 4: { Smart<int> w = p[i].weak(), w2 = w; SX_ASSERT(w.use_count() == p[i].use_count(), "weak pointers are no use"); if (o[i] < 0) { SX_ASSERT(throws([&]() { w.strong(); }), "nothing to hold"); break; } { Smart<int> h = w2.strong(); SX_ASSERT(h.use_count() == cnt(o[i]) + 1 && *h == o[i], "a strong pointer holds it"); if (i != j) { int k = o[i]; drop(j); o[j] = k; p[j] = std::move(h); } } break; } case 5: { Smart<int> c(p[i]), d(std::move(c)); SX_ASSERT(d.use_count() == (o[i] < 0 ? 0 : cnt(o[i]) + 1), "counted"); if (o[i] >= 0) SX_ASSERT(*d == o[i] && throws([&]() { *c; }), "moved"); break; } case 6: { Smart<int> n((int) 7 + s); SX_ASSERT(*n == 7 + s && n.use_count() == 1, "holds a copy"); break; } }
        if (gone != freed) { /* a moved assignment may keep the old object in the source until it goes */ } SX_ASSERT(gone == freed, "freed exactly when nobody uses it"); for (int k = 0; k < 3; ++k) { SX_ASSERT((bool) p[k] == (o[k] >= 0), "holds something"); SX_ASSERT(p[k].use_count() == (o[k] < 0 ? 0 : cnt(o[k])), "use count"); if (o[k] >= 0) SX_ASSERT(*p[k] == o[k] && *p[k].operator->() == o[k], "the object"); else SX_ASSERT(throws([&]() { *p[k]; }) && throws([&]() { p[k].operator->(); }), "using an empty pointer is reported"); } } }
    SX_ASSERT(gone == objs, "freed exactly once"); sx_reach("end"); }
SX_ENTRY h_smart() { smart(3); }
SX_ENTRY h_dead() { struct T { int a, b; T(int a, int b) : a(a), b(b) {} }; auto s = make_smart<T>(sx_i32("a"), 2); SX_ASSERT(s->b == 2 && (*s).a == s->a && s.use_count() == 1, "made in place"); Smart<T> w = s.weak(), t = w; { Smart<T> e(w.strong()); SX_ASSERT(s.use_count() == 2, "held"); s = e; SX_ASSERT(s.use_count() == 2, "reassigned"); } Smart<T> &r = s; s = r; SX_ASSERT(s.use_count() == 1 && s->b == 2, "assigned to itself"); s = std::move(r); SX_ASSERT(s.use_count() == 1 && s->b == 2, "moved to itself"); sx_reach("end"); }
// memory lives as long as a tensor, a copy, a field, a slice's source or a strong tensor needs it
static std::map<void *, size_t> live;
static void *t_new(int, size_t n) { void *p = ::malloc(n); live[p] = n; return p; } static void t_del(int, void *p) { if (!p) return; SX_ASSERT(live.count(p), "freed once"); live.erase(p); ::free(p); } static void conv(int, void *d, int, const void *s, size_t n) { std::memcpy(d, s, n); }
#include <global/hard_allocator.h>
#include <global/hard_converter.h>
SX_ENTRY h_life() { HardAllocator::RegisterV2("toy", t_new, t_del); HardConverter::Register("toy", "toy", conv); HardConverter::Register("toy", "cpu", conv); HardConverter::Register("cpu", "toy", conv); MemoryDevice d("toy", 1); { Tensor r; VI v = symv<int32_t>(2, "x"); { Tensor a(d, INT32, {2}), b(d, INT8, {3}); for (int i = 0; i < 2; ++i) a.data<int32_t>()[i] = v[i]; Tensor p = Tensor::Pack({b, a}); SX_ASSERT(live.size() == 2, "two tensors"); switch (sx_choose(8, "how")) { case 0: r = a; break; case 1: r = p.field(1); break; case 2: r = a.weak().strong(); break; case 3: r = p.weak().field(1).strong(); break; case 4: r = a.reshape({1, 2}).flatten(); break; case 5: r = p.unpack()[1]; break; case 6: r = std::move(a); break; case 7: { Tensor q = p; q.field(0, a); r = q.field(0); break; } } { Tensor w = r.weak(); want<int32_t>(w, {2}, v, "weak tensors show the same"); } SX_ASSERT(live.size() == 2, "nothing copied"); } SX_ASSERT(live.size() == 1, "the rest is freed"); want<int32_t>(r, {2}, v, "still alive"); } SX_ASSERT(live.empty(), "all freed"); sx_reach("end"); }
