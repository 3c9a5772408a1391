// Native scheduler for replaying concurrency counterexamples: the harness and
// the library are compiled with -fsanitize=thread and linked against this file
// instead of the sanitizer runtime, so every synchronisation operation and every
// memory access of the real code passes through here.  One thread runs at a
// time; switches happen only at synchronisation operations, at positions chosen
// from a seed.  Reports deadlocks, data races (vector clocks) and uses after free.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <vector>
#include <map>
#include <unordered_map>
#include <set>
#include <sstream>
#define private public
#include <thread>
#undef private
#include <mutex>
#include <condition_variable>
#include <semaphore.h>
#include <pthread.h>
#include <unistd.h>
typedef std::vector<uint32_t> VC;
static void vjoin(VC &a, const VC &b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); ++i) if (b[i] > a[i]) a[i] = b[i]; }
static uint32_t vget(const VC &a, size_t i) { return i < a.size() ? a[i] : 0; }
struct Cell { uint8_t mask, tid, wr, at; uint32_t clk; };
struct T { int status = 0; uint64_t wait = 0; sem_t sem; VC vc; pthread_t id; bool spur = false; };
struct G { std::vector<T *> th; int cur = 0; std::map<uint64_t, int> own; std::unordered_map<uint64_t, VC> sync; std::unordered_map<uint64_t, std::vector<Cell>> sh; std::map<uint64_t, std::pair<uint64_t, bool>> heap; uint64_t rng = 1, n = 0, spurat = 0; std::set<uint64_t> plan; bool on = false; };
static G *g; static __thread int me = 0; static __thread int inside = 0;
struct In { In() { ++inside; } ~In() { --inside; } };
static uint64_t rnd() { g->rng = g->rng * 6364136223846793005ull + 1442695040888963407ull; return g->rng >> 33; }
static void fail(int rc, const char *m) { fprintf(stderr, "SX-SCHED: %s\n", m); fflush(0); _Exit(rc); }
#include <execinfo.h>
static void race(uint64_t a) { void *b[24]; int n = backtrace(b, 24); if (getenv("SX_TRACE")) backtrace_symbols_fd(b, n, 2); fprintf(stderr, "at %lx\n", a); fail(69, "data race"); }
static std::vector<int> runnable(bool others) { std::vector<int> r; for (size_t i = 0; i < g->th.size(); ++i) if (g->th[i]->status == 0 && !(others && (int) i == me)) r.push_back((int) i); return r; }
static void give(int t) { if (t == me) return; int self = me; g->cur = t; sem_post(&g->th[t]->sem); while (sem_wait(&g->th[self]->sem)) {} }
static void block() { auto r = runnable(false); if (r.empty()) fail(68, "deadlock: all threads blocked"); give(r[rnd() % r.size()]); }
static void point() { if (!g || g->th.size() < 2) return; ++g->n; if (!g->plan.count(g->n)) return; auto r = runnable(true); if (!r.empty()) give(r[rnd() % r.size()]); }
static void acq(uint64_t k) { auto it = g->sync.find(k); if (it != g->sync.end()) vjoin(g->th[me]->vc, it->second); }
static void rel(uint64_t k) { VC &v = g->th[me]->vc; vjoin(g->sync[k], v); v[me]++; }
static void access(uint64_t a, uint64_t n, bool write, bool at) {
    if (inside || !g || !g->on || !n) return; In in_;
    auto h = g->heap.upper_bound(a); if (h != g->heap.begin()) { --h; if (a < h->first + h->second.first && h->second.second) fail(70, "use of freed memory"); }
    if (g->th.size() < 2) return;
    VC &v = g->th[me]->vc;
    for (uint64_t k = a >> 3; k <= (a + n - 1) >> 3; ++k) {
        uint8_t m = 0xff; if (k == a >> 3) m &= (uint8_t) (0xff << (a & 7)); if (k == (a + n - 1) >> 3) m &= (uint8_t) (0xff >> (7 - ((a + n - 1) & 7)));
        auto &cs = g->sh[k]; size_t q = 0;
        for (size_t i = 0; i < cs.size(); ++i) { Cell c = cs[i]; if (c.tid != me && (c.mask & m) && (c.wr || write) && !(c.at && at) && c.clk > vget(v, c.tid)) race(a); if (!((c.mask & ~m) == 0 && (write || !c.wr) && c.at == (uint8_t) at && (c.tid == me || c.clk <= vget(v, c.tid)))) cs[q++] = c; }
        cs.resize(q); cs.push_back(Cell{m, (uint8_t) me, (uint8_t) write, (uint8_t) at, v[me]});
    }
}
static int newThread() { T *t = new T; sem_init(&t->sem, 0, 0); int id = (int) g->th.size(); t->vc.resize(id + 1, 0); t->vc[id] = 1; if (id) { VC &v = g->th[me]->vc; vjoin(t->vc, v); v[me]++; } g->th.push_back(t); return id; }
extern "C" void sx_sched_start(uint64_t seed) { In in_; g = new G; g->rng = seed * 7919 + 17; newThread(); for (int i = 0; i < 4; ++i) rnd(); int d = (int) (rnd() % 4); uint64_t lim = 20ull << (rnd() % 5); for (int i = 0; i < d; ++i) g->plan.insert(1 + rnd() % lim); g->spurat = rnd() % 3 ? 0 : 1 + rnd() % 4; g->on = true; }
extern "C" void sx_yield() { point(); }
static int lockm(uint64_t m) { In in_; while (g->own.count(m)) { if (g->own[m] == me) fail(68, "deadlock: relock"); g->th[me]->status = 1; g->th[me]->wait = m; block(); } g->own[m] = me; acq(m); return 0; }
static void unlockm(uint64_t m) { In in_; if (!g->own.count(m) || g->own[m] != me) fail(71, "unlock of a mutex not held"); g->own.erase(m); rel(m); for (auto t : g->th) if (t->status == 1 && t->wait == m) t->status = 0; }
extern "C" {
    int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); int __real_pthread_mutex_trylock(pthread_mutex_t *);
    int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (!g || inside) return __real_pthread_mutex_lock(m); lockm((uint64_t) m); In in_; point(); return 0; }
    int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (!g || inside) return __real_pthread_mutex_unlock(m); unlockm((uint64_t) m); In in_; point(); return 0; }
    int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (!g || inside) return __real_pthread_mutex_trylock(m); In in_; if (g->own.count((uint64_t) m)) return 16; g->own[(uint64_t) m] = me; acq((uint64_t) m); return 0; }
    int __real___cxa_guard_acquire(uint64_t *); void __real___cxa_guard_release(uint64_t *); void __real___cxa_guard_abort(uint64_t *);
    int __wrap___cxa_guard_acquire(uint64_t *q) { if (!g || inside) return __real___cxa_guard_acquire(q); In in_; char *p = (char *) q; for (;;) { if (p[0]) { acq((uint64_t) q); return 0; } if (!p[1]) break; g->th[me]->status = 1; g->th[me]->wait = (uint64_t) q; block(); } p[1] = 1; acq((uint64_t) q); return 1; }
    static void gdone(uint64_t *q, bool ok) { In in_; char *p = (char *) q; p[1] = 0; p[0] = ok; rel((uint64_t) q); for (auto t : g->th) if (t->status == 1 && t->wait == (uint64_t) q) t->status = 0; point(); }
    void __wrap___cxa_guard_release(uint64_t *q) { if (!g || inside) __real___cxa_guard_release(q); else gdone(q, true); } void __wrap___cxa_guard_abort(uint64_t *q) { if (!g || inside) __real___cxa_guard_abort(q); else gdone(q, false); }
    void *__real_malloc(size_t); void __real_free(void *); void *__real_realloc(void *, size_t);
    static void track(void *p, size_t n) { if (!p || !g || inside) return; In in_; g->heap[(uint64_t) p] = {n, false}; }
    static bool untrack(void *p) { if (!g || inside) return false; In in_; auto it = g->heap.find((uint64_t) p); if (it == g->heap.end()) return false; if (it->second.second) fail(70, "double free"); it->second.second = true; return true; }
    void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); track(p, n); return p; }
    void __wrap_free(void *p) { if (!p) return; auto it = g && !inside ? g->heap.find((uint64_t) p) : decltype(g->heap.end())(); if (g && !inside && it != g->heap.end()) { if (!it->second.second) access((uint64_t) p, it->second.first, true, false); untrack(p); return; } __real_free(p); }
    void *__wrap_realloc(void *p, size_t n) { if (!g || inside) return __real_realloc(p, n); void *q = __wrap_malloc(n); if (p) { auto it = g->heap.find((uint64_t) p); if (it != g->heap.end()) memcpy(q, p, it->second.first < n ? it->second.first : n); __wrap_free(p); } return q; }
}
void *operator new(size_t n) { void *p = __real_malloc(n); track(p, n); return p; }
void *operator new[](size_t n) { void *p = __real_malloc(n); track(p, n); return p; }
void operator delete(void *p) noexcept { __wrap_free(p); } void operator delete(void *p, size_t) noexcept { __wrap_free(p); } void operator delete[](void *p) noexcept { __wrap_free(p); } void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }
struct Start { std::thread::_State *s; int id; };
static void *tramp(void *q) { Start *p = (Start *) q; me = p->id; while (sem_wait(&g->th[me]->sem)) {} { std::unique_ptr<std::thread::_State> s(p->s); s->_M_run(); }
    inside = 1; T *t = g->th[me]; t->status = 4; t->vc[me]++; for (auto x : g->th) if (x->status == 3 && x->wait == (uint64_t) me) x->status = 0; auto r = runnable(false); if (r.empty()) fail(68, "deadlock: all threads blocked"); g->cur = r[rnd() % r.size()]; sem_post(&g->th[g->cur]->sem); return nullptr; }
namespace std {
    void thread::_M_start_thread(_State_ptr s, void (*)()) { Start *st; { In in_; int id = newThread(); st = new Start{s.release(), id}; pthread_create(&g->th[id]->id, nullptr, tramp, st); _M_id = thread::id(g->th[id]->id); } In in_; point(); }
    void thread::join() { In in_; for (size_t i = 0; i < g->th.size(); ++i) if (i && pthread_equal(g->th[i]->id, _M_id._M_thread)) { while (g->th[i]->status != 4) { g->th[me]->status = 3; g->th[me]->wait = i; block(); } vjoin(g->th[me]->vc, g->th[i]->vc); } _M_id = thread::id(); }
    void condition_variable::wait(unique_lock<mutex> &l) { uint64_t m = (uint64_t) l.mutex()->native_handle(); unlockm(m); { In in_; T *t = g->th[me]; if (g->spurat && !--g->spurat) { block(); } else { t->status = 2; t->wait = (uint64_t) this; block(); } } lockm(m); }
    void condition_variable::notify_one() noexcept { if (!g) return; In in_; std::vector<T *> w; for (auto t : g->th) if (t->status == 2 && t->wait == (uint64_t) this) w.push_back(t); if (!w.empty()) w[rnd() % w.size()]->status = 0; point(); }
    void condition_variable::notify_all() noexcept { if (!g) return; In in_; for (auto t : g->th) if (t->status == 2 && t->wait == (uint64_t) this) t->status = 0; point(); }
}
typedef uint8_t a8; typedef uint16_t a16; typedef uint32_t a32; typedef uint64_t a64;
static bool isacq(int o) { return o == 1 || o == 2 || o == 4 || o == 5; } static bool isrel(int o) { return o >= 3; }
#define RW(n) void __tsan_read##n(void *p) { access((uint64_t) p, n, false, false); } void __tsan_write##n(void *p) { access((uint64_t) p, n, true, false); } void __tsan_unaligned_read##n(void *p) { access((uint64_t) p, n, false, false); } void __tsan_unaligned_write##n(void *p) { access((uint64_t) p, n, true, false); } void __tsan_read_write##n(void *p) { access((uint64_t) p, n, true, false); } void __tsan_unaligned_read_write##n(void *p) { access((uint64_t) p, n, true, false); } void __tsan_volatile_read##n(void *p) { access((uint64_t) p, n, false, false); } void __tsan_volatile_write##n(void *p) { access((uint64_t) p, n, true, false); }
#define PRE { if (g && !inside) { access((uint64_t) p, sizeof *p, w, true); In in_; if (isacq(o)) acq((uint64_t) p); } }
#define POST { if (g && !inside) { In in_; if (isrel(o)) rel((uint64_t) p); point(); } }
#define RMW(n, nm, b) a##n __tsan_atomic##n##_##nm(volatile a##n *p, a##n v, int o) { bool w = true; PRE a##n r = *p; *p = b; POST return r; }
#define AT(n) a##n __tsan_atomic##n##_load(const volatile a##n *p, int o) { bool w = false; PRE a##n r = *p; if (g && !inside) { In in_; point(); } return r; } void __tsan_atomic##n##_store(volatile a##n *p, a##n v, int o) { bool w = true; if (g && !inside) access((uint64_t) p, sizeof *p, w, true); *p = v; POST } \
    RMW(n, exchange, v) RMW(n, fetch_add, (a##n) (r + v)) RMW(n, fetch_sub, (a##n) (r - v)) RMW(n, fetch_and, (a##n) (r & v)) RMW(n, fetch_or, (a##n) (r | v)) RMW(n, fetch_xor, (a##n) (r ^ v)) \
    int __tsan_atomic##n##_compare_exchange_strong(volatile a##n *p, a##n *e, a##n v, int o, int) { bool w = true; PRE bool ok = *p == *e; if (ok) *p = v; else *e = *p; POST return ok; } int __tsan_atomic##n##_compare_exchange_weak(volatile a##n *p, a##n *e, a##n v, int o, int f) { return __tsan_atomic##n##_compare_exchange_strong(p, e, v, o, f); } \
    a##n __tsan_atomic##n##_compare_exchange_val(volatile a##n *p, a##n e, a##n v, int o, int f) { __tsan_atomic##n##_compare_exchange_strong(p, &e, v, o, f); return e; }
extern "C" {
    RW(1) RW(2) RW(4) RW(8) RW(16)
    AT(8) AT(16) AT(32) AT(64)
    void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {} void __tsan_vptr_update(void **p, void *) { access((uint64_t) p, 8, true, false); } void __tsan_vptr_read(void **p) { access((uint64_t) p, 8, false, false); }
    void __tsan_read_range(void *p, unsigned long n) { access((uint64_t) p, n, false, false); } void __tsan_write_range(void *p, unsigned long n) { access((uint64_t) p, n, true, false); }
    void *__tsan_memcpy(void *d, const void *s, size_t n) { access((uint64_t) s, n, false, false); access((uint64_t) d, n, true, false); return memcpy(d, s, n); } void *__tsan_memmove(void *d, const void *s, size_t n) { access((uint64_t) s, n, false, false); access((uint64_t) d, n, true, false); return memmove(d, s, n); } void *__tsan_memset(void *d, int c, size_t n) { access((uint64_t) d, n, true, false); return memset(d, c, n); }
    void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
