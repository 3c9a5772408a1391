// NATIVE_SCHED: counterexamples are replayed under rt/sched.cpp
//@ sources: @core
//@ entry: h_rw reach=end args="--preempt 2"
//@ entry: h_writers reach=end args="--preempt 3"
//@ entry: h_share reach=end args="--preempt 3"
//@ entry: h_sync reach=end args="--preempt 2"
//@ entry: h_view reach=end args="--preempt 2"
//@ entry: h_smart reach=end args="--preempt 3 --preempt-at 2"
//@ entry: h_tensor reach=end args="--preempt 1 --preempt-at 2"
//@ bounds: two or three threads; every interleaving with at most 1-3 preemptions (see the entries) at lock, unlock, wait, notify and atomic operations and inside the critical sections; every path is also searched for data races
//@ assume: sequentially consistent atomics; synced values and keys as given
//@ outside: more threads; destroying a block while another thread uses it
#include "op.h"
#include <thread>
#include <utils/mutex.h>
#include <core/sync/sync_block.h>
#include <core/sync/sync_memory.h>
typedef unique_read_lock<rwmutex> RL; typedef unique_write_lock<rwmutex> WL;
SX_ENTRY h_rw() { rwmutex m; int a = 0, b = 0; auto rd = [&]() { RL l(m); SX_ASSERT(a == b, "a reader sees no write half done"); }; auto wr = [&](int v) { WL l(m); SX_ASSERT(a == b, "a writer sees no write half done"); a = v; sx_yield(); b = v; };
    { std::thread t(rd), u([&]() { wr(3); }); bool w = sx_choose(2, "writer"); if (w) wr(4); else rd(); t.join(); u.join(); SX_ASSERT(a == b && (a == 3 || (w && a == 4)), "the last write stays"); } sx_reach("end"); }
SX_ENTRY h_writers() { rwmutex m; int n = 0; { std::thread t([&]() { WL l(m); int v = n; sx_yield(); n = v + 1; }); { WL l(m); int v = n; sx_yield(); n = v + 1; } { RL l(m); SX_ASSERT(n == 1 || n == 2, "own write seen"); } t.join(); } SX_ASSERT(n == 2, "no write lost"); sx_reach("end"); }
// readers do not exclude each other
SX_ENTRY h_share() { rwmutex m; int x = 7, got = 0; { RL l(m); std::thread t([&]() { RL k(m); got = x; }); t.join(); } SX_ASSERT(got == 7, "a second reader enters"); { RL l(m); RL k(std::move(l)); } { WL l(m); WL k(std::move(l)); x = 8; } { RL k(m); SX_ASSERT(x == 8, "moved locks are released once"); } sx_reach("end"); }
typedef SyncBlock<int, int> B;
SX_ENTRY h_sync() { int v = sx_i32("value"), calls = 0; B b(0, v, [&](const int &x, const int &from, const int &to) { SX_ASSERT(from == 0, "synced from the default key"); calls++; return x ^ (to << 4); }, true); int k1 = (int) sx_choose(3, "key"), k2 = (int) sx_choose(3, "other key"); 
    int *p = nullptr; { std::thread t([&]() { p = &b.sync(k1); }); int *q = &b.sync(k2); SX_ASSERT(*q == (k2 ? v ^ (k2 << 4) : v), "the synced value"); t.join(); SX_ASSERT(*p == (k1 ? v ^ (k1 << 4) : v), "the value synced in the other thread"); SX_ASSERT((p == q) == (k1 == k2), "one value per key"); }
    SX_ASSERT(calls == (k1 != 0) + (k2 != 0 && k2 != k1), "each key is synced once"); int n = 0; b.foreach([&](const int &k, const int &x) { n++; SX_ASSERT(x == (k ? v ^ (k << 4) : v), "kept"); }); SX_ASSERT(n == 1 + calls, "nothing else is kept"); sx_reach("end"); }
SX_ENTRY h_view() { int v = sx_i32("value"), calls = 0; B b(0, v, [&](const int &x, const int &from, const int &to) { calls++; return x + 100 * to - 100 * from; }, true); { std::thread t([&]() { auto w = b.view(1); SX_ASSERT(w->key() == 1 && w->value() == v + 100, "view in another thread"); SX_ASSERT(w->sync(0) == v, "views share values"); }); auto u = b.view((int) sx_choose(2, "key")); SX_ASSERT(u->value() == v + 100 * u->key(), "view"); SX_ASSERT(u->sync(2) == v + 200, "synced from the view"); t.join(); } SX_ASSERT(calls == 2, "each key is synced once"); sx_reach("end"); }
static int alive = 0; struct Obj_ { int v; Obj_(int x) : v(x) {} };
// counted pointers are copied and dropped in several threads
SX_ENTRY h_smart() { int freed = 0; { Smart<int> s(new int(5), [&](const int *p) { freed++; delete p; }); { std::thread t([s]() { Smart<int> c(s); SX_ASSERT(*c == 5, "alive in the thread"); }); Smart<int> d(s); SX_ASSERT(*d == 5, "alive"); t.join(); } SX_ASSERT(freed == 0 && s.use_count() == 1, "counts are exact"); } SX_ASSERT(freed == 1, "freed once"); sx_reach("end"); }
SX_ENTRY h_tensor() { std::vector<int32_t> v = {sx_i32("x"), 2}; Tensor x = mk<int32_t>({2}, v); { std::thread t([x, v]() { Tensor y = x, z = y; SX_ASSERT(z.data<int32_t>()[0] == v[0], "shared tensor read in another thread"); Tensor e; }); Tensor y = x; SX_ASSERT(y.data<int32_t>()[1] == 2, "read"); y = Tensor(); t.join(); } SX_ASSERT(x.data<int32_t>()[0] == v[0], "still alive"); sx_reach("end"); }
