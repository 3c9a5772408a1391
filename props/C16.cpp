// NATIVE_SCHED: counterexamples are replayed under rt/sched.cpp
//@ sources: @core src/runtime/inside/thread_pool.cpp src/runtime/inside/parallel.cpp
//@ entry: h_thread reach=end args="--preempt 4 --spurious 1"
//@ entry: h_pool1 reach=end args="--preempt 4 --spurious 1"
//@ entry: h_pool2 reach=end args="--preempt 2"
//@ entry: h_pool3 reach=end args="--preempt 1"
//@ entry: h_busy reach=end args="--preempt 3"
//@ entry: h_again reach=end args="--preempt 3"
//@ entry: h_range reach=end args="--preempt 1"
//@ entry: h_ranges reach=end args="--preempt 1"
//@ entry: h_serial reach=end
//@ entry: h_pool2d reach=end tier=thorough timeout=900 args="--preempt 4 --spurious 1"
//@ entry: h_pool3d reach=end tier=thorough timeout=900 args="--preempt 3"
//@ bounds: 1-3 worker threads, 0-4 tasks, every interleaving of lock, unlock, wait, notify, atomic and thread operations with at most 1-4 preemptions (see the entries) and unlimited switches where a thread blocks, one spurious wakeup; ranges of at most 5 indexes with any bounds
//@ assume: tasks do not throw; sequentially consistent atomics
//@ outside: more preemptions, more threads; destroying a pool without join drops tasks that have not started (not claimed)
#include <sx.h>
#include <runtime/inside/parallel.h>
#include <utils/ctxmgr_lite.h>
using namespace ts;
// one worker: create, 0-2 tasks one after another, destroy
SX_ENTRY h_thread() {
    int k = sx_pick(0, 2, "tasks"); int seen[2] = {0, 0}, sig[2] = {-1, -1}, after[2] = {0, 0};
    { Thread t; for (int i = 0; i < k; ++i) { t.run(5 + i, [&, i](int s) { seen[i]++; sig[i] = s; SX_ASSERT(!after[i], "after_task comes after the task"); }, [&, i](int s) { after[i]++; SX_ASSERT(s == 5 + i && seen[i] == 1, "after_task gets the signet"); }); t.join(); SX_ASSERT(seen[i] == 1 && after[i] == 1 && sig[i] == 5 + i, "join waits for the task"); } }
    for (int i = 0; i < k; ++i) SX_ASSERT(seen[i] == 1 && after[i] == 1, "every task runs once");
    sx_reach("end");
}
static void pool(int w, int k) {
    std::vector<int> n(k, 0), af(k, 0), act(w, 0);
    { ThreadPool p(w); SX_ASSERT(p.size() == (size_t) w, "size");
      for (int i = 0; i < k; ++i) { bool a = i == 0; auto t = [&n, &act, i, w](int s) { SX_ASSERT(s >= 0 && s < w, "a thread of the pool"); SX_ASSERT(act[s] == 0, "one task per thread at a time"); act[s] = 1; n[i]++; act[s] = 0; }; if (a) p.run(t, [&af, &n, i](int) { SX_ASSERT(n[i] == 1, "after the task"); af[i]++; }); else p.run(t); }
      p.join(); for (int i = 0; i < k; ++i) SX_ASSERT(n[i] == 1 && af[i] == (i == 0), "join waits until every task has run exactly once"); }
    sx_reach("end");
}
SX_ENTRY h_pool1() { pool(1, sx_pick(1, 2, "tasks")); }
SX_ENTRY h_pool3() { pool(3, sx_pick(2, 3, "tasks")); }
SX_ENTRY h_pool2d() { pool(2, sx_pick(1, 4, "tasks")); }
SX_ENTRY h_pool3d() { pool(3, sx_pick(2, 4, "tasks")); }
// busy may be asked at any time; it never blocks or disturbs the tasks
SX_ENTRY h_busy() { int n = 0; { ThreadPool p(1); SX_ASSERT(!p.busy(), "an idle pool is not busy"); p.run([&](int) { SX_ASSERT(p.busy(), "busy while a task runs"); n++; }); p.busy(); p.join(); SX_ASSERT(n == 1, "the task has run"); SX_ASSERT(!p.busy(), "not busy after join"); } 
    int m = 0; { Thread t; t.run(1, [&](int) { m++; }); bool b = t.busy(); if (!b) { t.join(); SX_ASSERT(m == 1, "not busy means finished"); } else t.join(); SX_ASSERT(m == 1, "joined"); } sx_reach("end"); }
// the pool is used again after join, from another task submission
SX_ENTRY h_again() { std::vector<int> n(2, 0); { ThreadPool p(1); p.run([&](int) { n[0]++; }); p.join(); SX_ASSERT(n[0] == 1, "first"); p.run([&](int) { SX_ASSERT(n[0] == 1, "results of the first are visible"); n[1] = n[0] + 1; }); p.join(); SX_ASSERT(n[1] == 2, "second"); p.join(); } sx_reach("end"); }
static void range(bool pairs) {
    int lo = sx_pick(-1, 1, "begin"), k = sx_pick(0, 5, "count"), w = sx_pick(0, 2, "workers"); std::vector<int> n(k + 1, 0);
    { ThreadPool p(w); ctx::bind<ThreadPool> b(p); SX_ASSERT(parallel_size() == (size_t) (w ? w : 1), "parallel size");
      if (pairs) parallel_range([&](int id, const Range &r) { SX_ASSERT(id >= 0 && id < (w ? w : 1), "thread id"); SX_ASSERT(r.first >= lo && r.second <= lo + k, "inside the range"); for (int i = r.first; i < r.second; ++i) n[i - lo]++; }, lo, lo + k);
      else parallel_run([&](int id, int x, int y) { SX_ASSERT(id >= 0 && id < (w ? w : 1), "thread id"); SX_ASSERT(x >= lo && y <= lo + k, "inside the range"); for (int i = x; i < y; ++i) n[i - lo]++; }, lo, lo + k);
      for (int i = 0; i < k; ++i) SX_ASSERT(n[i] == 1, "every index is handled exactly once before returning"); }
    sx_reach("end"); }
SX_ENTRY h_range() { range(false); }
SX_ENTRY h_ranges() { range(true); }
// without a pool the caller does the work
SX_ENTRY h_serial() { int lo = sx_i32("begin"), hi = sx_i32("end"); sx_assume(lo >= -1000000000 && hi <= 1000000000 && lo <= hi); int c = 0; parallel_run([&](int id, int x, int y) { c++; SX_ASSERT(id == 0 && x == lo && y == hi, "the whole range"); }, lo, hi); SX_ASSERT(c == 1, "once"); parallel_sync(); ThreadPool p(0); int m = 0; SX_ASSERT(p.run([&](int) { m++; }) == nullptr && m == 1, "an empty pool runs at once"); p.join(); SX_ASSERT(!p.busy(), "not busy"); sx_reach("end"); }
SX_ENTRY h_pool2() { pool(2, sx_pick(1, 3, "tasks")); }
