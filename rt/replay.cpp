// Native replay of a counterexample found by symex: feeds the recorded inputs
// to the same harness compiled against the real libraries.
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <exception>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/wait.h>
#include <time.h>
extern "C" __attribute__((weak)) void sx_sched_start(unsigned long);
struct In { char t; std::string n, v; };
static std::vector<In> ins; static size_t pos = 0;
static const In *next(char t, const char *name) {
    while (pos < ins.size() && ins[pos].t == 's') ++pos;
    if (pos >= ins.size()) return nullptr;   // beyond the recorded prefix: arbitrary
    const In *r = &ins[pos++];
    if (r->t != t) { fprintf(stderr, "SX-REPLAY-MISMATCH at %s\n", name); _Exit(78); }
    return r;
}
extern "C" {
    void sx_missing() { fprintf(stderr, "SX-MISSING: function outside the replay build\n"); fflush(0); _Exit(78); }
    unsigned long sx_int(const char *n, unsigned bits) { auto i = next('i', n); unsigned long v = i ? strtoull(i->v.c_str(), 0, 10) : 0; return bits >= 64 ? v : v & ((1ul << bits) - 1); }
    double sx_real_(const char *n) { auto i = next('r', n); return i ? strtod(i->v.c_str(), 0) : 1.0; }
    unsigned long sx_choose(unsigned long, const char *n) { auto i = next('c', n); return i ? strtoull(i->v.c_str(), 0, 10) : 0; }
    unsigned long sx_concretize(unsigned long v) { return v; }
    void sx_assume(bool b) { if (!b) { fprintf(stderr, "SX-ASSUME-FAILED\n"); fflush(0); _Exit(77); } }
    void sx_assert_(bool b, const char *m) { if (!b) { fprintf(stderr, "SX-ASSERT-FAILED: %s\n", m); fflush(0); _Exit(66); } }
    void sx_feq_(double a, double b, const char *m) { if (std::isnan(a) && std::isnan(b)) return; if (a == b) return; if (!(std::fabs(a - b) <= 2e-4 * (1 + std::fabs(b)))) { fprintf(stderr, "SX-ASSERT-FAILED: %s (got %.9g want %.9g)\n", m, a, b); fflush(0); _Exit(66); } }
    void sx_fnear_(double a, double b, double t, const char *m) { if (!(std::fabs(a - b) <= t)) { fprintf(stderr, "SX-ASSERT-FAILED: %s (got %.9g want %.9g tol %.3g)\n", m, a, b, t); fflush(0); _Exit(66); } }
    void sx_reach(const char *) {} void sx_note(const char *m) { fprintf(stderr, "note: %s\n", m); }
    int sx_is_symbolic(unsigned long) { return 0; } int sx_native() { return 1; } unsigned long sx_live_heap() { return 0; } 
    __attribute__((weak)) void sx_yield() {}
}
extern "C" __attribute__((visibility("default"), used)) void sx_noop() {}
int main(int argc, char **argv) {
    FILE *f = fopen(argv[1], "r"); if (!f) return 3; char line[4096]; std::string entry;
    while (fgets(line, sizeof line, f)) { char t; char n[512], v[2048]; if (line[0] == '#') continue; if (sscanf(line, "entry %500s", n) == 1) { entry = n; continue; } if (sscanf(line, "%c %500s %2000s", &t, n, v) == 3) ins.push_back({t, n, v}); }
    fclose(f);
    void (*fn)() = (void (*)()) dlsym(RTLD_DEFAULT, entry.c_str());
    if (!fn) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
    if (sx_sched_start) { // concurrency: try schedules until one fails the way the executor said
        pos = 0; time_t t0 = time(nullptr);
        for (unsigned long base = 0; base < 40000 && time(nullptr) - t0 < 45; base += 8) {
            pid_t k[8]; for (int i = 0; i < 8; ++i) { if ((k[i] = fork()) == 0) { alarm(10); sx_sched_start(base + i); try { fn(); } catch (...) { _Exit(67); } _Exit(0); } }
            int rc = 0, st; unsigned long sd = 0; for (int i = 0; i < 8; ++i) { waitpid(k[i], &st, 0); int r = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); if (r && !rc) { rc = r; sd = base + i; } }
            if (rc) { fprintf(stderr, "schedule %lu fails with %d\n", sd, rc); fflush(0); _Exit(rc >= 68 && rc < 72 ? 66 : rc); } }
        fprintf(stderr, "SX-REPLAY-OK\n"); fflush(0); _Exit(0); }
    try { fn(); } catch (const std::exception &e) { fprintf(stderr, "SX-UNCAUGHT: %s\n", e.what()); fflush(0); _Exit(67); } catch (...) { fprintf(stderr, "SX-UNCAUGHT\n"); fflush(0); _Exit(67); }
    fprintf(stderr, "SX-REPLAY-OK\n"); fflush(0); _Exit(0);
}
