// Bitcode runtime linked into every harness: the pieces of libstdc++/libc the
// TenniS sources call that are not in headers.  Compiled with the same shim.
#define private public
#include <thread>
#undef private
#include <sx_streams.h>
#include <string>
#include <vector>
#include <map>
#include <list>
#include <stdexcept>
#include <new>
#include <memory>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <functional>
#include <chrono>
#include <typeinfo>
#include <unordered_map>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <ctime>
#include <pthread.h>
extern "C" { const void *sx_memchr(const void *, int, size_t); const char *sx_strchr(const char *, int); const char *sx_strrchr(const char *, int); const char *sx_strstr(const char *, const char *); }
extern "C" const void *sxo_memchr(const void *p, int c, size_t n) { return sx_memchr(p, c, n); }
extern "C" const char *sxo_strchr(const char *s, int c) { for (;; ++s) { if (*s == (char) c) return s; if (!*s) return nullptr; } }
extern "C" const char *sxo_strrchr(const char *s, int c) { const char *r = nullptr; for (;; ++s) { if (*s == (char) c) r = s; if (!*s) return r; } }
extern "C" const char *sxo_strstr(const char *s, const char *t) { for (;; ++s) { size_t i = 0; while (t[i] && s[i] == t[i]) ++i; if (!t[i]) return s; if (!*s) return nullptr; } }
extern "C" void *sxo_dlopen(const char *, int) { return nullptr; }
extern "C" void *sxo_dlsym(void *, const char *) { return nullptr; }
extern "C" int sxo_dlclose(void *) { return 0; }
extern "C" int sxo_snprintf(char *s, size_t n, const char *f, ...) { size_t i = 0; for (; f[i]; ++i) if (i + 1 < n) s[i] = f[i]; if (n) s[i < n ? i : n - 1] = 0; return (int) i; }
#include <cerrno>
template class std::basic_string<char>;
extern "C" { void sx_yield(); }

// ---------------------------------------------------------------- exceptions
namespace std {
    exception::~exception() noexcept {}
    const char *exception::what() const noexcept { return "std::exception"; }
    bad_alloc::~bad_alloc() noexcept {}
    const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
    bad_array_new_length::~bad_array_new_length() noexcept {}
    const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
    bad_cast::~bad_cast() noexcept {}
    const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
    bad_weak_ptr::~bad_weak_ptr() noexcept {}
    const char *bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
    bad_function_call::~bad_function_call() noexcept {}
    const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
    static const char *sx_dup(const char *s, size_t n) { char *p = (char *) malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
    __cow_string::__cow_string() : _M_p("") {}
    __cow_string::__cow_string(const string &s) : _M_p(sx_dup(s.data(), s.size())) {}
    __cow_string::__cow_string(const char *s, size_t n) : _M_p(sx_dup(s, n)) {}
    __cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(o._M_p) {}
    __cow_string &__cow_string::operator=(const __cow_string &o) noexcept { _M_p = o._M_p; return *this; }
    __cow_string::~__cow_string() {}
    logic_error::logic_error(const string &s) : _M_msg(s) {} logic_error::logic_error(const char *s) : _M_msg(s, strlen(s)) {} logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
    logic_error::~logic_error() noexcept {} const char *logic_error::what() const noexcept { return _M_msg._M_p; }
    runtime_error::runtime_error(const string &s) : _M_msg(s) {} runtime_error::runtime_error(const char *s) : _M_msg(s, strlen(s)) {} runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
    runtime_error::~runtime_error() noexcept {} const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
    invalid_argument::invalid_argument(const string &s) : logic_error(s) {} invalid_argument::invalid_argument(const char *s) : logic_error(s) {} invalid_argument::~invalid_argument() noexcept {}
    length_error::length_error(const string &s) : logic_error(s) {} length_error::length_error(const char *s) : logic_error(s) {} length_error::~length_error() noexcept {}
    out_of_range::out_of_range(const string &s) : logic_error(s) {} out_of_range::out_of_range(const char *s) : logic_error(s) {} out_of_range::~out_of_range() noexcept {}
    domain_error::domain_error(const string &s) : logic_error(s) {} domain_error::domain_error(const char *s) : logic_error(s) {} domain_error::~domain_error() noexcept {}
    range_error::range_error(const string &s) : runtime_error(s) {} range_error::range_error(const char *s) : runtime_error(s) {} range_error::~range_error() noexcept {}
    overflow_error::overflow_error(const string &s) : runtime_error(s) {} overflow_error::overflow_error(const char *s) : runtime_error(s) {} overflow_error::~overflow_error() noexcept {}
    void __throw_bad_alloc() { throw bad_alloc(); }
    void __throw_bad_array_new_length() { throw bad_array_new_length(); }
    void __throw_bad_cast() { throw bad_cast(); }
    void __throw_bad_function_call() { throw bad_function_call(); }
    void __throw_logic_error(const char *s) { throw logic_error(s); }
    void __throw_runtime_error(const char *s) { throw runtime_error(s); }
    void __throw_length_error(const char *s) { throw length_error(s); }
    void __throw_out_of_range(const char *s) { throw out_of_range(s); }
    void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
    void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
    void __throw_system_error(int) { throw runtime_error("system_error"); }
    const nothrow_t nothrow{};
    ostream cout, cerr, clog; istream cin;
}

// ---------------------------------------------------------------- containers
namespace std {
    static _Rb_tree_node_base *rb_inc(_Rb_tree_node_base *x) {
        if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
        else { auto y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
        return x;
    }
    static _Rb_tree_node_base *rb_dec(_Rb_tree_node_base *x) {
        if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
        else if (x->_M_left) { auto y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
        else { auto y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
        return x;
    }
    _Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return rb_inc(x); }
    const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return rb_inc(const_cast<_Rb_tree_node_base *>(x)); }
    _Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return rb_dec(x); }
    const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return rb_dec(const_cast<_Rb_tree_node_base *>(x)); }
    // unbalanced insertion (the balance is not observable): keeps header links right
    void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
        x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black; h._M_color = _S_red;
        if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
        else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    }
    _Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
        _Rb_tree_node_base *&root = h._M_parent, *&lm = h._M_left, *&rm = h._M_right;
        auto repl = [&](_Rb_tree_node_base *a, _Rb_tree_node_base *b) { if (root == a) root = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b; if (b) b->_M_parent = a->_M_parent; };
        _Rb_tree_node_base *nl = lm == z ? rb_inc(z) : lm, *nr = rm == z ? rb_dec(z) : rm;
        if (!z->_M_left) repl(z, z->_M_right);
        else if (!z->_M_right) repl(z, z->_M_left);
        else { auto y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
        if (!root) { lm = &h; rm = &h; } else { lm = nl; rm = nr; }
        return z;
    }
    namespace __detail {
        static const size_t sx_primes[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517, 15173, 30727, 62233};
        size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { for (size_t p : sx_primes) if (p >= n) { _M_next_resize = p; return p; } return n | 1; }
        pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ins) const {
            if (ne + ins > _M_next_resize || (nb == 1 && ne + ins > 0)) { size_t want = ne + ins; if (want < 11 && _M_next_resize == 0) want = 11; if (want >= nb) { size_t g = nb * 2; return {true, _M_next_bkt(want + 1 > g ? want + 1 : g)}; } _M_next_resize = nb; return {false, 0}; }
            return {false, 0};
        }
        void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
        void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
        void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
        void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept { if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
        void _List_node_base::_M_reverse() noexcept { auto t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
    }
    size_t _Hash_bytes(const void *p, size_t n, size_t seed) { const unsigned char *c = (const unsigned char *) p; size_t h = seed; for (size_t i = 0; i < n; ++i) h = h * 131 + c[i]; return h; }
}

// ---------------------------------------------------------------- threads
extern "C" char __libc_single_threaded;
namespace std {
    thread::_State::~_State() {}
    static void *sx_tramp(void *p) { unique_ptr<thread::_State> s((thread::_State *) p); s->_M_run(); return nullptr; }
    void thread::_M_start_thread(_State_ptr s, void (*)()) { __libc_single_threaded = 0; pthread_t t; pthread_create(&t, nullptr, sx_tramp, s.release()); _M_id = id(t); }
    void thread::join() { pthread_join(_M_id._M_thread, nullptr); _M_id = id(); }
    void thread::detach() { _M_id = id(); }
    unsigned thread::hardware_concurrency() noexcept { return 4; }
    condition_variable::condition_variable() noexcept {}
    condition_variable::~condition_variable() noexcept {}
    void condition_variable::wait(unique_lock<mutex> &l) { pthread_cond_wait(native_handle(), l.mutex()->native_handle()); }
    void condition_variable::notify_one() noexcept { pthread_cond_signal(native_handle()); }
    void condition_variable::notify_all() noexcept { pthread_cond_broadcast(native_handle()); }
    namespace chrono { inline namespace _V2 {
        static long sx_clock = 0;
        system_clock::time_point system_clock::now() noexcept { return time_point(duration(++sx_clock)); }
        steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(++sx_clock)); }
    } }
    __thread void *__once_callable; __thread void (*__once_call)();
}
extern "C" {
    void __once_proxy() { std::__once_call(); }
    int pthread_once(pthread_once_t *o, void (*f)()) { if (!*o) { f(); *o = 1; } return 0; }
    // another thread initialising the variable waits until it is done: a mutex named by the guard's address
    int __cxa_guard_acquire(long *g) { if (__atomic_load_n((char *) g, __ATOMIC_ACQUIRE)) return 0; pthread_mutex_lock((pthread_mutex_t *) g); if (!__atomic_load_n((char *) g, __ATOMIC_ACQUIRE)) return 1; pthread_mutex_unlock((pthread_mutex_t *) g); return 0; }
    void __cxa_guard_release(long *g) { __atomic_store_n((char *) g, 1, __ATOMIC_RELEASE); pthread_mutex_unlock((pthread_mutex_t *) g); }
    void __cxa_guard_abort(long *g) { pthread_mutex_unlock((pthread_mutex_t *) g); }
    char __libc_single_threaded = 1;
    void *__dso_handle = nullptr;
    // ------------------------------------------------------------ libc
    static int sx_errno_; int *__errno_location() noexcept { return &sx_errno_; }
    char *getenv(const char *) noexcept { return nullptr; }
    int strcmp(const char *a, const char *b) noexcept { while (*a && *a == *b) { ++a; ++b; } return (int) (unsigned char) *a - (int) (unsigned char) *b; }
    int strncmp(const char *a, const char *b, size_t n) noexcept { while (n && *a && *a == *b) { ++a; ++b; --n; } return n ? (int) (unsigned char) *a - (int) (unsigned char) *b : 0; }
    char *strcpy(char *d, const char *s) noexcept { char *r = d; while ((*d++ = *s++)) {} return r; }
    char *strncpy(char *d, const char *s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
    const void *sx_memchr(const void *p, int c, size_t n) { const unsigned char *q = (const unsigned char *) p; for (size_t i = 0; i < n; ++i) if (q[i] == (unsigned char) c) return q + i; return nullptr; }
    int tolower(int c) noexcept { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
    unsigned towlower(unsigned c) noexcept { return c >= 65 && c <= 90 ? c + 32 : c; }
    unsigned towupper(unsigned c) noexcept { return c >= 97 && c <= 122 ? c - 32 : c; }
    int toupper(int c) noexcept { return c >= 'a' && c <= 'z' ? c - 32 : c; }
    long __isoc23_strtol(const char *s, char **e, int base) noexcept { const char *p = s; while (*p == ' ') ++p; bool neg = false; if (*p == '-' || *p == '+') neg = *p++ == '-'; if (base == 16 && p[0] == '0' && p[1] == 'x') p += 2; long v = 0; bool any = false; for (;; ++p) { int d; if (*p >= '0' && *p <= '9') d = *p - '0'; else if (*p >= 'a' && *p <= 'f') d = *p - 'a' + 10; else if (*p >= 'A' && *p <= 'F') d = *p - 'A' + 10; else break; if (d >= base) break; v = v * base + d; any = true; } if (e) *e = (char *) (any ? p : s); return neg ? -v : v; }
    unsigned long __isoc23_strtoul(const char *s, char **e, int base) noexcept { return (unsigned long) __isoc23_strtol(s, e, base); }
    double strtod(const char *s, char **e) noexcept { const char *p = s; while (*p == ' ') ++p; bool neg = false; if (*p == '-' || *p == '+') neg = *p++ == '-'; double v = 0, sc = 0.1; bool any = false; while (*p >= '0' && *p <= '9') { v = v * 10 + (*p++ - '0'); any = true; } if (*p == '.') { ++p; while (*p >= '0' && *p <= '9') { v += sc * (*p++ - '0'); sc *= 0.1; any = true; } } if (e) *e = (char *) (any ? p : s); return neg ? -v : v; }
    int access(const char *, int) noexcept { return -1; }
    int mkdir(const char *, unsigned) noexcept { return -1; }
    time_t time(time_t *t) noexcept { static time_t c = 1000; ++c; if (t) *t = c; return c; }
    struct tm *localtime_r(const time_t *, struct tm *r) noexcept { memset(r, 0, sizeof *r); return r; }
    size_t strftime(char *s, size_t n, const char *, const struct tm *) noexcept { if (n) s[0] = 0; return 0; }
    char *__cxa_demangle(const char *, char *, size_t *, int *st) { if (st) *st = -1; return nullptr; }
    static int sx_round_ = 0;
    int fegetround() { return sx_round_; } int fesetround(int r) { sx_round_ = r; return 0; }
    long lrint(double x) { double y = sx_round_ == 0x800 ? __builtin_ceil(x) : sx_round_ == 0x400 ? __builtin_floor(x) : sx_round_ == 0xc00 ? __builtin_trunc(x) : __builtin_rint(x); return (long) y; }
    // ------------------------------------------------------------ files
    static std::map<std::string, std::string> *sx_fs;
    std::string *sxfs_open(const char *n, int mode) { if (!sx_fs) sx_fs = new std::map<std::string, std::string>(); auto it = sx_fs->find(n); if (mode == 1) return it == sx_fs->end() ? nullptr : &it->second; std::string &s = (*sx_fs)[n]; if (mode == 2) s.clear(); return &s; }
}
