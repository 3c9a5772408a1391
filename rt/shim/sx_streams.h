// Small header-only replacement for libstdc++'s iostreams, used only when the
// sources are compiled to bitcode for symbolic execution (the real library's
// streams live in a binary .so).  Formatting of symbolic numbers writes "?";
// files live in an in-memory table.
#pragma once
#include <iosfwd>
#include <string>
#include <cstring>
#include <cstdint>
#include <exception>
#include <type_traits>
extern "C" int sx_is_symbolic(unsigned long);
extern "C" std::string *sxfs_open(const char *name, int mode);  // 1 read, 2 write(trunc), 4 append
extern "C" unsigned long sxfs_fail(const char *op, const char *name);
namespace std {
    typedef long streamsize;
    typedef long streamoff;
    class ios_base {
    public:
        typedef unsigned openmode; typedef unsigned iostate; typedef unsigned fmtflags; typedef int seekdir;
        static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
        static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
        static constexpr seekdir beg = 0, cur = 1, end = 2;
        static constexpr fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256, showbase = 512, showpoint = 1024, uppercase = 2048, adjustfield = 32 | 128 | 16, basefield = 2 | 8 | 64, floatfield = 4 | 256;
        class Init {};
        class failure : public exception { public: const char *what() const noexcept override { return "ios failure"; } };
        iostate st_ = 0; fmtflags fl_ = dec; streamsize prec_ = 6, width_ = 0; char fill_ = ' ';
        fmtflags flags() const { return fl_; } fmtflags flags(fmtflags f) { auto o = fl_; fl_ = f; return o; }
        fmtflags setf(fmtflags f) { auto o = fl_; fl_ |= f; return o; } fmtflags setf(fmtflags f, fmtflags m) { auto o = fl_; fl_ = (fl_ & ~m) | (f & m); return o; } void unsetf(fmtflags f) { fl_ &= ~f; }
        streamsize precision() const { return prec_; } streamsize precision(streamsize p) { auto o = prec_; prec_ = p; return o; }
        streamsize width() const { return width_; } streamsize width(streamsize p) { auto o = width_; width_ = p; return o; }
        static bool sync_with_stdio(bool = true) { return true; }
    };
    template<typename C, typename T> class basic_ios : public ios_base {
    public:
        typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
        bool good() const { return st_ == 0; } bool eof() const { return st_ & eofbit; } bool fail() const { return st_ & (failbit | badbit); } bool bad() const { return st_ & badbit; }
        explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
        iostate rdstate() const { return st_; } void clear(iostate s = 0) { st_ = s; } void setstate(iostate s) { st_ |= s; }
        C fill() const { return fill_; } C fill(C c) { C o = fill_; fill_ = c; return o; }
        virtual ~basic_ios() {}
        basic_ios() {} basic_ios(basic_ios &&o) { st_ = o.st_; fl_ = o.fl_; } 
        basic_ios(const basic_ios &) = delete;
        basic_ios &operator=(basic_ios &&o) { st_ = o.st_; fl_ = o.fl_; return *this; }
    };
    template<typename C, typename T> class basic_streambuf { public: virtual ~basic_streambuf() {} };
    struct sx_sink { string *buf = nullptr; bool sink = true; size_t wpos = 0; };
    template<typename C, typename T> class basic_ostream : virtual public basic_ios<C, T> {
    public:
        string *wb_ = nullptr; size_t wp_ = 0; bool wover_ = false;  // wb_==nullptr: discards
        typedef basic_ostream<C, T> self;
        basic_ostream() {}
        basic_ostream(basic_ostream &&o) : wb_(o.wb_), wp_(o.wp_), wover_(o.wover_) {}
        self &write(const C *s, streamsize n) { if (this->fail()) return *this; if (!wb_) return *this; if (wover_ && wp_ < wb_->size()) { size_t k = wb_->size() - wp_; if (k > (size_t) n) k = (size_t) n; if (k) memcpy(&(*wb_)[wp_], s, k); if (k < (size_t) n) wb_->append(s + k, (size_t) n - k); } else wb_->append(s, (size_t) n); wp_ += (size_t) n; return *this; }
        self &put(C c) { return write(&c, 1); }
        self &flush() { return *this; }
        long tellp() { return (long) wp_; }
        self &seekp(long p) { wp_ = (size_t) p; wover_ = true; return *this; }
        self &seekp(long p, int d) { wp_ = d == 0 ? (size_t) p : d == 1 ? wp_ + (size_t) p : (wb_ ? wb_->size() : 0) + (size_t) p; wover_ = true; return *this; }
        self &padw(const char *s, size_t n) { if (this->width_ > (long) n) { string t; bool l = (this->fl_ & ios_base::left) != 0; if (l) t.append(s, n); for (long i = (long) n; i < this->width_; ++i) t += this->fill_; if (!l) t.append(s, n); this->width_ = 0; return write(t.data(), (long) t.size()); } this->width_ = 0; return write(s, (long) n); }
        self &putu(unsigned long v, bool neg, bool sym) {
            if (!wb_) return *this;
            if (sym) return padw("?", 1);
            char b[72]; int i = 72; if (this->fl_ & ios_base::hex) { do { unsigned d = v & 15; b[--i] = (char) (d < 10 ? '0' + d : ((this->fl_ & ios_base::uppercase) ? 'A' : 'a') + d - 10); v >>= 4; } while (v); if (this->fl_ & ios_base::showbase) { b[--i] = 'x'; b[--i] = '0'; } } else do { b[--i] = (char) ('0' + v % 10); v /= 10; } while (v); if (neg) b[--i] = '-'; return padw(b + i, (size_t) (72 - i)); }
        self &operator<<(bool v) { return putu(v, false, sx_is_symbolic(v)); }
        self &operator<<(short v) { return *this << (long) v; } self &operator<<(unsigned short v) { return *this << (unsigned long) v; }
        self &operator<<(int v) { return *this << (long) v; } self &operator<<(unsigned v) { return *this << (unsigned long) v; }
        self &operator<<(long v) { if (!wb_) return *this; if (sx_is_symbolic((unsigned long) v)) return padw("?", 1); return putu(v < 0 ? 0ul - (unsigned long) v : (unsigned long) v, v < 0, false); }
        self &operator<<(unsigned long v) { return putu(v, false, sx_is_symbolic(v)); }
        self &operator<<(long long v) { return *this << (long) v; } self &operator<<(unsigned long long v) { return *this << (unsigned long) v; }
        self &operator<<(double) { return padw("<float>", 7); } self &operator<<(float) { return padw("<float>", 7); } self &operator<<(long double) { return padw("<float>", 7); }
        self &operator<<(const void *) { return padw("<ptr>", 5); }
        self &operator<<(basic_streambuf<C, T> *) { return *this; }
        self &operator<<(self &(*f)(self &)) { return f(*this); }
        self &operator<<(basic_ios<C, T> &(*f)(basic_ios<C, T> &)) { f(*this); return *this; }
        self &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
    private:
    };
    template<typename T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const char *s) { if (!o.wb_) return o; return o.padw(s, strlen(s)); }
    template<typename T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, char c) { return o.padw(&c, 1); }
    template<typename T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, signed char c) { char d = (char) c; return o.padw(&d, 1); }
    template<typename T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, unsigned char c) { char d = (char) c; return o.padw(&d, 1); }
    template<typename C, typename T> basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { return o.put('\n'); }
    template<typename C, typename T> basic_ostream<C, T> &ends(basic_ostream<C, T> &o) { return o.put('\0'); }
    template<typename C, typename T> basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o; }
    template<typename OS, typename X, typename = typename enable_if<!is_lvalue_reference<OS>::value && is_base_of<ios_base, OS>::value>::type> OS &&operator<<(OS &&o, const X &x) { o << x; return (OS &&) o; }

    template<typename C, typename T> class basic_istream : virtual public basic_ios<C, T> {
    public:
        string *rb_ = nullptr; size_t rp_ = 0; streamsize gc_ = 0; typedef basic_istream<C, T> self; typedef typename T::int_type int_type;
        basic_istream() {}
        basic_istream(basic_istream &&o) : rb_(o.rb_), rp_(o.rp_), gc_(o.gc_) {}
        self &read(C *s, streamsize n) { gc_ = 0; if (!this->good()) { this->st_ |= ios_base::failbit; return *this; } size_t a = rb_ && rp_ < rb_->size() ? rb_->size() - rp_ : 0; size_t k = (size_t) n < a ? (size_t) n : a; if (k) memcpy(s, rb_->data() + rp_, k); rp_ += k; gc_ = (streamsize) k; if (k < (size_t) n) this->st_ |= ios_base::eofbit | ios_base::failbit; return *this; }
        streamsize gcount() const { return gc_; }
        int_type get() { C c; gc_ = 0; if (!this->good() || !rb_ || rp_ >= rb_->size()) { this->st_ |= ios_base::eofbit | ios_base::failbit; return T::eof(); } c = (*rb_)[rp_++]; gc_ = 1; return T::to_int_type(c); }
        self &get(C &c) { auto i = get(); if (i != T::eof()) c = (C) i; return *this; }
        int_type peek() { if (!this->good()) return T::eof(); if (!rb_ || rp_ >= rb_->size()) { this->st_ |= ios_base::eofbit; return T::eof(); } return T::to_int_type((*rb_)[rp_]); }
        self &ignore(streamsize n = 1) { while (n-- > 0) get(); return *this; }
        long tellg() { if (this->fail()) return -1; return (long) rp_; }
        self &seekg(long p) { this->st_ &= ~ios_base::eofbit; if (this->fail()) return *this; rp_ = (size_t) p; return *this; }
        self &seekg(long p, int d) { this->st_ &= ~ios_base::eofbit; if (this->fail()) return *this; rp_ = (size_t) ((d == 0 ? 0 : d == 1 ? (long) rp_ : rb_ ? (long) rb_->size() : 0) + p); return *this; }
        bool ws_() { while (rb_ && rp_ < rb_->size()) { char c = (*rb_)[rp_]; if (c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\v' || c == '\f') rp_++; else return true; } this->st_ |= ios_base::eofbit | ios_base::failbit; return false; }
        self &operator>>(string &s) { s.clear(); if (!this->good()) { this->st_ |= ios_base::failbit; return *this; } if (!ws_()) return *this; while (rp_ < rb_->size()) { char c = (*rb_)[rp_]; if (c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\v' || c == '\f') return *this; s += c; rp_++; } this->st_ |= ios_base::eofbit; return *this; }
        bool num_(unsigned long &v, bool &neg) { if (!this->good()) { this->st_ |= ios_base::failbit; return false; } if (!ws_()) return false; neg = false; if ((*rb_)[rp_] == '-' || (*rb_)[rp_] == '+') { neg = (*rb_)[rp_] == '-'; rp_++; } bool any = false; v = 0; while (rp_ < rb_->size() && (*rb_)[rp_] >= '0' && (*rb_)[rp_] <= '9') { v = v * 10 + (unsigned long) ((*rb_)[rp_] - '0'); rp_++; any = true; } if (rp_ >= rb_->size()) this->st_ |= ios_base::eofbit; if (!any) this->st_ |= ios_base::failbit; return any; }
        template<typename I> typename enable_if<is_integral<I>::value && !is_same<I, char>::value, self &>::type operator>>(I &x) { unsigned long v; bool n; if (num_(v, n)) x = n ? (I) -(long) v : (I) v; else x = 0; return *this; }
        template<typename I> typename enable_if<is_floating_point<I>::value, self &>::type operator>>(I &x) { unsigned long v; bool n; if (num_(v, n)) { double d = (double) v; if (rp_ < rb_->size() && (*rb_)[rp_] == '.') { rp_++; double s = 0.1; while (rp_ < rb_->size() && (*rb_)[rp_] >= '0' && (*rb_)[rp_] <= '9') { d += s * ((*rb_)[rp_] - '0'); s *= 0.1; rp_++; } if (rp_ >= rb_->size()) this->st_ |= ios_base::eofbit; } x = (I) (n ? -d : d); } else x = 0; return *this; }
        self &operator>>(char &c) { if (this->good() && ws_()) c = (*rb_)[rp_++]; return *this; }
        self &operator>>(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
    };
    template<typename C, typename T> basic_istream<C, T> &ws(basic_istream<C, T> &i) { i.ws_(); return i; }
    inline istream &getline(istream &i, string &s, char d) { typedef char C; s.clear(); if (!i.good()) { i.st_ |= ios_base::failbit; return i; } bool any = false; while (i.rb_ && i.rp_ < i.rb_->size()) { C c = (*i.rb_)[i.rp_++]; any = true; if (c == d) return i; s += c; } i.st_ |= ios_base::eofbit; if (!any) i.st_ |= ios_base::failbit; return i; }
    inline istream &getline(istream &i, string &s) { return getline(i, s, '\n'); }
    template<typename C, typename T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { public: };
_GLIBCXX_BEGIN_NAMESPACE_CXX11
    template<typename C, typename T, typename A> class basic_ostringstream : public basic_ostream<C, T> {
        string b_;
    public:
        basic_ostringstream() { this->wb_ = &b_; } explicit basic_ostringstream(unsigned) { this->wb_ = &b_; } explicit basic_ostringstream(const string &s, unsigned = 0) : b_(s) { this->wb_ = &b_; this->wover_ = true; }
        basic_ostringstream(basic_ostringstream &&o) : b_((string &&) o.b_) { this->wb_ = &b_; this->wp_ = o.wp_; }
        string str() const { return b_; } void str(const string &s) { b_ = s; this->wp_ = 0; this->wover_ = true; }
    };
    template<typename C, typename T, typename A> class basic_istringstream : public basic_istream<C, T> {
        string b_;
    public:
        basic_istringstream() { this->rb_ = &b_; } explicit basic_istringstream(const string &s, unsigned = 0) : b_(s) { this->rb_ = &b_; }
        string str() const { return b_; } void str(const string &s) { b_ = s; this->rp_ = 0; }
    };
    template<typename C, typename T, typename A> class basic_stringstream : public basic_iostream<C, T> {
        string b_;
    public:
        basic_stringstream() { this->wb_ = &b_; this->rb_ = &b_; } explicit basic_stringstream(unsigned) { this->wb_ = &b_; this->rb_ = &b_; } explicit basic_stringstream(const string &s, unsigned = 0) : b_(s) { this->wb_ = &b_; this->rb_ = &b_; this->wover_ = true; }
        string str() const { return b_; } void str(const string &s) { b_ = s; this->rp_ = 0; this->wp_ = 0; this->wover_ = true; }
    };
_GLIBCXX_END_NAMESPACE_CXX11
    template<typename C, typename T> class basic_ofstream : public basic_ostream<C, T> {
        bool open_ = false;
    public:
        basic_ofstream() {} explicit basic_ofstream(const string &n, unsigned m = ios_base::out) { open(n, m); } explicit basic_ofstream(const char *n, unsigned m = ios_base::out) { open(n, m); }
        void open(const string &n, unsigned m = ios_base::out) { open(n.c_str(), m); }
        void open(const char *n, unsigned m = ios_base::out) { this->wb_ = sxfs_open(n, (m & ios_base::app) ? 4 : 2); if (!this->wb_) { this->st_ |= ios_base::failbit; return; } open_ = true; this->wp_ = this->wb_->size(); }
        bool is_open() const { return open_; } void close() { if (!open_) this->st_ |= ios_base::failbit; open_ = false; this->wb_ = nullptr; }
    };
    template<typename C, typename T> class basic_ifstream : public basic_istream<C, T> {
        bool open_ = false;
    public:
        basic_ifstream() {} explicit basic_ifstream(const string &n, unsigned m = ios_base::in) { open(n, m); } explicit basic_ifstream(const char *n, unsigned m = ios_base::in) { open(n, m); }
        void open(const string &n, unsigned m = ios_base::in) { open(n.c_str(), m); }
        void open(const char *n, unsigned m = ios_base::in) { this->rb_ = sxfs_open(n, 1); this->rp_ = 0; if (!this->rb_) { this->st_ |= ios_base::failbit; return; } open_ = true; if (m & ios_base::ate) this->rp_ = this->rb_->size(); }
        bool is_open() const { return open_; } void close() { if (!open_) this->st_ |= ios_base::failbit; open_ = false; this->rb_ = nullptr; }
    };
    template<typename C, typename T> class basic_fstream : public basic_iostream<C, T> {
        bool open_ = false;
    public:
        basic_fstream() {} explicit basic_fstream(const string &n, unsigned m = ios_base::in | ios_base::out) { open(n.c_str(), m); }
        void open(const string &n, unsigned m = ios_base::in | ios_base::out) { open(n.c_str(), m); }
        void open(const char *n, unsigned m = ios_base::in | ios_base::out) { string *f = sxfs_open(n, (m & ios_base::app) ? 4 : ((m & ios_base::out) && ((m & ios_base::trunc) || !(m & ios_base::in))) ? 2 : 1); if (!f) { this->st_ |= ios_base::failbit; return; } open_ = true; if (m & ios_base::in) this->rb_ = f; if (m & ios_base::out) this->wb_ = f; this->rp_ = 0; this->wp_ = 0; this->wover_ = true; }
        bool is_open() const { return open_; } void close() { if (!open_) this->st_ |= ios_base::failbit; open_ = false; this->rb_ = this->wb_ = nullptr; }
    };
    extern ostream cout, cerr, clog; extern istream cin;
    inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; } inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; } inline ios_base &fixed(ios_base &b) { return b; } inline ios_base &boolalpha(ios_base &b) { return b; } inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; } inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; } inline ios_base &scientific(ios_base &b) { return b; } inline ios_base &uppercase(ios_base &b) { b.setf(ios_base::uppercase); return b; } inline ios_base &showbase(ios_base &b) { b.setf(ios_base::showbase); return b; } inline ios_base &noshowbase(ios_base &b) { return b; } inline ios_base &skipws(ios_base &b) { return b; } inline ios_base &noskipws(ios_base &b) { return b; }
    struct sx_setw { int n; }; inline sx_setw setw(int n) { return {n}; } struct sx_setp { int n; }; inline sx_setp setprecision(int n) { return {n}; } struct sx_setf { char c; }; template<typename X> inline sx_setf setfill(X c) { return {(char) c}; }
    template<typename T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, sx_setw s) { o.width(s.n); return o; }
    template<typename T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, sx_setp s) { o.precision(s.n); return o; }
    template<typename T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, sx_setf s) { o.fill(s.c); return o; }
}
