// Stand-in for the iostream part of libstdc++, small enough to be executed symbolically.  Strings, containers,
// exceptions and algorithms stay the real libstdc++ ones.  Only what "C" locale text streams need is provided.
#pragma once
#include <stdint.h>
#include <iosfwd>
#include <string>
#include <exception>
#include <bits/postypes.h>
extern "C" {
int sxm_digits(uint64_t m, char* end);
// formatting and parsing services of the runtime model
int sxm_fmt_double(char* buf, size_t cap, double v, int conv, int prec, int flags);
bool sxm_parse_double(const char* s, size_t n, double* out);
int sxm_parse_int(const char* s, size_t n, bool neg_ok, uint64_t lo_mag, uint64_t hi_mag, int64_t* out);
void* sxfs_open(const char* path, int rd, int wr, int app, int trunc);
size_t sxfs_len(void* f);
char sxfs_get(void* f, size_t i);
bool sxfs_isdir(void* f);
void sxfs_write(void* f, size_t pos, const char* p, size_t n);
}
namespace std {
class ios_base {
public:
    typedef unsigned fmtflags; typedef int iostate; typedef int openmode; typedef int seekdir;
    static const fmtflags dec = 1, oct = 2, hex = 4, fixed = 8, scientific = 16, left = 32, right = 64, internal = 128,
        boolalpha = 256, showpoint = 512, showpos = 1024, uppercase = 2048, skipws = 4096, showbase = 8192, unitbuf = 16384,
        basefield = 7, floatfield = 24, adjustfield = 224;
    static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
    static const openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
    static const seekdir beg = 0, cur = 1, end = 2;
    class failure : public exception { public: const char* what() const noexcept override { return "ios"; } };
    ios_base() : fl_(dec | skipws), prec_(6), width_(0), st_(0) {}
    virtual ~ios_base() {}
    fmtflags flags() const { return fl_; }
    fmtflags flags(fmtflags f) { fmtflags o = fl_; fl_ = f; return o; }
    fmtflags setf(fmtflags f) { fmtflags o = fl_; fl_ |= f; return o; }
    fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl_; fl_ = (fl_ & ~m) | (f & m); return o; }
    void unsetf(fmtflags f) { fl_ &= ~f; }
    streamsize precision() const { return prec_; }
    streamsize precision(streamsize p) { streamsize o = prec_; prec_ = p; return o; }
    streamsize width() const { return width_; }
    streamsize width(streamsize w) { streamsize o = width_; width_ = w; return o; }
    static bool sync_with_stdio(bool = true) { return true; }
protected:
    fmtflags fl_; streamsize prec_, width_; iostate st_;
};
template <> class basic_ios<char, char_traits<char>> : public ios_base {
public:
    basic_ios() : fill_(' ') {}
    iostate rdstate() const { return st_; }
    void clear(iostate s = 0) { st_ = s; }
    void setstate(iostate s) { if (st_ & badbit) s &= ~eofbit; st_ |= s; }
    bool good() const { return st_ == 0; }
    bool eof() const { return (st_ & eofbit) != 0; }
    bool fail() const { return (st_ & (failbit | badbit)) != 0; }
    bool bad() const { return (st_ & badbit) != 0; }
    bool operator!() const { return fail(); }
    explicit operator bool() const { return !fail(); }
    char fill() const { return fill_; }
    char fill(char c) { char o = fill_; fill_ = c; return o; }
    iostate exceptions() const { return 0; }
    void exceptions(iostate) {}
    basic_ios* tie(basic_ios*) { return nullptr; }
protected:
    char fill_;
};
template <> class basic_ostream<char, char_traits<char>> : virtual public basic_ios<char, char_traits<char>> {
public:
    typedef basic_ostream self;
    virtual void sxput(const char*, size_t) {}        // default sink: discard (standard output)
    virtual long sxtellp() { return -1; }
    virtual void sxseekp(long) {}
    self& write(const char* p, streamsize n) { if (good()) sxput(p, n); return *this; }
    self& put(char c) { if (good()) sxput(&c, 1); return *this; }
    self& flush() { return *this; }
    streampos tellp() { return streampos(sxtellp()); }
    self& seekp(streampos p) { sxseekp(streamoff(p)); return *this; }
    void sxout(const char* p, size_t n) {
        if (!good()) return;
        size_t w = width_ > 0 ? (size_t)width_ : 0;
        width_ = 0;
        if (n >= w) { sxput(p, n); return; }
        bool l = (fl_ & adjustfield) == left;
        if (l) sxput(p, n);
        for (size_t i = n; i < w; i++) sxput(&fill_, 1);
        if (!l) sxput(p, n);
    }
    self& sxint(uint64_t mag, bool neg, bool sgn) {
        char b[72]; int i = 72;
        unsigned base = (fl_ & basefield) == hex ? 16 : (fl_ & basefield) == oct ? 8 : 10;
        if (base == 10) i -= sxm_digits(mag, b + i);
        else do { unsigned d = (unsigned)(mag % base); b[--i] = (char)(d < 10 ? '0' + d : ((fl_ & uppercase) ? 'A' : 'a') + d - 10); mag /= base; } while (mag);
        if (sgn && base == 10) { if (neg) b[--i] = '-'; else if (fl_ & showpos) b[--i] = '+'; }
        sxout(b + i, 72 - i);
        return *this;
    }
    self& sxdbl(double v) {
        if (!good()) return *this;
        char b[420];
        fmtflags ff = fl_ & floatfield;
        int conv = ff == fixed ? 'f' : ff == scientific ? 'e' : 'g';
        int n = sxm_fmt_double(b, sizeof b, v, conv, (int)prec_, (fl_ & showpoint ? 1 : 0) | (fl_ & showpos ? 2 : 0) | (fl_ & uppercase ? 4 : 0));
        sxout(b, n);
        return *this;
    }
    self& operator<<(bool v) { if (fl_ & boolalpha) { if (v) sxout("true", 4); else sxout("false", 5); return *this; } return sxint(v, false, true); }
    self& operator<<(short v) { return sxsgn(v, (unsigned short)v); }
    self& operator<<(unsigned short v) { return sxint(v, false, false); }
    self& operator<<(int v) { return sxsgn(v, (unsigned)v); }
    self& operator<<(unsigned v) { return sxint(v, false, false); }
    self& operator<<(long v) { return sxsgn(v, (unsigned long)v); }
    self& operator<<(unsigned long v) { return sxint(v, false, false); }
    self& operator<<(long long v) { return sxsgn(v, (unsigned long long)v); }
    self& operator<<(unsigned long long v) { return sxint(v, false, false); }
    self& operator<<(float v) { return sxdbl((double)v); }
    self& operator<<(double v) { return sxdbl(v); }
    self& operator<<(long double v) { return sxdbl((double)v); }
    self& operator<<(const void* p) { sxout("0x0", 3); (void)p; return *this; }
    self& operator<<(nullptr_t) { sxout("nullptr", 7); return *this; }
    self& operator<<(self& (*m)(self&)) { return m(*this); }
    self& operator<<(ios_base& (*m)(ios_base&)) { m(*this); return *this; }
    self& operator<<(basic_ios<char, char_traits<char>>& (*m)(basic_ios<char, char_traits<char>>&)) { m(*this); return *this; }
private:
    self& sxsgn(int64_t v, uint64_t asuns) {
        bool dec10 = (fl_ & basefield) != hex && (fl_ & basefield) != oct;
        if (!dec10) return sxint(asuns, false, true);
        return v < 0 ? sxint(0 - (uint64_t)v, true, true) : sxint((uint64_t)v, false, true);
    }
};
inline ostream& operator<<(ostream& o, char c) { o.sxout(&c, 1); return o; }
inline ostream& operator<<(ostream& o, signed char c) { char d = c; o.sxout(&d, 1); return o; }
inline ostream& operator<<(ostream& o, unsigned char c) { char d = c; o.sxout(&d, 1); return o; }
inline ostream& operator<<(ostream& o, const char* s) { if (!s) { o.setstate(ios_base::badbit); return o; } o.sxout(s, __builtin_strlen(s)); return o; }
inline ostream& operator<<(ostream& o, const signed char* s) { return o << (const char*)s; }
inline ostream& operator<<(ostream& o, const unsigned char* s) { return o << (const char*)s; }
inline ostream& operator<<(ostream& o, const string& s) { o.sxout(s.data(), s.size()); return o; }
inline ostream& endl(ostream& o) { o.put('\n'); return o; }
inline ostream& ends(ostream& o) { o.put('\0'); return o; }
inline ostream& flush(ostream& o) { return o; }
inline ios_base& fixed(ios_base& b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base& scientific(ios_base& b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base& defaultfloat(ios_base& b) { b.unsetf(ios_base::floatfield); return b; }
inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base& oct(ios_base& b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base& left(ios_base& b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base& right(ios_base& b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base& boolalpha(ios_base& b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base& noboolalpha(ios_base& b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base& showpoint(ios_base& b) { b.setf(ios_base::showpoint); return b; }
inline ios_base& noshowpoint(ios_base& b) { b.unsetf(ios_base::showpoint); return b; }
inline ios_base& showpos(ios_base& b) { b.setf(ios_base::showpos); return b; }
inline ios_base& uppercase(ios_base& b) { b.setf(ios_base::uppercase); return b; }
inline ios_base& skipws(ios_base& b) { b.setf(ios_base::skipws); return b; }
inline ios_base& noskipws(ios_base& b) { b.unsetf(ios_base::skipws); return b; }
struct sx_setp { int n; }; struct sx_setw { int n; }; struct sx_fill { char c; }; struct sx_base { int b; }; struct sx_sf { ios_base::fmtflags f; };
inline sx_setp setprecision(int n) { return sx_setp{n}; }
inline sx_setw setw(int n) { return sx_setw{n}; }
inline sx_fill setfill(char c) { return sx_fill{c}; }
inline sx_base setbase(int b) { return sx_base{b}; }
inline sx_sf setiosflags(ios_base::fmtflags f) { return sx_sf{f}; }
inline ostream& operator<<(ostream& o, sx_setp p) { o.precision(p.n); return o; }
inline ostream& operator<<(ostream& o, sx_setw p) { o.width(p.n); return o; }
inline ostream& operator<<(ostream& o, sx_fill p) { o.fill(p.c); return o; }
inline ostream& operator<<(ostream& o, sx_sf p) { o.setf(p.f); return o; }
inline ostream& operator<<(ostream& o, sx_base p) { o.setf(p.b == 16 ? ios_base::hex : p.b == 8 ? ios_base::oct : ios_base::dec, ios_base::basefield); return o; }

inline bool sx_isws(char c) { return (c == ' ') | ((c >= '\t') & (c <= '\r')); }

template <> class basic_istream<char, char_traits<char>> : virtual public basic_ios<char, char_traits<char>> {
public:
    typedef basic_istream self;
    basic_istream() : gc_(0) {}
    virtual int sxpeek() { return -1; }               // next character or -1
    virtual void sxnext() {}
    virtual long sxtell() { return -1; }
    virtual void sxseek(long, int) {}
    bool sxprefix(bool noskip = false) {              // sentry
        if (!good()) { setstate(failbit); return false; }
        if (!noskip && (fl_ & skipws)) {
            for (;;) {
                int c = sxpeek();
                if (c < 0) { setstate(eofbit | failbit); return false; }
                if (!sx_isws((char)c)) break;
                sxnext();
            }
        }
        return true;
    }
    int get() {
        gc_ = 0;
        if (!sxprefix(true)) return -1;
        int c = sxpeek();
        if (c < 0) { setstate(eofbit | failbit); return -1; }
        sxnext(); gc_ = 1;
        return c;
    }
    self& get(char& c) { int x = get(); if (x >= 0) c = (char)x; return *this; }
    int peek() { gc_ = 0; if (!good()) return -1; int c = sxpeek(); if (c < 0) setstate(eofbit); return c; }
    self& ignore(streamsize n = 1, int d = -1) {
        gc_ = 0;
        if (!sxprefix(true)) return *this;
        while (gc_ < n) { int c = sxpeek(); if (c < 0) { setstate(eofbit); break; } sxnext(); gc_++; if (c == d) break; }
        return *this;
    }
    self& read(char* p, streamsize n) {
        gc_ = 0;
        if (!sxprefix(true)) return *this;
        while (gc_ < n) { int c = sxpeek(); if (c < 0) { setstate(eofbit | failbit); break; } p[gc_++] = (char)c; sxnext(); }
        return *this;
    }
    self& getline(char* p, streamsize n, char d = '\n') {
        gc_ = 0;
        streamsize k = 0;
        if (sxprefix(true)) {
            for (;;) {
                int c = sxpeek();
                if (c < 0) { setstate(eofbit); break; }
                if ((char)c == d) { sxnext(); gc_++; break; }
                if (k + 1 >= n) { setstate(failbit); break; }
                p[k++] = (char)c; sxnext(); gc_++;
            }
        }
        if (n > 0) p[k] = 0;
        if (gc_ == 0) setstate(failbit);
        return *this;
    }
    streamsize gcount() const { return gc_; }
    streampos tellg() { return streampos(fail() ? -1 : sxtell()); }
    self& seekg(streampos p) { st_ &= ~eofbit; if (!fail()) sxseek(streamoff(p), 0); return *this; }
    self& seekg(streamoff p, ios_base::seekdir d) { st_ &= ~eofbit; if (!fail()) sxseek(p, d); return *this; }
    template <class F> void sxtoken(string& tok, F ok) {
        for (;;) {
            int c = sxpeek();
            if (c < 0) { setstate(eofbit); return; }
            if (!ok((char)c)) return;
            tok.push_back((char)c); sxnext();
        }
    }
    // numbers, decimal only
    self& sxreadint(int64_t& v, bool neg_ok, uint64_t lom, uint64_t him, bool* did = nullptr) {
        if (!sxprefix()) return *this;
        if (did) *did = true;
        string tok;
        int c = sxpeek();
        if (c == '-' || c == '+') { tok.push_back((char)c); sxnext(); }
        sxtoken(tok, [](char x) { return x >= '0' && x <= '9'; });
        int r = sxm_parse_int(tok.data(), tok.size(), neg_ok, lom, him, &v);
        if (r != 0) setstate(failbit);
        return *this;
    }
    self& operator>>(int& x) { int64_t v = 0; bool g = false; sxreadint(v, true, 1ull << 31, (1ull << 31) - 1, &g); if (g) x = (int)v; return *this; }
    self& operator>>(long& x) { int64_t v = 0; bool g = false; sxreadint(v, true, 1ull << 63, (1ull << 63) - 1, &g); if (g) x = (long)v; return *this; }
    self& operator>>(long long& x) { int64_t v = 0; bool g = false; sxreadint(v, true, 1ull << 63, (1ull << 63) - 1, &g); if (g) x = v; return *this; }
    self& operator>>(short& x) { int64_t v = 0; bool g = false; sxreadint(v, true, 32768, 32767, &g); if (g) x = (short)v; return *this; }
    self& operator>>(unsigned& x) { int64_t v = 0; bool g = false; sxreadint(v, true, 0xffffffffull, 0xffffffffull, &g); if (g) x = (unsigned)v; return *this; }
    self& operator>>(unsigned long& x) { int64_t v = 0; bool g = false; sxreadint(v, true, ~0ull, ~0ull, &g); if (g) x = (unsigned long)v; return *this; }
    self& operator>>(double& x) {
        if (!sxprefix()) return *this;
        string tok;
        // libstdc++ accumulates sign, digits, point, digits, exponent greedily
        int c = sxpeek();
        if (c == '-' || c == '+') { tok.push_back((char)c); sxnext(); }
        bool dot = false, ex = false, dig = false;
        for (;;) {
            c = sxpeek();
            if (c < 0) { setstate(eofbit); break; }
            if (c >= '0' && c <= '9') { dig = true; }
            else if (c == '.' && !dot && !ex) dot = true;
            else if ((c == 'e' || c == 'E') && !ex && dig) {
                ex = true; tok.push_back((char)c); sxnext();
                c = sxpeek();
                if (c == '-' || c == '+') { tok.push_back((char)c); sxnext(); }
                else if (c < 0) { setstate(eofbit); break; }
                continue;
            } else break;
            tok.push_back((char)c); sxnext();
        }
        double v = 0;
        if (!sxm_parse_double(tok.data(), tok.size(), &v)) { setstate(failbit); x = 0; return *this; }
        x = v;
        return *this;
    }
    self& operator>>(float& x) { double v = (double)x; *this >> v; x = (float)v; return *this; }
    self& operator>>(bool& x) { int64_t v = 0; sxreadint(v, true, 1ull << 31, (1ull << 31) - 1); x = v != 0; return *this; }
    self& operator>>(self& (*m)(self&)) { return m(*this); }
    self& operator>>(ios_base& (*m)(ios_base&)) { m(*this); return *this; }
    streamsize gc_;
};
inline istream& operator>>(istream& i, char& c) { if (i.sxprefix()) { c = (char)i.sxpeek(); i.sxnext(); } return i; }
inline istream& operator>>(istream& i, string& s) {
    if (!i.sxprefix()) return i;
    s.clear();
    size_t w = i.width() > 0 ? (size_t)i.width() : ~(size_t)0;
    i.width(0);
    size_t n = 0;
    while (n < w) {
        int c = i.sxpeek();
        if (c < 0) { i.setstate(ios_base::eofbit); break; }
        if (sx_isws((char)c)) break;
        s.push_back((char)c); i.sxnext(); n++;
    }
    if (!n) i.setstate(ios_base::failbit);
    return i;
}
inline istream& operator>>(istream& i, char* p) { string s; i >> s; __builtin_memcpy(p, s.c_str(), s.size() + 1); return i; }
inline istream& ws(istream& i) { for (;;) { int c = i.sxpeek(); if (c < 0) { i.setstate(ios_base::eofbit); break; } if (!sx_isws((char)c)) break; i.sxnext(); } return i; }
inline istream& getline(istream& i, string& s, char d) {
    if (!i.sxprefix(true)) return i;
    s.clear();
    size_t n = 0;
    for (;;) {
        int c = i.sxpeek();
        if (c < 0) { i.setstate(ios_base::eofbit); break; }
        i.sxnext(); n++;
        if ((char)c == d) return i;
        s.push_back((char)c);
    }
    if (!n) i.setstate(ios_base::failbit);
    return i;
}
inline istream& getline(istream& i, string& s) { return getline(i, s, '\n'); }
inline istream& getline(istream&& i, string& s, char d) { return getline(i, s, d); }
inline istream& getline(istream&& i, string& s) { return getline(i, s, '\n'); }

template <> class basic_iostream<char, char_traits<char>> : public basic_istream<char, char_traits<char>>, public basic_ostream<char, char_traits<char>> {
};
// ---- string streams
template <> class basic_istringstream<char, char_traits<char>, allocator<char>> : public istream {
public:
    explicit basic_istringstream(const string& s, openmode = in) : b_(s), p_(0) {}
    explicit basic_istringstream(openmode = in) : p_(0) {}
    int sxpeek() override { return p_ < b_.size() ? (int)(unsigned char)b_[p_] : -1; }
    void sxnext() override { p_++; }
    long sxtell() override { return (long)p_; }
    void sxseek(long o, int d) override { p_ = d == 0 ? o : d == 1 ? p_ + o : b_.size() + o; }
    string str() const { return b_; }
    void str(const string& s) { b_ = s; p_ = 0; }
private:
    string b_; size_t p_;
};
template <> class basic_ostringstream<char, char_traits<char>, allocator<char>> : public ostream {
public:
    explicit basic_ostringstream(openmode = out) {}
    explicit basic_ostringstream(const string& s, openmode m = out) { if (m & (app | ate)) b_ = s; else b_ = s; over_ = !(m & (app | ate)); }
    void sxput(const char* p, size_t n) override {
        if (over_) { for (size_t i = 0; i < n; i++) { if (pos_ < b_.size()) b_[pos_] = p[i]; else b_.push_back(p[i]); pos_++; } return; }
        b_.append(p, n);
    }
    long sxtellp() override { return (long)(over_ ? pos_ : b_.size()); }
    string str() const { return b_; }
    void str(const string& s) { b_ = s; over_ = true; pos_ = 0; }
private:
    string b_; bool over_ = false; size_t pos_ = 0;
};
template <> class basic_stringstream<char, char_traits<char>, allocator<char>> : public iostream {
public:
    explicit basic_stringstream(openmode = in | out) {}
    explicit basic_stringstream(const string& s, openmode = in | out) : b_(s) {}
    int sxpeek() override { return p_ < b_.size() ? (int)(unsigned char)b_[p_] : -1; }
    void sxnext() override { p_++; }
    long sxtell() override { return (long)p_; }
    void sxseek(long o, int d) override { p_ = d == 0 ? o : d == 1 ? p_ + o : b_.size() + o; }
    void sxput(const char* p, size_t n) override { for (size_t i = 0; i < n; i++) { if (w_ < b_.size()) b_[w_] = p[i]; else b_.push_back(p[i]); w_++; } }
    long sxtellp() override { return (long)w_; }
    string str() const { return b_; }
    void str(const string& s) { b_ = s; p_ = 0; w_ = 0; }
private:
    string b_; size_t p_ = 0, w_ = 0;
};
// ---- file streams on the in-memory file system
template <> class basic_ifstream<char, char_traits<char>> : public istream {
public:
    basic_ifstream() {}
    explicit basic_ifstream(const char* p, openmode m = in) { open(p, m); }
    explicit basic_ifstream(const string& p, openmode m = in) { open(p.c_str(), m); }
    void open(const char* p, openmode = in) { if (f_) { setstate(failbit); return; } f_ = sxfs_open(p, 1, 0, 0, 0); p_ = 0; if (f_) clear(); else setstate(failbit); }
    void open(const string& p, openmode m = in) { open(p.c_str(), m); }
    bool is_open() const { return f_ != nullptr; }
    void close() { if (!f_) setstate(failbit); f_ = nullptr; }
    int sxpeek() override { if (f_ && sxfs_isdir(f_)) { setstate(badbit); return -1; } return f_ && p_ < sxfs_len(f_) ? (int)(unsigned char)sxfs_get(f_, p_) : -1; }
    void sxnext() override { p_++; }
    long sxtell() override { return (long)p_; }
    void sxseek(long o, int d) override { p_ = d == 0 ? o : d == 1 ? p_ + o : sxfs_len(f_) + o; }
private:
    void* f_ = nullptr; size_t p_ = 0;
};
template <> class basic_ofstream<char, char_traits<char>> : public ostream {
public:
    basic_ofstream() {}
    explicit basic_ofstream(const char* p, openmode m = out) { open(p, m); }
    explicit basic_ofstream(const string& p, openmode m = out) { open(p.c_str(), m); }
    void open(const char* p, openmode m = out) {
        if (f_) { setstate(failbit); return; }
        f_ = sxfs_open(p, 0, 1, (m & app) != 0, !(m & app) && !(m & in));
        p_ = f_ && (m & (app | ate)) ? sxfs_len(f_) : 0;
        if (f_) clear(); else setstate(failbit);
    }
    void open(const string& p, openmode m = out) { open(p.c_str(), m); }
    bool is_open() const { return f_ != nullptr; }
    void close() { if (!f_) setstate(failbit); f_ = nullptr; }
    void sxput(const char* p, size_t n) override { if (!f_) { setstate(badbit); return; } sxfs_write(f_, p_, p, n); p_ += n; }
    long sxtellp() override { return (long)p_; }
private:
    void* f_ = nullptr; size_t p_ = 0;
};
template <> class basic_fstream<char, char_traits<char>> : public iostream {
public:
    basic_fstream() {}
    explicit basic_fstream(const char* p, openmode m = in | out) { open(p, m); }
    explicit basic_fstream(const string& p, openmode m = in | out) { open(p.c_str(), m); }
    void open(const char* p, openmode m = in | out) {
        if (f_) { setstate(failbit); return; }
        bool rd = (m & in) != 0, wr = (m & (out | app)) != 0;
        f_ = sxfs_open(p, rd, wr, (m & app) != 0, (m & trunc) || (!rd && !(m & app)));
        p_ = f_ && (m & (app | ate)) ? sxfs_len(f_) : 0;
        if (f_) clear(); else setstate(failbit);
    }
    void open(const string& p, openmode m = in | out) { open(p.c_str(), m); }
    bool is_open() const { return f_ != nullptr; }
    void close() { if (!f_) setstate(failbit); f_ = nullptr; }
    int sxpeek() override { if (f_ && sxfs_isdir(f_)) { setstate(badbit); return -1; } return f_ && p_ < sxfs_len(f_) ? (int)(unsigned char)sxfs_get(f_, p_) : -1; }
    void sxnext() override { p_++; }
    long sxtell() override { return (long)p_; }
    void sxseek(long o, int d) override { p_ = d == 0 ? o : d == 1 ? p_ + o : sxfs_len(f_) + o; }
    void sxput(const char* p, size_t n) override { if (!f_) { setstate(badbit); return; } sxfs_write(f_, p_, p, n); p_ += n; }
    long sxtellp() override { return (long)p_; }
private:
    void* f_ = nullptr; size_t p_ = 0;
};
extern ostream cout, cerr, clog;
extern istream cin;
}
