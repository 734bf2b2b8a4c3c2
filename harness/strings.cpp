// String conversion, splitting, matching and option maps.
#include "sxapi.h"
#include "utils_string.h"
#include "basic.h"
#include <cstring>
#include <cstdlib>
using namespace ccgl;
using namespace ccgl::utils_string;
static bool blank(char c) { return (c == ' ') | (c == '\n') | (c == '\t') | (c == '\r'); }
static bool blankS(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }   // what stream extraction skips
static bool digit(char c) { return (c >= '0') & (c <= '9'); }
static bool lower(char c) { return (c >= 'a') & (c <= 'z'); }
static char up(char c) { return lower(c) ? (char)(c - 32) : c; }

// Text of a canonical decimal integer (no sign for zero, no leading zeros)?
static bool canonical(const std::string& s, size_t& first) {
    size_t n = s.size(), i = 0;
    if (n && s[0] == '-') i = 1;
    first = i;
    if (i >= n) return false;
    for (size_t k = i; k < n; k++) if (!digit(s[k])) return false;
    if (s[i] == '0' && (n - i > 1 || i == 1)) return false;
    return true;
}
static std::wstring widen(const std::string& s) { std::wstring w(s.size(), L' '); for (size_t i = 0; i < s.size(); i++) w[i] = (unsigned char)s[i]; return w; }

//@unit C13 c13_int32 time=60/200 | every 32-bit signed integer: itoa/itow render canonical text which IsInt/ToInt parse back (narrow and wide)
extern "C" void c13_int32() {
    int v = (int)sx_bits("v", 32);
    std::string s = itoa(v);
    size_t f;
    sx_check("itoa.canonical", canonical(s, f) && (v < 0) == (f == 1));
    bool ok = false;
    int r = IsInt(s, ok);
    sx_check("IsInt(itoa).accepted", ok);
    sx_check("IsInt(itoa).value", r == v);
    sx_check("ToInt(itoa).value", ToInt(s) == v);
    sx_observe_s("itoa", s);
    sx_reach("end");
}
//@unit C13 c13_int32w time=60/200 | as c13_int32 for wide text
extern "C" void c13_int32w() {
    int v = (int)sx_bits("v", 32);
    std::wstring s = itow(v);
    bool ok = false;
    int r = IsInt(s, ok);
    sx_check("IsInt(itow).accepted", ok);
    sx_check("IsInt(itow).value", r == v);
    sx_reach("end");
}
//@unit C13 c13_uint32 time=60/200 | every value of the unsigned integer type vuint (64 bits here), narrow and wide text
extern "C" void c13_uint32() {
    vuint v = (vuint)sx_bits("v", sizeof(vuint) * 8);
    std::string s = utoa(v);
    size_t f;
    sx_check("utoa.canonical", canonical(s, f) && f == 0);
    bool ok = false;
    vuint r = IsUInt(s, ok);
    sx_check("IsUInt(utoa).accepted", ok);
    sx_check("IsUInt(utoa).value", r == v);
    std::wstring w = utow(v);
    sx_check("utow.text", w == widen(s));
    ok = false;
    r = IsUInt(w, ok);
    sx_check("IsUInt(utow).accepted", ok);
    sx_check("IsUInt(utow).value", r == v);
    sx_reach("end");
}
//@unit C13 c13_int64 time=90/300 | every 64-bit signed integer, narrow text
extern "C" void c13_int64() {
    int64_t v = (int64_t)sx_bits("v", 64);
    std::string s = i64toa(v);
    size_t f;
    sx_check("i64toa.canonical", canonical(s, f) && (v < 0) == (f == 1));
    bool ok = false;
    int64_t r = IsInt64(s, ok);
    sx_check("IsInt64(i64toa).accepted", ok);
    sx_check("IsInt64(i64toa).value", r == v);
    sx_reach("end");
}
//@unit C13 c13_int64w time=90/300 | every 64-bit signed integer, wide text
extern "C" void c13_int64w() {
    int64_t v = (int64_t)sx_bits("v", 64);
    std::wstring s = i64tow(v);
    bool ok = false;
    int64_t r = IsInt64(s, ok);
    sx_check("IsInt64(i64tow).accepted", ok);
    sx_check("IsInt64(i64tow).value", r == v);
    sx_reach("end");
}
//@unit C13 c13_uint64 time=90/300 | every 64-bit unsigned integer, narrow and wide text
extern "C" void c13_uint64() {
    uint64_t v = sx_bits("v", 64);
    bool ok = false;
    if (sx_flag("wide")) {
        uint64_t r = IsUInt64(u64tow(v), ok);
        sx_check("IsUInt64(u64tow).accepted", ok);
        sx_check("IsUInt64(u64tow).value", r == v);
        sx_reach("wide");
        return;
    }
    std::string s = u64toa(v);
    size_t f;
    sx_check("u64toa.canonical", canonical(s, f) && f == 0);
    uint64_t r = IsUInt64(s, ok);
    sx_check("IsUInt64(u64toa).accepted", ok);
    sx_check("IsUInt64(u64toa).value", r == v);
    sx_reach("narrow");
}
//@unit C13 c13_parse time=60/300 N=3/5 | all strings of up to N arbitrary bytes: IsInt/IsInt64/IsUInt/IsUInt64 accept exactly the canonical integer texts
extern "C" void c13_parse() {
    int n = sx_pick("len", 0, (int)sx_param("N"));
    std::string s = sx_string("c", n);
    size_t f;
    bool can = canonical(s, f);
    long v = 0;
    if (can) { for (size_t k = f; k < s.size(); k++) v = v * 10 + (s[k] & 15); if (f) v = -v; }
    bool a = true, b = true, c = true, d = true;
    long va = IsInt(s, a), vb = IsInt64(s, b);
    sx_check("IsInt.accepts", a == can);
    sx_check("IsInt64.accepts", b == can);
    vuint vc = IsUInt(s, c);
    uint64_t vd = IsUInt64(s, d);
    sx_check("IsUInt.accepts", c == (can && f == 0));
    sx_check("IsUInt64.accepts", d == (can && f == 0));
    if (can) {
        sx_check("values", va == v && vb == v && (f || (vc == v && vd == (uint64_t)v)));
        sx_reach("accepted");
    } else sx_reach("refused");
    sx_observe("IsInt", a);
}
//@unit C13 c13_limits time=60/300 | all digit texts of 10 and 11 digits with and without sign: IsInt accepts exactly those in the 32-bit range, IsUInt exactly the unsigned ones; values are those of libc
extern "C" void c13_limits() {
    int n = sx_pick("digits", 10, 11);
    bool neg = sx_flag("neg");
    std::string s = neg ? "-" : "";
    int64_t v = 0;
    for (int i = 0; i < n; i++) {
        unsigned d = (unsigned)sx_bits("d", 4);
        sx_assume(d <= 9 && (i > 0 || d > 0));
        s += (char)(0x30 | d);
    }
    v = strtoll(s.c_str(), nullptr, 10);   // the reference: libc
    bool a = false, c = false;
    int va = IsInt(s, a);
    sx_check("IsInt.range", a == (v >= -2147483648LL && v <= 2147483647LL));
    if (a) sx_check("IsInt.value", va == v);
    vuint vc = IsUInt(s, c);
    sx_check("IsUInt.range", c == (v >= 0));
    if (c) sx_check("IsUInt.value", vc == (uint64_t)v);
    sx_reach("end");
}
// Decimal floating-point text (sign, digits with optional point, optional exponent)?
static bool decimalText(const std::string& s) {
    size_t i = 0, n = s.size(), nd = 0;
    if (i < n && (s[i] == '-' || s[i] == '+')) i++;
    while (i < n && digit(s[i])) { i++; nd++; }
    if (i < n && s[i] == '.') { i++; while (i < n && digit(s[i])) { i++; nd++; } }
    if (!nd) return false;
    if (i == n) return true;
    if (s[i] != 'e' && s[i] != 'E') return false;
    i++;
    if (i < n && (s[i] == '-' || s[i] == '+')) i++;
    if (i == n) return false;
    while (i < n) if (!digit(s[i++])) return false;
    return true;
}
//@unit C13 c13_limits64 time=60/300 N=1/2 | all digit texts with and without sign that agree with a 64-bit limit (2^63 or 2^64) except in the last N digits, or have one digit more: IsInt64 and IsUInt64 accept exactly those in range, narrow and wide, with the right value
extern "C" void c13_limits64() {
    bool big = sx_flag("unsigned limit"), neg = sx_flag("neg"), wide = sx_flag("wide");
    std::string lim = big ? "18446744073709551615" : (neg ? "9223372036854775808" : "9223372036854775807"), d = lim;
    int n = (int)d.size(), k = (int)sx_param("N");
    for (int i = n - k; i < n; i++) d[i] = (char)(0x30 | sx_int("d", 0, 9));
    bool more = sx_flag("more");
    if (more) d += (char)(0x30 | sx_int("d", 0, 9));
    // in range: not longer and not lexicographically greater than the limit
    bool le = true, lt = false;
    for (int i = 0; i < n; i++) { lt |= le & (d[i] < lim[i]); le &= lt | (d[i] == lim[i]); }
    bool fits = le && !more;                         // |value| within this limit
    uint64_t v = 0;
    for (int i = 0; i < n; i++) v = v * 10 + (d[i] & 15);
    std::string s = neg ? "-" + d : d;
    bool a = false, c = false;
    int64_t x; uint64_t y;
    if (wide) { x = IsInt64(widen(s), a); y = IsUInt64(widen(s), c); } else { x = IsInt64(s, a); y = IsUInt64(s, c); }
    bool wanta = fits && (!big || false), wantc = fits && !neg;
    if (big && fits) wanta = false;                  // 20 digits never fit the signed type
    if (!big && !neg && !more) wantc = true;         // anything of 19 digits fits the unsigned type
    sx_check("IsInt64.range", a == wanta);
    sx_check("IsUInt64.range", c == wantc);
    if (a) sx_check("IsInt64.value", x == (neg ? (int64_t)(0 - v) : (int64_t)v));
    if (c) sx_check("IsUInt64.value", y == v);
    if (a | c) sx_reach("fits"); else sx_reach("overflows");
}
//@unit C13 c13_double time=60/300 N=4/5 | all strings of up to N bytes other than x, n, i (hexadecimal, inf, nan spellings) and leading blanks: IsDouble and IsNumber accept exactly decimal numbers, narrow and wide
extern "C" void c13_double() {
    int n = sx_pick("len", 0, (int)sx_param("N"));
    std::string s = sx_string("c", n);
    for (int i = 0; i < n; i++) {
        char c = up(s[i]);
        sx_assume((c != 'X') & (c != 'N') & (c != 'I'));
    }
    if (n) sx_assume(!blankS(s[0]));
    bool a = false, want = decimalText(s);
    IsDouble(s, a);
    if (n == 0) { sx_check("IsDouble.empty", !a); sx_check("IsNumber.empty", !IsNumber(s)); sx_reach("empty"); }
    else {
        sx_check("IsDouble.accepts", a == want);
        sx_check("IsNumber.accepts", IsNumber(s) == want);
        if (want) sx_reach("accepted"); else sx_reach("refused");
    }
    sx_observe("ok", a);
}
//@unit C13 c13_doublew time=60/300 N=3/4 | as c13_double for wide text
extern "C" void c13_doublew() {
    int n = sx_pick("len", 0, (int)sx_param("N"));
    std::string s = sx_string("c", n);
    for (int i = 0; i < n; i++) { char c = up(s[i]); sx_assume((c != 'X') & (c != 'N') & (c != 'I')); sx_assume((unsigned char)s[i] < 128); }
    if (n) sx_assume(!blankS(s[0]));
    bool a = false, want = decimalText(s);
    IsDouble(widen(s), a);
    if (n == 0) { sx_check("IsDouble.wempty", !a); sx_reach("empty"); }
    else { sx_check("IsDouble.waccepts", a == want); sx_reach("end"); }
}
//@unit C13 c13_dvalue time=40/200 | all decimal numbers 00.00 .. 99.99 with two digits on either side, and one-digit numbers with exponents -9..9 (negative ones 0..9): IsDouble returns the value (digits over a power of ten)
extern "C" void c13_dvalue() {
    bool exp = sx_flag("exp"), neg = exp && sx_flag("neg");
    std::string s = neg ? "-" : "";
    int64_t m = 0;
    static const double p10[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9};
    if (exp) {
        unsigned d = (unsigned)sx_bits("d", 4);
        sx_assume(d >= 1 && d <= 9);
        s += (char)(0x30 | d);
        int e = sx_pick("e", neg ? 0 : -9, 9);
        s += 'e'; if (e < 0) s += '-'; s += (char)('0' + (e < 0 ? -e : e));
        bool a = false;
        double v = IsDouble(s, a), w = e < 0 ? (double)(int64_t)d / p10[-e] : (double)(int64_t)d * p10[e];
        if (neg) w = 0.0 - w;
        sx_check("IsDouble.exp", a && v == w);
        sx_reach("exp");
        return;
    }
    for (int i = 0; i < 4; i++) {
        unsigned d = (unsigned)sx_bits("d", 4);
        sx_assume(d <= 9);
        if (i == 2) s += '.';
        s += (char)(0x30 | d);
        m = m * 10 + d;
    }
    bool a = false;
    double v = IsDouble(s, a), w = (double)m / 100.0;
    if (sx_fork(m == 0)) { sx_check("IsDouble.zero", a && v == 0); return; }
    sx_check("IsDouble.value", a && v == w);
    sx_reach("point");
}
//@unit C13 c13_ftoa time=60/200 | every integer-valued double within 2^40: ftoa renders it as the integer and ToDouble parses it back
extern "C" void c13_ftoa() {
    double d = sx_ifp("v", -(1LL << 40), 1LL << 40);
    std::string s = ftoa(d);
    sx_check("ftoa.integer", s == i64toa((int64_t)d));
    sx_check("ftoa.roundtrip", ToDouble(s) == d);
    sx_reach("end");
}
//@unit C13 c13_wide time=30/100 N=3/5 | all ASCII strings of up to N characters: atow and wtoa convert character by character and invert each other
extern "C" void c13_wide() {
    int n = sx_pick("len", 0, (int)sx_param("N"));
    std::string s = sx_string("c", n);
    for (int i = 0; i < n; i++) sx_assume((unsigned char)s[i] < 128);
    std::wstring w = atow(s);
    sx_check("atow.text", w == widen(s));
    sx_check("wtoa.text", wtoa(w) == s);
    sx_reach("end");
}
//@unit C13 c13_widebad time=30/100 N=2/3 | all wide strings of up to N characters including ones with no narrow form: wtoa is memory-safe, never invents characters, and leaks nothing
extern "C" void c13_widebad() {
    int n = sx_pick("len", 0, (int)sx_param("N"));
    std::wstring w(n, L'x');
    bool ascii = true;
    for (int i = 0; i < n; i++) { unsigned c = (unsigned)sx_bits("w", 16); sx_assume(c != 0); w[i] = (wchar_t)c; ascii &= c < 128; }
    uint64_t mark = sx_heap_mark();
    {
        std::string s = wtoa(w);
        if (ascii) sx_check("wtoa.length", (int)s.size() == n);
        else { sx_check("wtoa.unconvertible", (int)s.size() <= n); sx_reach("unconvertible"); }
    }
    sx_heap_check("wtoa.leak", mark);
}

//@unit C14 c14_split time=60/300 N=4/6 | all strings of up to N bytes (including NUL) and every delimiter: pieces re-joined give the string back (a final empty piece excepted), none contains the delimiter
extern "C" void c14_split() {
    int n = sx_pick("len", 0, (int)sx_param("N"));
    std::string s(n, 'x');
    for (int i = 0; i < n; i++) s[i] = sx_char("c");
    char d = sx_char("delim");
    std::vector<std::string> t = SplitString(s, d);
    std::string j;
    for (size_t k = 0; k < t.size(); k++) {
        if (k) j += d;
        j += t[k];
        for (size_t i = 0; i < t[k].size(); i++) sx_check("piece", t[k][i] != d);
    }
    if (n == 0) sx_check("empty", t.empty());
    else if (s[n - 1] == d) { j += d; sx_check("rejoin.tail", j == s); sx_reach("tail"); }
    else { sx_check("rejoin", j == s); sx_reach("plain"); }
    size_t nd = 0;
    for (int i = 0; i < n; i++) nd += s[i] == d;
    if (n) sx_check("count", t.size() == nd + (s[n - 1] == d ? 0 : 1));
    sx_observe("pieces", t.size());
}
//@unit C14 c14_blanks time=60/300 N=6/8 | all strings of up to N non-NUL bytes: splitting on blanks yields exactly the maximal runs of non-blank characters in order
extern "C" void c14_blanks() {
    int n = sx_pick("len", 0, (int)sx_param("N"));
    std::string s = sx_string("c", n);
    std::vector<std::string> want;
    std::string cur;
    for (int i = 0; i < n; i++) {
        if (blankS(s[i])) { if (!cur.empty()) want.push_back(cur); cur = ""; }
        else cur += s[i];
    }
    if (!cur.empty()) want.push_back(cur);
    std::vector<std::string> t = SplitString(s);
    if (want.empty()) { sx_check("blanks.none", t.empty()); sx_reach("none"); }
    else if (blankS(s[n - 1])) { sx_check("blanks.trailing", t == want); sx_reach("trailing"); }
    else { sx_check("blanks.pieces", t == want); sx_reach("plain"); }
}
//@unit C14 c14_trim time=60/300 N=6/8 | all strings of up to N non-NUL bytes: Trim and TrimSpaces remove exactly the leading and trailing blanks (space, tab, CR, LF)
extern "C" void c14_trim() {
    int n = sx_pick("len", 0, (int)sx_param("N"));
    std::string s = sx_string("c", n), a = s, b = s;
    int i = 0, j = n;
    while (i < n && blank(s[i])) i++;
    while (j > i && blank(s[j - 1])) j--;
    std::string want(s.begin() + i, s.begin() + j);
    TrimSpaces(a);
    sx_check("TrimSpaces", a == want);
    std::string& r = Trim(b);
    sx_check("Trim", b == want && &r == &b);
    if (want.empty()) sx_reach("empty"); else sx_reach("nonempty");
    sx_observe_s("trimmed", a);
}
//@unit C14 c14_values time=60/300 N=4/5 | all strings of up to N characters over digits, minus, point, letter, comma and blank, delimiter comma: the values are those of the pieces holding a digit, in order; true exactly when every piece holds one
extern "C" void c14_values() {
    int n = sx_pick("len", 0, (int)sx_param("N"));
    std::string s(n, 'x');
    for (int i = 0; i < n; i++) s[i] = sx_among("c", "0527-,,a ");
    std::vector<int> vals(1, 77);
    bool r = SplitStringForValues(s, ',', vals);
    if (n == 0) { sx_check("values.empty", !r); sx_reach("empty"); return; }
    std::vector<int> want;
    size_t pieces = 0;
    for (int i = 0; i < n; pieces++) {
        int j = i; bool any = false;
        while (j < n && s[j] != ',') { any = any || digit(s[j]); j++; }
        if (any) {
            int k = i; bool neg = false; int v = 0;
            while (k < j && s[k] == ' ') k++;
            if (k < j && s[k] == '-') { neg = true; k++; }
            while (k < j && digit(s[k])) v = v * 10 + (s[k++] & 15);
            want.push_back(neg ? -v : v);
        }
        i = j + 1;
    }
    sx_check("values.list", vals == want);
    sx_check("values.result", r == (pieces == want.size()));
    if (r) sx_reach("all"); else sx_reach("some");
}

//@unit C15 c15_upper time=60/300 N=24/64 | all strings of up to N bytes: GetUpper changes exactly the ASCII lower-case letters and is idempotent
extern "C" void c15_upper() {
    int n = sx_pick("len", 0, (int)sx_param("N"));
    std::string s(n, 'x');
    for (int i = 0; i < n; i++) s[i] = sx_char("c");
    std::string u = GetUpper(s);
    sx_check("length", (int)u.size() == n);
    for (int i = 0; i < n; i++) sx_check("letter", u[i] == up(s[i]));
    sx_check("idempotent", GetUpper(u) == u);
    sx_observe_s("upper", u);
    sx_reach("end");
}
//@unit C15 c15_match time=90/400 N=8/14 | all pairs of strings of up to N non-NUL bytes: both forms of StringMatch accept exactly the pairs equal up to ASCII letter case
extern "C" void c15_match() {
    int n = sx_pick("n", 0, (int)sx_param("N")), m = sx_pick("m", 0, (int)sx_param("N"));
    std::string a = sx_string("a", n), b = sx_string("b", m);
    bool want = n == m;
    if (want) for (int i = 0; i < n; i++) want &= up(a[i]) == up(b[i]);
    bool r = StringMatch(a, b), c = StringMatch(a.c_str(), b.c_str());
    sx_check("match.string", r == want);
    sx_check("match.cstring", c == want);
    sx_check("symmetric", StringMatch(b, a) == r);
    sx_check("reflexive", StringMatch(a, a));
    if (r) sx_reach("equal"); else sx_reach("different");
}

// The reference: four groups of digits, each at most 255, separated by single dots.
static bool dottedQuad(const std::string& s) {
    int n = (int)s.size(), groups = 0, i = 0;
    while (true) {
        int v = 0, nd = 0;
        while (i < n && digit(s[i])) { v = v * 10 + (s[i] & 15); v = v > 255 ? 256 : v; nd++; i++; }
        if (!nd || v > 255) return false;
        groups++;
        if (i == n) return groups == 4;
        if (s[i] != '.') return false;
        i++;
    }
}
//@unit C18 c18_any time=60/400 N=6/7 | all strings of up to N arbitrary non-NUL bytes
extern "C" void c18_any() {
    int n = sx_pick("len", 0, (int)sx_param("N"));
    std::string s = sx_string("c", n);
    bool r = IsIpAddress(s.c_str());
    if (dottedQuad(s)) sx_check("ip.accepts", r);
    else sx_check("ip.refuses", !r);
    sx_reach("end");
}
//@unit C18 c18_quad time=60/200 | all texts of four dot-separated groups of one to three digits each: accepted exactly when every group is at most 255
extern "C" void c18_quad() {
    std::string s;
    bool ok = true;
    for (int g = 0; g < 4; g++) {
        int n = sx_pick("digits", 1, 3), v = 0;
        if (g) s += '.';
        for (int i = 0; i < n; i++) { int d = sx_int("d", 0, 9); s += (char)(0x30 | d); v = v * 10 + d; }
        ok &= v <= 255;
    }
    bool r = IsIpAddress(s.c_str());
    sx_check("quad", r == ok);
    if (r) sx_reach("address"); else sx_reach("too large");
    sx_observe("r", r);
}
//@unit C18 c18_mutant time=60/200 | a text of K = 1..6 dot-separated groups (1-digit, the first and last up to 2), then one arbitrary byte inserted, replaced, or appended at any position: accepted exactly when the result is a dotted quad
extern "C" void c18_mutant() {
    int k = sx_pick("groups", 1, 6);
    std::string s;
    for (int g = 0; g < k; g++) {
        if (g) s += '.';
        int n = (g == 0 || g == k - 1) ? sx_pick("digits", 1, 2) : 1;
        for (int i = 0; i < n; i++) s += (char)(0x30 | sx_int("d", 0, 9));
    }
    int mode = sx_pick("mode", 0, 2);
    if (mode) {
        char c = sx_char("byte");
        sx_assume(c != 0);
        int pos = sx_pick("pos", 0, (int)s.size() - (mode == 1 ? 0 : 1));
        if (mode == 1) s.insert(s.begin() + pos, c); else s[pos] = c;
    }
    bool r = IsIpAddress(s.c_str()), ok = dottedQuad(s);
    if (ok) { sx_check("ip.accepts", r); sx_reach("address"); }
    else { sx_check("ip.refuses", !r); sx_reach("other"); }
}
