// Runtime model: the parts of libc and libstdc++.so that the code under test calls, written so that they can be
// executed symbolically ("C" locale, UTC time zone, in-memory file system).
#undef __OPTIMIZE__
#define __NO_INLINE__ 1
#include "sxapi.h"
#include "sxstream.h"
#include <cstdarg>
#include <cstring>
#include <ctime>
#include <dirent.h>
#include <errno.h>
#include <new>
#include <stdexcept>
#include <sys/stat.h>
#include <sys/time.h>
#include <wchar.h>
#include <map>
extern "C" {
// engine services
void* sx_sysalloc(uint64_t n);                       // memory that is no heap block of the program under test
bool sx_is_conc_d(double v);                         // is the double a concrete number?
int sx_is_int_d(double v, int64_t* out);             // is it an integer-valued symbolic double? then its value
int sx_host_fmt(char* b, uint64_t cap, double v, int conv, int prec, int flags);
bool sx_valid(bool);                                  // engine: holds on the whole path
bool sx_conc_bytes(const void* p, uint64_t n);
double sx_host_strtod(const char* s, uint64_t n);    // bytes must be concrete

int errno_cell;
int* __errno_location() { return &errno_cell; }

// ------------------------------------------------------------------ <string.h> (memcmp, memchr, strlen... need no fork)
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char* a, const char* b) {
    for (size_t i = 0;; i++) {
        unsigned char x = a[i], y = b[i];
        if (x != y) return (int)x - (int)y;
        if (!x) return 0;
    }
}
int strncmp(const char* a, const char* b, size_t n) {
    for (size_t i = 0; i < n; i++) {
        unsigned char x = a[i], y = b[i];
        if (x != y) return (int)x - (int)y;
        if (!x) return 0;
    }
    return 0;
}
static inline int lower_(int c) { return (c >= 'A') & (c <= 'Z') ? c + 32 : c; }
int tolower(int c) { if (c < 0) c &= 255; return lower_(c); }
int toupper(int c) { if (c < 0 && c != -1) c &= 255; return (c >= 'a') & (c <= 'z') ? c - 32 : c; }
int isdigit(int c) { return (c >= '0') & (c <= '9'); }
int isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int islower(int c) { return (c >= 'a') & (c <= 'z'); }
int isalpha(int c) { return isupper(c) | islower(c); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isprint(int c) { return (c >= 32) & (c < 127); }
int isblank(int c) { return (c == ' ') | (c == 9); }
int ispunct(int c) { return (c > 32) & (c < 127) & !isalnum(c); }
int isxdigit(int c) { return isdigit(c) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
int strcasecmp(const char* a, const char* b) {
    for (size_t i = 0;; i++) {
        int x = lower_((unsigned char)a[i]), y = lower_((unsigned char)b[i]);
        if (x != y) return x - y;
        if (!x) return 0;
    }
}
int strncasecmp(const char* a, const char* b, size_t n) {
    for (size_t i = 0; i < n; i++) {
        int x = lower_((unsigned char)a[i]), y = lower_((unsigned char)b[i]);
        if (x != y) return x - y;
        if (!x) return 0;
    }
    return 0;
}
char* strcpy(char* d, const char* s) { size_t i = 0; while ((d[i] = s[i])) i++; return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { char* e = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
char* sx_strchr(const char* s, int c) __asm__("strchr");
char* sx_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* sx_strrchr(const char* s, int c) __asm__("strrchr");
char* sx_strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* sx_strstr(const char* a, const char* b) __asm__("strstr");
char* sx_strstr(const char* a, const char* b) {
    size_t n = strlen(b);
    for (;; a++) { if (strncmp(a, b, n) == 0) return (char*)a; if (!*a) return nullptr; }
}
char* sx_strpbrk(const char* s, const char* set) __asm__("strpbrk");
char* sx_strpbrk(const char* s, const char* set) { for (; *s; s++) for (const char* p = set; *p; p++) if (*p == *s) return (char*)s; return nullptr; }
size_t strspn(const char* s, const char* set) { size_t n = 0; for (; s[n]; n++) { const char* p = set; for (; *p; p++) if (*p == s[n]) break; if (!*p) break; } return n; }
size_t strcspn(const char* s, const char* set) { size_t n = 0; for (; s[n]; n++) for (const char* p = set; *p; p++) if (*p == s[n]) return n; return n; }
char* strtok_r(char* s, const char* d, char** save) {
    if (!s) s = *save;
    s += strspn(s, d);
    if (!*s) { *save = s; return nullptr; }
    char* e = s + strcspn(s, d);
    if (*e) { *e = 0; *save = e + 1; } else *save = e;
    return s;
}
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)malloc(n); memcpy(p, s, n); return p; }
char* strerror(int) { return (char*)"error"; }
void perror(const char*) {}
// ------------------------------------------------------------------ wide strings
size_t wcslen(const wchar_t* s) { size_t n = 0; while (s[n]) n++; return n; }
int wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { memcpy(d, s, n * sizeof(wchar_t)); return d; }
wchar_t* wmemmove(wchar_t* d, const wchar_t* s, size_t n) { memmove(d, s, n * sizeof(wchar_t)); return d; }
wchar_t* wmemset(wchar_t* d, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) d[i] = c; return d; }
wchar_t* sx_wmemchr(const wchar_t* s, wchar_t c, size_t n) __asm__("wmemchr");
wchar_t* sx_wmemchr(const wchar_t* s, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) if (s[i] == c) return (wchar_t*)s + i; return nullptr; }
wchar_t* sx_wcschr(const wchar_t* s, wchar_t c) __asm__("wcschr");
wchar_t* sx_wcschr(const wchar_t* s, wchar_t c) { for (;; s++) { if (*s == c) return (wchar_t*)s; if (!*s) return nullptr; } }
int wcscmp(const wchar_t* a, const wchar_t* b) { for (;; a++, b++) { if (*a != *b) return *a < *b ? -1 : 1; if (!*a) return 0; } }
// "C" locale: one byte is one character, bytes above 127 are invalid
size_t mbstowcs(wchar_t* w, const char* a, size_t n) {
    size_t i = 0;
    for (;; i++) {
        if (w && i >= n) return i;
        unsigned char c = a[i];
        if (c > 127) { errno_cell = EILSEQ; return (size_t)-1; }
        if (w) w[i] = c;
        if (!c) return i;
    }
}
size_t wcstombs(char* a, const wchar_t* w, size_t n) {
    size_t i = 0;
    for (;; i++) {
        if (a && i >= n) return i;
        unsigned c = w[i];
        if (c > 127) { errno_cell = EILSEQ; return (size_t)-1; }
        if (a) a[i] = (char)c;
        if (!c) return i;
    }
}
// ------------------------------------------------------------------ numbers
}
template <class C> static inline bool ws_(C c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
template <class C> static inline bool dig_(C c) { return (c >= '0') & (c <= '9'); }
extern "C" bool sx_is_conc_u(uint64_t);
extern "C" bool sx_dec_print(uint64_t m, int n, char* end);
extern "C" bool sx_dec_parse(const void* p, int stride, int n, uint64_t* out);
template <class C> static unsigned long long strtoX(const C* s, C** end, int base, bool sgn) {
    if (base != 10 && base != 0 && base != 16) sx_fail("strtol: base");
    const C* p = s;
    while (ws_(*p)) p++;
    bool neg = false;
    if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
    if ((base == 0 || base == 16) && *p == '0') {
        if (p[1] == 'x' || p[1] == 'X') {
            auto hx = [](C c) { return dig_(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); };
            if (hx(p[2])) { base = 16; p += 2; }
            else base = 16;
        } else if (base == 0) base = 8;
    } else if (base == 0) base = 10;
    unsigned long long v = 0;
    bool any = false, ovf = false;
    unsigned long long lim = sgn ? (neg ? 1ull << 63 : (1ull << 63) - 1) : ~0ull;
    int nd = 0;
    if (base == 10) {
        const C* q = p;
        while (dig_(*q)) q++;
        uint64_t x;
        if (q - p >= 3 && sx_dec_parse(p, sizeof(C), (int)(q - p), &x)) {
            if (end) *end = (C*)q;
            if (x > lim) { errno_cell = ERANGE; return lim; }
            return neg ? 0 - x : x;
        }
    }
    for (;; p++) {
        C c = *p;
        unsigned d;
        if (dig_(c)) d = (unsigned)c & 15;
        else if (base == 16 && c >= 'a' && c <= 'f') d = c - 'a' + 10;
        else if (base == 16 && c >= 'A' && c <= 'F') d = c - 'A' + 10;
        else break;
        if (base == 8 && d > 7) break;
        any = true;
        nd++;
        if (nd >= 15) {   // shorter numbers cannot overflow
            if (!ovf && (v > (lim - d) / (unsigned)base)) ovf = true;
        }
        v = v * (unsigned)base + d;
    }
    if (end) *end = (C*)(any ? p : s);
    if (!any) return 0;
    if (ovf) { errno_cell = ERANGE; return lim; }
    return neg ? 0 - v : v;
}

// Decimal digits of m, written to the bytes before end; their number.  For a symbolic m the digits are fresh variables
// tied to m by Horner's rule, which has exactly one solution.
extern "C" int sxm_digits(uint64_t m, char* end) {
    int n = 0;
    if (sx_is_conc_u(m)) { do { *--end = (char)('0' + m % 10); m /= 10; n++; } while (m); return n; }
    uint64_t p = 1;
    do { n++; if (n == 20) break; p *= 10; } while (m >= p);
    sx_dec_print(m, n, end);
    return n;
}
extern "C" {
long strtol(const char* s, char** e, int b) { return (long)strtoX<char>(s, e, b, true); }
long long strtoll(const char* s, char** e, int b) { return (long long)strtoX<char>(s, e, b, true); }
unsigned long strtoul(const char* s, char** e, int b) { return strtoX<char>(s, e, b, false); }
unsigned long long strtoull(const char* s, char** e, int b) { return strtoX<char>(s, e, b, false); }
long wcstol(const wchar_t* s, wchar_t** e, int b) { return (long)strtoX<wchar_t>(s, e, b, true); }
long long wcstoll(const wchar_t* s, wchar_t** e, int b) { return (long long)strtoX<wchar_t>(s, e, b, true); }
unsigned long wcstoul(const wchar_t* s, wchar_t** e, int b) { return strtoX<wchar_t>(s, e, b, false); }
unsigned long long wcstoull(const wchar_t* s, wchar_t** e, int b) { return strtoX<wchar_t>(s, e, b, false); }
long sx_strtol(const char*, char**, int) __asm__("strtol"); long sx_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
long long sx_strtoll(const char*, char**, int) __asm__("strtoll"); long long sx_strtoll(const char* s, char** e, int b) { return strtoll(s, e, b); }
unsigned long sx_strtoul(const char*, char**, int) __asm__("strtoul"); unsigned long sx_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
unsigned long long sx_strtoull(const char*, char**, int) __asm__("strtoull"); unsigned long long sx_strtoull(const char* s, char** e, int b) { return strtoull(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, nullptr, 10); }
long atol(const char* s) { return strtol(s, nullptr, 10); }
long long atoll(const char* s) { return strtoll(s, nullptr, 10); }
}
// The value of a plain decimal number: exact whenever it has at most 15 significant digits and a scale of at most 10^22
// (one correctly rounded operation), which is asked for when characters are symbolic; otherwise the host's strtod.
static double decval(bool neg, uint64_t mant, int nd, int scale, const char* raw, size_t rawn) {
    double r;
    if (sx_conc_bytes(raw, rawn)) return sx_host_strtod(raw, rawn);
    if (nd > 15 || scale > 22 || scale < -22) { sx_fail("decimal number too long for symbolic parsing"); return 0; }
    static const double p10[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
    r = (double)(int64_t)mant;
    if (scale > 0) r = r * p10[scale];
    else if (scale < 0) r = r / p10[-scale];
    if (neg) { if (sx_fork(mant == 0)) return -0.0; r = 0.0 - r; }
    return r;
}
template <class C> static double strtodX(const C* s, C** end) {
    const C* p = s;
    while (ws_(*p)) p++;
    const C* st = p;
    bool neg = false;
    if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
    auto ci = [](C c, char l) { return (c == (C)l) | (c == (C)(l - 32)); };
    if (ci(*p, 'i') && ci(p[1], 'n') && ci(p[2], 'f')) {
        p += 3;
        if (ci(*p, 'i') && ci(p[1], 'n') && ci(p[2], 'i') && ci(p[3], 't') && ci(p[4], 'y')) p += 5;
        if (end) *end = (C*)p;
        return neg ? -__builtin_inf() : __builtin_inf();
    }
    if (ci(*p, 'n') && ci(p[1], 'a') && ci(p[2], 'n')) {
        p += 3;
        if (*p == '(') { const C* q = p + 1; while (dig_(*q) || (*q >= 'a' && *q <= 'z') || (*q >= 'A' && *q <= 'Z') || *q == '_') q++; if (*q == ')') p = q + 1; }
        if (end) *end = (C*)p;
        return neg ? -__builtin_nan("") : __builtin_nan("");
    }
    if (*p == '0' && (p[1] == 'x' || p[1] == 'X')) {
        auto hx = [](C c) { return dig_(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); };
        if (hx(p[2]) || (p[2] == '.' && hx(p[3]))) {  // hexadecimal floating constant: small ones only
            p += 2;
            uint64_t m = 0; int n = 0, sc = 0; bool dot = false;
            for (;; p++) {
                C c = *p;
                if (c == '.' && !dot) { dot = true; continue; }
                unsigned d;
                if (dig_(c)) d = c - '0'; else if (c >= 'a' && c <= 'f') d = c - 'a' + 10; else if (c >= 'A' && c <= 'F') d = c - 'A' + 10; else break;
                m = m * 16 + d; n++; if (dot) sc += 4;
            }
            if (n > 13) { sx_fail("hexadecimal constant too long"); return 0; }
            double v = (double)(int64_t)m;
            if (ci(*p, 'p')) {
                const C* q = p + 1; bool en = false;
                if (*q == '-' || *q == '+') { en = *q == '-'; q++; }
                if (dig_(*q)) { int e = 0; int k = 0; while (dig_(*q)) { e = e * 10 + (*q - '0'); q++; if (++k > 3) { sx_fail("hexadecimal exponent too long"); return 0; } } p = q; sc -= en ? -e : e; }
            }
            double f = 1; int k = sc < 0 ? -sc : sc;
            if (k > 900) { sx_fail("hexadecimal exponent too large"); return 0; }
            for (int i = 0; i < k; i++) f *= 2;
            v = sc > 0 ? v / f : v * f;
            if (end) *end = (C*)p;
            return neg ? -v : v;
        }
    }
    uint64_t mant = 0; int nd = 0, total = 0, scale = 0; bool dot = false;
    {
        const C* q = p;
        while (dig_(*q)) q++;
        uint64_t x;
        if (q - p >= 3 && q - p <= 15 && sx_dec_parse(p, sizeof(C), (int)(q - p), &x)) { mant = x; nd = total = (int)(q - p); p = q; }
    }
    for (;; p++) {
        C c = *p;
        if (c == '.' && !dot) {
            dot = true;
            const C* q = p + 1; int z = 0;
            while (sx_conc_bytes((const char*)q, sizeof(C)) && *q == '0') { q++; z++; }
            if (z && (!sx_conc_bytes((const char*)q, sizeof(C)) || !dig_(*q)) && total) { if (!sx_conc_bytes((const char*)q, sizeof(C)) && dig_(*q)) continue; total += z; p = q; break; }
            continue;
        }
        if (!dig_(c)) break;
        if (nd < 19) mant = mant * 10 + ((unsigned)c & 15);
        nd++; total++;
        if (dot) scale--;
    }
    if (!total) { if (end) *end = (C*)s; return 0.0; }
    if (ci(*p, 'e')) {
        const C* q = p + 1;
        bool en = false;
        if (*q == '-' || *q == '+') { en = (*q == '-'); q++; }
        if (dig_(*q)) {
            int e = 0, k = 0;
            while (dig_(*q)) { if (k < 5) e = e * 10 + (int)((unsigned)*q & 15); q++; k++; }
            p = q;
            scale += en ? -e : e;
            if (mant != 0 && scale != 0) {   // make the scale concrete
                int es = (int)(int64_t)sx_fork((uint64_t)(int64_t)scale);
                scale = es;
            } else scale = 0;
        }
    }
    if (end) *end = (C*)p;
    size_t n = p - st;
    char raw[64];
    if (sizeof(C) == 1) return decval(neg, mant, nd, scale, (const char*)st, n);
    if (n > 60) { sx_fail("wide number too long"); return 0; }
    for (size_t i = 0; i < n; i++) raw[i] = (char)st[i];
    return decval(neg, mant, nd, scale, raw, n);
}
extern "C" {
double strtod(const char* s, char** e) { return strtodX<char>(s, e); }
float strtof(const char* s, char** e) { return (float)strtodX<char>(s, e); }
double wcstod(const wchar_t* s, wchar_t** e) { return strtodX<wchar_t>(s, e); }
double atof(const char* s) { return strtod(s, nullptr); }
bool sxm_parse_double(const char* s, size_t n, double* out) {
    char b[128];
    if (n >= sizeof b) { sx_fail("number too long"); return false; }
    for (size_t i = 0; i < n; i++) b[i] = s[i];
    b[n] = 0;
    char* e = nullptr;
    double v = strtod(b, &e);
    if (e != b + n || n == 0) return false;
    *out = v;
    return true;
}
int sxm_parse_int(const char* s, size_t n, bool neg_ok, uint64_t lom, uint64_t him, int64_t* out) {
    size_t i = 0; bool neg = false;
    *out = 0;
    if (i < n && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; i++; }
    if (i >= n) return 1;
    if (n - i > 19) { for (size_t k = i; k + 19 < n; k++) if (s[k] != '0') { *out = (int64_t)(neg ? 0 - lom : him); return 2; } i = n - 19; }
    uint64_t v = 0;
    if (n - i < 3 || !sx_dec_parse(s + i, 1, (int)(n - i), &v)) for (; i < n; i++) v = v * 10 + ((unsigned)s[i] & 15);
    if (v > (neg ? lom : him)) { *out = (int64_t)(neg ? 0 - lom : him); return 2; }
    (void)neg_ok;
    *out = (int64_t)(neg ? 0 - v : v);
    return 0;
}
// conv: f e g; flags: 1 showpoint (#), 2 plus sign, 4 upper case
int sxm_fmt_double(char* b, size_t cap, double v, int conv, int prec, int flags) {
    if (sx_is_conc_d(v)) return sx_host_fmt(b, cap, v, conv, prec, flags);
    int64_t iv = 0;
    if (!sx_is_int_d(v, &iv)) { sx_fail("formatting a symbolic floating-point number"); return 0; }
    if (conv == 'e') { sx_fail("scientific notation of a symbolic number"); return 0; }
    if (prec < 0) prec = 6;
    uint64_t m = iv < 0 ? 0 - (uint64_t)iv : (uint64_t)iv;
    char t[32]; int i = 32;
    i -= sxm_digits(m, t + 32);
    int nd = 32 - i;
    int k = 0;
    if (iv < 0) b[k++] = '-'; else if (flags & 2) b[k++] = '+';
    if (conv == 'g' && nd > (prec ? prec : 1)) {  // needs rounding to prec digits and an exponent
        sx_fail("%g of a symbolic number with more digits than the precision"); return 0;
    }
    for (int j = i; j < 32; j++) b[k++] = t[j];
    if (conv == 'f') { if (prec > 0) { b[k++] = '.'; for (int j = 0; j < prec; j++) b[k++] = '0'; } }
    else if (flags & 1) { b[k++] = '.'; for (int j = nd; j < prec; j++) b[k++] = '0'; }
    if ((size_t)k >= cap) { sx_fail("number buffer"); }
    return k;
}
}
// ------------------------------------------------------------------ printf family
template <class C> struct Out { C* b; size_t cap; size_t n; void put(C c) { if (n + 1 < cap) b[n] = c; n++; } };
template <class C> static void vfmt(Out<C>& o, const C* f, va_list ap) {
    for (; *f; f++) {
        if (*f != '%') { o.put(*f); continue; }
        f++;
        bool left = false, zero = false, plus = false, alt = false, space = false;
        for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == '#') alt = true; else if (*f == ' ') space = true; else break; }
        int width = 0, prec = -1;
        if (*f == '*') { width = va_arg(ap, int); f++; if (width < 0) { left = true; width = -width; } }
        else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
        int lng = 0;
        while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j' || *f == 't') { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng++; else lng--; f++; }
        char t[420]; int n = 0; const char* src = t; char sign = 0;
        const wchar_t* wsrc = nullptr;
        switch ((char)*f) {
        case '%': t[n++] = '%'; break;
        case 'c': t[n++] = (char)va_arg(ap, int); break;
        case 's': if (lng > 0) { wsrc = va_arg(ap, const wchar_t*); n = wcslen(wsrc); } else { src = va_arg(ap, const char*); if (!src) src = "(null)"; n = prec >= 0 ? strnlen(src, prec) : strlen(src); } break;
        case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': {
            bool sg = *f == 'd' || *f == 'i';
            uint64_t m;
            if (sg) {
                int64_t v = lng > 0 ? (int64_t)va_arg(ap, long long) : (int64_t)va_arg(ap, int);
                if (lng == -1) v = (short)v; if (lng == -2) v = (signed char)v;
                if (v < 0) { sign = '-'; m = 0 - (uint64_t)v; } else { m = (uint64_t)v; if (plus) sign = '+'; else if (space) sign = ' '; }
            } else {
                m = lng > 0 ? (uint64_t)va_arg(ap, unsigned long long) : (uint64_t)va_arg(ap, unsigned);
                if (lng == -1) m = (unsigned short)m; if (lng == -2) m = (unsigned char)m;
            }
            unsigned base = *f == 'x' || *f == 'X' ? 16 : *f == 'o' ? 8 : 10;
            int i = 400;
            if (base == 10) { if (m) i -= sxm_digits(m, t + 400); }
            else while (m) { unsigned d = (unsigned)(m % base); t[--i] = (char)(d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10); m /= base; }
            int want = prec >= 0 ? prec : 1;
            while (400 - i < want) t[--i] = '0';
            if (alt && base == 16) { t[--i] = (char)*f; t[--i] = '0'; }
            src = t + i; n = 400 - i;
            if (prec >= 0) zero = false;
            break;
        }
        case 'f': case 'F': case 'g': case 'G': case 'e': case 'E': {
            double v = va_arg(ap, double);
            n = sxm_fmt_double(t, sizeof t, v, (char)*f | 32, prec < 0 ? 6 : prec, (alt ? 1 : 0) | (plus ? 2 : 0) | (*f < 'a' ? 4 : 0));
            if (n && (t[0] == '-' || t[0] == '+')) { sign = t[0]; src = t + 1; n--; }
            break;
        }
        case 'p': t[n++] = '0'; t[n++] = 'x'; (void)va_arg(ap, void*); break;
        default: sx_fail("printf conversion"); return;
        }
        int tot = n + (sign ? 1 : 0);
        if (!left && !zero) for (int i = tot; i < width; i++) o.put(' ');
        if (sign) o.put(sign);
        if (!left && zero) for (int i = tot; i < width; i++) o.put('0');
        for (int i = 0; i < n; i++) o.put(wsrc ? (C)wsrc[i] : (C)src[i]);
        if (left) for (int i = tot; i < width; i++) o.put(' ');
    }
}
extern "C" {
int vsnprintf(char* b, size_t cap, const char* f, va_list ap) { Out<char> o{b, cap, 0}; vfmt(o, f, ap); if (cap) b[o.n < cap ? o.n : cap - 1] = 0; return (int)o.n; }
int snprintf(char* b, size_t cap, const char* f, ...) { va_list ap; va_start(ap, f); int n = vsnprintf(b, cap, f, ap); va_end(ap); return n; }
int vsprintf(char* b, const char* f, va_list ap) { return vsnprintf(b, 1 << 20, f, ap); }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int n = vsnprintf(b, 1 << 20, f, ap); va_end(ap); return n; }
int vswprintf(wchar_t* b, size_t cap, const wchar_t* f, va_list ap) { Out<wchar_t> o{b, cap, 0}; vfmt(o, f, ap); if (cap) b[o.n < cap ? o.n : cap - 1] = 0; return o.n >= cap ? -1 : (int)o.n; }
int swprintf(wchar_t* b, size_t cap, const wchar_t* f, ...) { va_list ap; va_start(ap, f); int n = vswprintf(b, cap, f, ap); va_end(ap); return n; }
int printf(const char*, ...) { return 0; }
int fprintf(FILE*, const char*, ...) { return 0; }
int vfprintf(FILE*, const char*, va_list) { return 0; }
int vprintf(const char*, va_list) { return 0; }
int puts(const char*) { return 0; }
int putchar(int c) { return c; }
int fputs(const char*, FILE*) { return 0; }
int fputc(int c, FILE*) { return c; }
int fflush(FILE*) { return 0; }
size_t fwrite(const void*, size_t, size_t n, FILE*) { return n; }
// scanf: %d %i(decimal) %u %f %lf %s %c with widths, and literal text
int vsscanf(const char* s, const char* f, va_list ap) {
    int got = 0;
    const char* p = s;
    for (; *f; f++) {
        if (ws_(*f)) { while (ws_(*p)) p++; continue; }
        if (*f != '%') { if (*p != *f) return (!*p && !got) ? -1 : got; p++; continue; }
        f++;
        bool skip = false; if (*f == '*') { skip = true; f++; }
        int w = 0; while (dig_(*f)) w = w * 10 + (*f++ - '0');
        int lng = 0; while (*f == 'l' || *f == 'h' || *f == 'z') { lng += *f == 'h' ? -1 : 1; f++; }
        if (*f == '%') { while (ws_(*p)) p++; if (*p != '%') return got; p++; continue; }
        if (*f != 'c' && *f != 'n' && *f != '[') { while (ws_(*p)) p++; }
        if (*f == 'n') { *va_arg(ap, int*) = (int)(p - s); continue; }
        if (!*p) return got ? got : -1;
        switch (*f) {
        case 'd': case 'u': case 'i': {
            int left = w ? w : 1 << 20;
            bool neg = false;
            const char* q = p;
            if (left > 0 && (*q == '-' || *q == '+')) { neg = *q == '-'; q++; left--; }
            uint64_t v = 0; int nd = 0; bool ovf = false;
            bool sg = *f != 'u';
            uint64_t lim = sg ? (neg ? 1ull << 63 : (1ull << 63) - 1) : ~0ull;
            while (left > 0 && dig_(*q)) {
                unsigned d = (unsigned)*q & 15;
                nd++;
                if (nd >= 15 && !ovf && v > (lim - d) / 10) ovf = true;
                v = v * 10 + d; q++; left--;
            }
            if (!nd) return got;
            { const char* z = q - nd; int k = nd; uint64_t w; while (k > 1 && sx_is_conc_u((unsigned char)*z) && *z == '0') { z++; k--; }
              if (!ovf && k < 19 && sx_dec_parse(z, 1, k, &w)) v = w; }   // digits of a printed number: that number
            if (ovf) v = (neg && sg) ? 1ull << 63 : lim; else if (neg) v = 0 - v;
            p = q;
            if (!skip) {
                if (lng >= 1) *va_arg(ap, int64_t*) = (int64_t)v;
                else if (lng == -1) *va_arg(ap, short*) = (short)v;
                else *va_arg(ap, int*) = (int)v;
                got++;
            }
            break;
        }
        case 'f': case 'g': case 'e': {
            if (w) { sx_fail("scanf: width of a floating-point conversion"); return got; }
            char* e = nullptr;
            double v = strtod(p, &e);
            if (e == p) return got;
            p = e;
            if (!skip) { if (lng >= 1) *va_arg(ap, double*) = v; else *va_arg(ap, float*) = (float)v; got++; }
            break;
        }
        case 's': {
            char* d = skip ? nullptr : va_arg(ap, char*);
            int n = 0, left = w ? w : 1 << 20;
            while (left-- > 0 && *p && !ws_(*p)) { if (d) d[n] = *p; n++; p++; }
            if (d) { d[n] = 0; got++; }
            break;
        }
        case 'c': { char* d = skip ? nullptr : va_arg(ap, char*); int n = w ? w : 1; for (int i = 0; i < n; i++) { if (!*p) return got; if (d) d[i] = *p; p++; } if (d) got++; break; }
        default: sx_fail("scanf conversion"); return got;
        }
    }
    return got;
}
int sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int n = vsscanf(s, f, ap); va_end(ap); return n; }
int __isoc99_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int n = vsscanf(s, f, ap); va_end(ap); return n; }
int sx_sscanf(const char*, const char*, ...) __asm__("sscanf"); int sx_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int n = vsscanf(s, f, ap); va_end(ap); return n; }
// ------------------------------------------------------------------ time (UTC)
static int64_t fdiv(int64_t a, int64_t b) { int64_t q = a / b; return q - ((a % b) < 0); }
static int64_t days_from_civil(int64_t y, int64_t m, int64_t d) {  // m may be any integer
    y += fdiv(m - 1, 12);
    int64_t mm = (m - 1) - fdiv(m - 1, 12) * 12;              // 0..11
    static const int cum[12] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
    int c = 0;
    for (int i = 0; i < 12; i++) c = (mm == i) ? cum[i] : c;
    bool leap = (y - fdiv(y, 4) * 4 == 0) & ((y - fdiv(y, 100) * 100 != 0) | (y - fdiv(y, 400) * 400 == 0));
    int64_t y1 = y - 1;
    int64_t days = 365 * (y - 1970) + (fdiv(y1, 4) - fdiv(y1, 100) + fdiv(y1, 400)) - 477;
    return days + c + ((leap & (mm > 1)) ? 1 : 0) + d - 1;
}
// Symbolic moments: the year and the month are found by comparisons (forking where both are possible), the rest is the
// unique mixed-radix decomposition of the seconds since the beginning of the month.
static bool gm_symbolic(int64_t t, struct tm* r) {
    int lo = 1700, hi = 2700;                            // t in [start(lo), start(hi))
    if (t < days_from_civil(lo, 1, 1) * 86400 || t >= days_from_civil(hi, 1, 1) * 86400) return false;
    while (hi - lo > 1) { int mid = (lo + hi) / 2; if (sx_fork(t < days_from_civil(mid, 1, 1) * 86400)) hi = mid; else lo = mid; }
    int ml = 1, mh = 13;
    while (mh - ml > 1) { int mid = (ml + mh) / 2; if (sx_fork(t < days_from_civil(lo, mid, 1) * 86400)) mh = mid; else ml = mid; }
    int64_t first = days_from_civil(lo, ml, 1);
    uint32_t rem = (uint32_t)(t - first * 86400);
    uint32_t d = (uint32_t)sx_bits("tm.day", 5), h = (uint32_t)sx_bits("tm.hour", 5), mi = (uint32_t)sx_bits("tm.min", 6), se = (uint32_t)sx_bits("tm.sec", 6);
    sx_assume((h < 24) & (mi < 60) & (se < 60) & (d < 31));
    sx_assume(d * 86400 + h * 3600 + mi * 60 + se == rem);
    r->tm_year = lo - 1900; r->tm_mon = ml - 1; r->tm_mday = (int)d + 1;
    r->tm_hour = (int)h; r->tm_min = (int)mi; r->tm_sec = (int)se;
    r->tm_yday = (int)(first - days_from_civil(lo, 1, 1)) + (int)d;
    int w = (int)((first + 4) % 7); if (w < 0) w += 7;
    r->tm_wday = (w + (int)d) % 7;
    r->tm_isdst = 0; r->tm_gmtoff = 0; r->tm_zone = "GMT";
    return true;
}
static struct { int64_t t; struct tm f; } gm_known[8];   // moments whose calendar fields were already established on this path
static int gm_nknown;
static void gm_note(int64_t t, const struct tm* r) { gm_known[gm_nknown % 8].t = t; gm_known[gm_nknown % 8].f = *r; gm_nknown++; }
struct tm* gmtime_r(const time_t* tp, struct tm* r) {
    int64_t t = *tp;
    if (!sx_is_conc_u((uint64_t)t)) {
        for (int i = 0; i < gm_nknown && i < 8; i++)
            if (sx_valid(t == gm_known[i].t)) { *r = gm_known[i].f; return r; }
        if (!gm_symbolic(t, r)) sx_fail("date outside the model");
        gm_note(t, r);
        return r;
    }
    int64_t days = fdiv(t, 86400), rem = t - days * 86400;
    r->tm_hour = (int)(rem / 3600); r->tm_min = (int)(rem % 3600 / 60); r->tm_sec = (int)(rem % 60);
    int64_t wd = (days + 4) - fdiv(days + 4, 7) * 7;
    r->tm_wday = (int)wd;
    // civil from days (proleptic Gregorian)
    int64_t z = days + 719468, era = fdiv(z, 146097), doe = z - era * 146097;
    int64_t yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    int64_t y = yoe + era * 400, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    int64_t d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9;
    y += (m <= 2);
    r->tm_mday = (int)d; r->tm_mon = (int)(m - 1); r->tm_year = (int)(y - 1900);
    bool leap = (y - fdiv(y, 4) * 4 == 0) & ((y - fdiv(y, 100) * 100 != 0) | (y - fdiv(y, 400) * 400 == 0));
    // March-based day number to January-based
    r->tm_yday = (int)(m > 2 ? doy + 59 + leap : doy - 306);
    r->tm_isdst = 0; r->tm_gmtoff = 0; r->tm_zone = "GMT";
    return r;
}
struct tm* localtime_r(const time_t* tp, struct tm* r) { gmtime_r(tp, r); r->tm_zone = "UTC"; return r; }
static struct tm sx_static_tm;
struct tm* gmtime(const time_t* tp) { return gmtime_r(tp, &sx_static_tm); }
struct tm* localtime(const time_t* tp) { return localtime_r(tp, &sx_static_tm); }
time_t timegm(struct tm* t) {
    int64_t d = days_from_civil((int64_t)sx_fork((uint64_t)(int64_t)t->tm_year) + 1900, (int64_t)sx_fork((uint64_t)(int64_t)t->tm_mon) + 1, 1) + t->tm_mday - 1;
    time_t r = d * 86400 + (int64_t)t->tm_hour * 3600 + (int64_t)t->tm_min * 60 + t->tm_sec;
    if (!sx_is_conc_u((uint64_t)r)) {
        for (int i = 0; i < gm_nknown && i < 8; i++) {       // the fields of a moment met before: the same moment
            const struct tm& f = gm_known[i].f;
            if (sx_valid((f.tm_year == t->tm_year) & (f.tm_mon == t->tm_mon) & (f.tm_mday == t->tm_mday) & (f.tm_hour == t->tm_hour) & (f.tm_min == t->tm_min) & (f.tm_sec == t->tm_sec))) { *t = f; return gm_known[i].t; }
        }
        int m = t->tm_mon;
        if (sx_fork((m >= 0) & (m < 12)) && sx_fork((t->tm_hour >= 0) & (t->tm_hour < 24) & (t->tm_min >= 0) & (t->tm_min < 60) & (t->tm_sec >= 0) & (t->tm_sec < 60))) {
            int64_t y = (int64_t)sx_fork((uint64_t)(int64_t)t->tm_year) + 1900; m = (int)sx_fork((uint64_t)m);
            int64_t first = days_from_civil(y, m + 1, 1), len = days_from_civil(y + (m == 11), (m + 1) % 12 + 1, 1) - first;
            if (sx_fork((t->tm_mday >= 1) & (t->tm_mday <= len))) {   // already normalised
                int w = (int)((first + 4) % 7); if (w < 0) w += 7;
                t->tm_wday = (w + t->tm_mday - 1) % 7; t->tm_yday = (int)(first - days_from_civil(y, 1, 1)) + t->tm_mday - 1;
                t->tm_isdst = 0; t->tm_gmtoff = 0; t->tm_zone = "GMT";
                gm_note(r, t);
                return r;
            }
        }
    }
    gmtime_r(&r, t);                                     // normalises the fields
    return r;
}
time_t mktime(struct tm* t) { time_t r = timegm(t); t->tm_zone = "UTC"; return r; }
size_t strftime(char* b, size_t cap, const char* f, const struct tm* t) {
    Out<char> o{b, cap, 0};
    auto num = [&](int v, int w) {
        char x[16]; int i = 16; bool neg = v < 0; unsigned m = neg ? 0u - (unsigned)v : (unsigned)v;
        i -= sxm_digits(m, x + 16);
        if (neg) { o.put('-'); w--; }
        for (int k = 16 - i; k < w; k++) o.put('0');
        while (i < 16) o.put(x[i++]);
    };
    for (; *f; f++) {
        if (*f != '%') { o.put(*f); continue; }
        f++;
        switch (*f) {
        case 'Y': num(t->tm_year + 1900, 1); break;
        case 'm': num(t->tm_mon + 1, 2); break;
        case 'd': num(t->tm_mday, 2); break;
        case 'H': num(t->tm_hour, 2); break;
        case 'I': num((t->tm_hour + 11) % 12 + 1, 2); break;
        case 'p': o.put(sx_fork(t->tm_hour >= 12) ? 'P' : 'A'); o.put('M'); break;
        case 'y': num((t->tm_year + 1900) % 100, 2); break;
        case 'C': num((t->tm_year + 1900) / 100, 2); break;
        case 'e': if (sx_fork(t->tm_mday < 10)) o.put(' '); num(t->tm_mday, 1); break;
        case 'k': if (sx_fork(t->tm_hour < 10)) o.put(' '); num(t->tm_hour, 1); break;
        case 'D': num(t->tm_mon + 1, 2); o.put('/'); num(t->tm_mday, 2); o.put('/'); num((t->tm_year + 1900) % 100, 2); break;
        case 'R': num(t->tm_hour, 2); o.put(':'); num(t->tm_min, 2); break;
        case 'w': num(t->tm_wday, 1); break;
        case 'u': num((t->tm_wday + 6) % 7 + 1, 1); break;
        case 'b': case 'h': { const char* n = "JanFebMarAprMayJunJulAugSepOctNovDec" + 3 * sx_fork((uint64_t)t->tm_mon); o.put(n[0]); o.put(n[1]); o.put(n[2]); break; }
        case 'a': { const char* n = "SunMonTueWedThuFriSat" + 3 * sx_fork((uint64_t)t->tm_wday); o.put(n[0]); o.put(n[1]); o.put(n[2]); break; }
        case 'M': num(t->tm_min, 2); break;
        case 'S': num(t->tm_sec, 2); break;
        case 'j': num(t->tm_yday + 1, 3); break;
        case 'X': case 'T': num(t->tm_hour, 2); o.put(':'); num(t->tm_min, 2); o.put(':'); num(t->tm_sec, 2); break;
        case 'F': num(t->tm_year + 1900, 1); o.put('-'); num(t->tm_mon + 1, 2); o.put('-'); num(t->tm_mday, 2); break;
        case '%': o.put('%'); break;
        default: sx_fail("strftime conversion"); return 0;
        }
    }
    if (o.n + 1 > cap) return 0;
    b[o.n] = 0;
    return o.n;
}
time_t time(time_t* p) { time_t t = (time_t)(1600000000 + (int64_t)sx_bits("time", 16)); if (p) *p = t; return t; }
int gettimeofday(struct timeval* tv, void*) noexcept { tv->tv_sec = time(nullptr); uint64_t u = sx_bits("usec", 20); sx_assume(u < 1000000); tv->tv_usec = (long)u; return 0; }
char* asctime_r(const struct tm*, char* b) { return strcpy(b, "Thu Jan  1 00:00:00 1970\n"); }
clock_t clock() { return 0; }
int usleep(unsigned) { return 0; }
long sysconf(int) { return 4; }
int getpid() { return 4242; }
char* getenv(const char*) { return nullptr; }
int setlocale_dummy;
char* setlocale(int, const char*) { return (char*)"C"; }
// ------------------------------------------------------------------ in-memory file system
struct FsNode { char path[128]; bool used, dir; char* data; uint64_t len, cap; bool link; char to[64]; };
enum { FS_MAX = 48 };
static FsNode fsn[FS_MAX];
static const char FS_CWD[] = "/w";
const char* fs_cwd() { return FS_CWD; }
static int fs_links = 0;
static FsNode* fs_find(const char* a);
static bool fs_norm(const char* p, char* out, bool last = true) {  // absolute, without ".", ".." and repeated separators; last: follow a link at the end
    size_t n = 0;
    if (*p == 0) return false;
    if (*p != '/') { strcpy(out, FS_CWD); n = strlen(out); }
    while (*p) {
        while (*p == '/') p++;
        if (!*p) break;
        size_t l = 0;
        while (p[l] && p[l] != '/') l++;
        if (l == 1 && p[0] == '.') { p += l; continue; }
        if (l == 2 && p[0] == '.' && p[1] == '.') { while (n > 0 && out[n - 1] != '/') n--; if (n > 0) n--; p += l; continue; }
        if (n + l + 2 >= 128) return false;
        out[n++] = '/';
        for (size_t i = 0; i < l; i++) out[n++] = p[i];
        p += l;
        if (fs_links && (last || *p)) {
            out[n] = 0;
            FsNode* f = fs_find(out);
            if (f && f->link) strcpy(out, f->to), n = strlen(out);   // targets are stored in absolute form and lead to no further link
        }
    }
    if (n == 0) out[n++] = '/';
    out[n] = 0;
    return true;
}
static bool fs_isroot(const char* a) { return !strcmp(a, "/") || !strcmp(a, FS_CWD); }
static FsNode* fs_find(const char* a) { for (int i = 0; i < FS_MAX; i++) if (fsn[i].used && !strcmp(fsn[i].path, a)) return &fsn[i]; return nullptr; }
static bool fs_dirok(const char* a) { if (fs_isroot(a)) return true; FsNode* f = fs_find(a); return f && f->dir; }
static bool fs_parentok(const char* a) {
    char b[128]; strcpy(b, a);
    char* e = strrchr(b, '/');
    if (!e) return false;
    if (e == b) return true;
    *e = 0;
    return fs_dirok(b);
}
static FsNode* fs_new(const char* a, bool dir) {
    for (int i = 0; i < FS_MAX; i++) if (!fsn[i].used) {
        fsn[i].used = true; fsn[i].dir = dir; fsn[i].link = false; fsn[i].len = 0; fsn[i].cap = 0; fsn[i].data = nullptr;
        strcpy(fsn[i].path, a);
        return &fsn[i];
    }
    sx_fail("file system full");
    return nullptr;
}
void* sxfs_open(const char* path, int rd, int wr, int app, int trunc) {
    char a[128];
    bool slash = *path && path[strlen(path) - 1] == '/';
    if (!fs_norm(path, a) || fs_isroot(a)) { errno_cell = ENOENT; return nullptr; }
    FsNode* f = fs_find(a);
    if (f && (f->dir && wr)) return nullptr;
    if (f && f->dir) return f;                       // opening a directory for reading succeeds, reading it fails
    if (slash) return nullptr;
    if (!f) {
        if (!wr || (rd && !app && !trunc)) { errno_cell = ENOENT; return nullptr; }
        if (!fs_parentok(a)) { errno_cell = ENOENT; return nullptr; }
        f = fs_new(a, false);
    } else if (trunc) f->len = 0;
    return f;
}
bool sxfs_isdir(void* v) { return ((FsNode*)v)->dir; }
size_t sxfs_len(void* v) { return ((FsNode*)v)->len; }
char sxfs_get(void* v, size_t i) { return ((FsNode*)v)->data[i]; }
void sxfs_write(void* v, size_t pos, const char* p, size_t n) {
    FsNode* f = (FsNode*)v;
    if (pos + n > f->cap) {
        uint64_t c = f->cap ? f->cap * 2 : 256;
        while (c < pos + n) c *= 2;
        char* d = (char*)sx_sysalloc(c);
        if (f->len) memcpy(d, f->data, f->len);
        f->data = d; f->cap = c;
    }
    for (size_t i = f->len; i < pos; i++) f->data[i] = 0;
    if (n) memcpy(f->data + pos, p, n);
    if (pos + n > f->len) f->len = pos + n;
}
void fs_put(const char* path, const char* data, size_t n) { void* f = sxfs_open(path, 0, 1, 0, 1); if (!f) { sx_fail("fs_put"); return; } if (n) sxfs_write(f, 0, data, n); }
static FsNode* fs_at(const char* p) { char a[128]; if (!fs_norm(p, a)) return nullptr; return fs_find(a); }
long fs_size(const char* p) { FsNode* f = fs_at(p); return f && !f->dir ? (long)f->len : -1; }
size_t fs_read(const char* p, char* b, size_t cap) { FsNode* f = fs_at(p); if (!f || f->dir) return 0; size_t n = f->len < cap ? f->len : cap; if (n) memcpy(b, f->data, n); return n; }
void fs_mkdir(const char* p) { char a[128]; if (fs_norm(p, a) && !fs_isroot(a) && !fs_find(a)) fs_new(a, true); }
bool fs_isfile(const char* p) { FsNode* f = fs_at(p); return f && !f->dir; }
bool fs_isdir(const char* p) { char a[128]; return fs_norm(p, a) && fs_dirok(a); }
long fs_count() { long n = 0; for (int i = 0; i < FS_MAX; i++) n += fsn[i].used; return n; }
// POSIX calls on it
int access(const char* p, int) noexcept { char a[128]; if (!fs_norm(p, a)) { errno_cell = ENOENT; return -1; } bool sl = p[strlen(p) - 1] == '/'; if (fs_isroot(a)) return 0; FsNode* f = fs_find(a); if (!f || (sl && !f->dir)) { errno_cell = ENOENT; return -1; } return 0; }
int stat(const char* p, struct stat* s) noexcept {
    if (access(p, 0)) return -1;
    char a[128]; fs_norm(p, a);
    memset(s, 0, sizeof *s);
    if (fs_dirok(a)) s->st_mode = S_IFDIR | 0755;
    else { s->st_mode = S_IFREG | 0644; s->st_size = (long)fs_find(a)->len; }
    return 0;
}
char* realpath(const char* p, char* out) noexcept {
    char a[128];
    // every component must exist
    if (access(p, 0)) return nullptr;
    fs_norm(p, a);
    if (!out) out = (char*)malloc(4096);
    return strcpy(out, a);
}
static bool fs_hasentry(const char* a) { size_t n = strlen(a); for (int i = 0; i < FS_MAX; i++) if (fsn[i].used && !strncmp(fsn[i].path, a, n) && fsn[i].path[n] == '/') return true; return false; }
static char fs_gone[64][128]; static int fs_ngone = 0;
long fs_removals() { return fs_ngone; }
const char* fs_removal(long i) { return fs_gone[i]; }
static void fs_attempt(const char* a) { if (fs_ngone < 64) strcpy(fs_gone[fs_ngone++], a); else sx_fail("removals"); }
static int fs_rmdir(const char* a) {
    if (fs_isroot(a)) { errno_cell = EBUSY; return -1; }
    FsNode* f = fs_find(a); if (!f) { errno_cell = ENOENT; return -1; } if (!f->dir) { errno_cell = ENOTDIR; return -1; } if (fs_hasentry(a)) { errno_cell = ENOTEMPTY; return -1; }
    f->used = false; return 0;
}
static int fs_unlink(const char* a) { FsNode* f = fs_find(a); if (!f) { errno_cell = ENOENT; return -1; } if (f->dir) { errno_cell = EISDIR; return -1; } if (f->link) fs_links--; f->used = false; return 0; }
static int fs_drop(const char* p, bool dir, bool file) {
    char a[128]; if (!*p || !fs_norm(p, a, false)) { errno_cell = ENOENT; return -1; }
    fs_attempt(a);
    if (dir && file) { FsNode* f = fs_find(a); dir = fs_isroot(a) || (f && f->dir); }
    return dir ? fs_rmdir(a) : fs_unlink(a);
}
int rmdir(const char* p) noexcept { return fs_drop(p, true, false); }
int unlink(const char* p) noexcept { return fs_drop(p, false, true); }
int remove(const char* p) noexcept { return fs_drop(p, true, true); }
void fs_link(const char* p, const char* to) {
    char a[128], t[128];
    if (!fs_norm(p, a, false) || fs_find(a) || !fs_norm(to, t)) { sx_fail("fs_link"); return; }
    FsNode* f = fs_new(a, false);
    f->link = true; strcpy(f->to, t); fs_links++;
}
bool fs_islink(const char* p) { char a[128]; if (!fs_norm(p, a, false)) return false; FsNode* f = fs_find(a); return f && f->link; }
int lstat(const char* p, struct stat* s) noexcept {
    if (fs_islink(p)) { memset(s, 0, sizeof *s); s->st_mode = S_IFLNK | 0777; return 0; }
    return stat(p, s);
}
int mkdir(const char* p, mode_t) noexcept {
    char a[128]; if (!fs_norm(p, a)) { errno_cell = ENOENT; return -1; }
    if (fs_isroot(a) || fs_find(a)) { errno_cell = EEXIST; return -1; }
    if (!fs_parentok(a)) { errno_cell = ENOENT; return -1; }
    fs_new(a, true); return 0;
}
int rename(const char* p, const char* q) noexcept { char b[128]; FsNode* f = fs_at(p); if (!f || !fs_norm(q, b)) return -1; FsNode* g = fs_find(b); if (g) g->used = false; strcpy(f->path, b); return 0; }
struct SxDir { char path[128]; int pos; struct dirent e; };
DIR* opendir(const char* p) {
    char a[128];
    if (access(p, 0)) return nullptr;
    fs_norm(p, a);
    if (!fs_dirok(a)) { errno_cell = ENOTDIR; return nullptr; }
    SxDir* d = (SxDir*)malloc(sizeof(SxDir));
    strcpy(d->path, a); d->pos = -2;
    return (DIR*)d;
}
struct dirent* readdir(DIR* dd) {
    SxDir* d = (SxDir*)dd;
    if (d->pos < 0) { strcpy(d->e.d_name, d->pos == -2 ? "." : ".."); d->e.d_type = DT_DIR; d->pos++; return &d->e; }
    size_t n = strlen(d->path);
    while (d->pos < FS_MAX) {
        FsNode& f = fsn[d->pos++];
        if (!f.used || strncmp(f.path, d->path, n) || f.path[n] != '/' || strchr(f.path + n + 1, '/')) continue;
        strcpy(d->e.d_name, f.path + n + 1);
        d->e.d_type = f.link ? DT_LNK : f.dir ? DT_DIR : DT_REG;
        return &d->e;
    }
    return nullptr;
}
int closedir(DIR* d) { free(d); return 0; }
ssize_t readlink(const char*, char* b, size_t) noexcept { strcpy(b, "/w/prog"); return 7; }
char* getcwd(char* b, size_t) noexcept { return strcpy(b, FS_CWD); }
// ------------------------------------------------------------------ sorting
void qsort(void* base, size_t n, size_t w, int (*cmp)(const void*, const void*)) {
    char* b = (char*)base; char t[64];
    if (w > 64) { sx_fail("qsort element size"); return; }
    for (size_t i = 1; i < n; i++)
        for (size_t j = i; j > 0 && cmp(b + (j - 1) * w, b + j * w) > 0; j--) { memcpy(t, b + j * w, w); memcpy(b + j * w, b + (j - 1) * w, w); memcpy(b + (j - 1) * w, t, w); }
}
}
// ------------------------------------------------------------------ libstdc++.so
namespace std {
ostream cout, cerr, clog;
istream cin;
struct _Rb_tree_node_base;
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
__cow_string::__cow_string() { _M_p = (char*)""; }
__cow_string::__cow_string(const std::string& s) { char* p = (char*)sx_sysalloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); _M_p = p; }
__cow_string::__cow_string(const char* s, size_t n) { char* p = (char*)sx_sysalloc(n + 1); memcpy(p, s, n); p[n] = 0; _M_p = p; }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = o._M_p; }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(string(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(string(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
domain_error::domain_error(const string& s) : logic_error(s) {} domain_error::domain_error(const char* s) : logic_error(s) {} domain_error::~domain_error() noexcept {}
invalid_argument::invalid_argument(const string& s) : logic_error(s) {} invalid_argument::invalid_argument(const char* s) : logic_error(s) {} invalid_argument::~invalid_argument() noexcept {}
length_error::length_error(const string& s) : logic_error(s) {} length_error::length_error(const char* s) : logic_error(s) {} length_error::~length_error() noexcept {}
out_of_range::out_of_range(const string& s) : logic_error(s) {} out_of_range::out_of_range(const char* s) : logic_error(s) {} out_of_range::~out_of_range() noexcept {}
range_error::range_error(const string& s) : runtime_error(s) {} range_error::range_error(const char* s) : runtime_error(s) {} range_error::~range_error() noexcept {}
overflow_error::overflow_error(const string& s) : runtime_error(s) {} overflow_error::overflow_error(const char* s) : runtime_error(s) {} overflow_error::~overflow_error() noexcept {}
underflow_error::underflow_error(const string& s) : runtime_error(s) {} underflow_error::underflow_error(const char* s) : runtime_error(s) {} underflow_error::~underflow_error() noexcept {}
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
// red-black trees: the model keeps the ordering structure and the header links but does not rebalance
typedef _Rb_tree_node_base* RB;
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    RB y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<RB>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;   // header
    if (x->_M_left) { RB y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    RB y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<RB>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;   // only the header is red
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    auto repl = [&](RB a, RB b) {   // put b where a is
        if (h._M_parent == a) h._M_parent = b;
        else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b;
        else a->_M_parent->_M_right = b;
        if (b) b->_M_parent = a->_M_parent;
    };
    if (!z->_M_left) repl(z, z->_M_right);
    else if (!z->_M_right) repl(z, z->_M_left);
    else {
        RB y = z->_M_right;
        while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        repl(z, y);
        y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
    }
    if (h._M_parent) {
        RB l = h._M_parent; while (l->_M_left) l = l->_M_left; h._M_left = l;
        RB r = h._M_parent; while (r->_M_right) r = r->_M_right; h._M_right = r;
    } else { h._M_left = &h; h._M_right = &h; }
    return z;
}
namespace __detail {
struct _List_node_base { _List_node_base *_M_next, *_M_prev; void _M_hook(_List_node_base*) noexcept; void _M_unhook() noexcept; };
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
}
}
// ------------------------------------------------------------------ services of the compiler runtime
extern "C" void __clang_call_terminate(void*) __attribute__((weak));
