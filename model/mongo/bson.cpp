// Stand-in for libbson in the symbolic runs; native replays use the real one.  A document is a list of fields beyond its own header.
#ifndef SX_NATIVE
#include <mongoc.h>
#include "sxapi.h"
#include <cstdlib>
#include <cstring>
struct Field { char* key; bson_value_t v; };
struct Doc { Field* f; int n, cap; };
static Doc& doc(const bson_t* b) { return *(Doc*)((char*)b + 16); }
static char* text(const char* s, int n) { if (n < 0) n = (int)std::strlen(s); char* r = (char*)std::malloc(n + 1); if (n) std::memcpy(r, s, n); r[n] = 0; return r; }
static Field& add(bson_t* b, const char* k, int n) {
    Doc& d = doc(b);
    if (d.n == d.cap) {
        int c = d.cap ? d.cap * 2 : 8;
        Field* f = (Field*)std::malloc(c * sizeof(Field));
        if (d.n) std::memcpy(f, d.f, d.n * sizeof(Field));
        std::free(d.f);
        d.f = f; d.cap = c;
    }
    Field& f = d.f[d.n++];
    std::memset(&f, 0, sizeof f);
    f.key = text(k, n);
    return f;
}
extern "C" {
void* bson_malloc(size_t n) { return n ? std::malloc(n) : nullptr; }
void bson_free(void* p) { std::free(p); }
void bson_strfreev(char** s) { if (!s) return; for (int i = 0; s[i]; i++) std::free(s[i]); std::free(s); }
static void start(bson_t* b, unsigned flags) { std::memset(b, 0, sizeof *b); b->flags = flags; b->len = 5; }
bson_t* bson_new() { bson_t* b = (bson_t*)std::malloc(sizeof(bson_t)); start(b, 1); return b; }
void bson_init(bson_t* b) { start(b, 3); }
void bson_destroy(bson_t* b) {
    if (!b) return;
    Doc& d = doc(b);
    for (int i = 0; i < d.n; i++) { std::free(d.f[i].key); if (d.f[i].v.value_type == BSON_TYPE_UTF8) std::free(d.f[i].v.value.v_utf8.str); }
    std::free(d.f);
    d.f = nullptr; d.n = d.cap = 0;
    if (!(b->flags & 2)) std::free(b);
}
bson_t* bson_copy(const bson_t* b) {
    bson_t* r = bson_new();
    Doc& d = doc(b);
    for (int i = 0; i < d.n; i++) {
        Field& f = add(r, d.f[i].key, -1);
        f.v = d.f[i].v;
        if (f.v.value_type == BSON_TYPE_UTF8) f.v.value.v_utf8.str = text(f.v.value.v_utf8.str, (int)f.v.value.v_utf8.len);
    }
    return r;
}
bool bson_append_utf8(bson_t* b, const char* k, int kn, const char* v, int n) {
    if (!v) { Field& f = add(b, k, kn); f.v.value_type = BSON_TYPE_NULL; return true; }
    Field& f = add(b, k, kn);
    if (n < 0) n = (int)std::strlen(v);
    f.v.value_type = BSON_TYPE_UTF8; f.v.value.v_utf8.str = text(v, n); f.v.value.v_utf8.len = n;
    return true;
}
bool bson_append_int32(bson_t* b, const char* k, int n, int32_t v) { Field& f = add(b, k, n); f.v.value_type = BSON_TYPE_INT32; f.v.value.v_int32 = v; return true; }
bool bson_append_int64(bson_t* b, const char* k, int n, int64_t v) { Field& f = add(b, k, n); f.v.value_type = BSON_TYPE_INT64; f.v.value.v_int64 = v; return true; }
bool bson_append_double(bson_t* b, const char* k, int n, double v) { Field& f = add(b, k, n); f.v.value_type = BSON_TYPE_DOUBLE; f.v.value.v_double = v; return true; }
bool bson_append_bool(bson_t* b, const char* k, int n, bool v) { Field& f = add(b, k, n); f.v.value_type = BSON_TYPE_BOOL; f.v.value.v_bool = v; return true; }
bool bson_append_date_time(bson_t* b, const char* k, int n, int64_t v) { Field& f = add(b, k, n); f.v.value_type = BSON_TYPE_DATE_TIME; f.v.value.v_datetime = v; return true; }
bool bson_append_null(bson_t* b, const char* k, int n) { Field& f = add(b, k, n); f.v.value_type = BSON_TYPE_NULL; return true; }
bool bson_iter_init(bson_iter_t* i, const bson_t* b) { std::memset(i, 0, sizeof *i); i->raw = (const uint8_t*)&doc(b); i->off = 0; return true; }
bool bson_iter_next(bson_iter_t* i) { Doc& d = *(Doc*)i->raw; if ((int)i->off >= d.n) return false; i->off++; return true; }
const char* bson_iter_key(const bson_iter_t* i) { return ((Doc*)i->raw)->f[i->off - 1].key; }
bool bson_iter_find(bson_iter_t* i, const char* k) { while (bson_iter_next(i)) if (!std::strcmp(bson_iter_key(i), k)) return true; return false; }
const bson_value_t* bson_iter_value(bson_iter_t* i) { i->value = ((Doc*)i->raw)->f[i->off - 1].v; return &i->value; }
bson_type_t bson_iter_type(const bson_iter_t* i) { return ((Doc*)i->raw)->f[i->off - 1].v.value_type; }
void bson_oid_to_string(const bson_oid_t* o, char s[25]) {
    for (int i = 0; i < 12; i++) { s[2 * i] = "0123456789abcdef"[o->bytes[i] >> 4]; s[2 * i + 1] = "0123456789abcdef"[o->bytes[i] & 15]; }
    s[24] = 0;
}
}
#endif
