// Stand-in for a MongoDB server and the driver functions the library uses: one GridFS kept in memory.  Used by the symbolic runs and by
// native replays alike; natively the documents are those of the real libbson.
#include "sxmongo.h"
#include "sxapi.h"
#include <cstdlib>
#include <cstring>
#include <cstdio>
static const int MAXF = 8, MAXN = 64, MAXC = 8;
struct Stored { bool used; char name[MAXN]; char* data; int len, have; bson_t* meta; unsigned id; };
static Stored store[MAXF];
static int count, open_, failSave, failFind, ncoll;
static unsigned nextId;
static char coll[MAXC][MAXN];
struct _mongoc_gridfs_t { int x; };
struct _mongoc_gridfs_file_t { unsigned id; bool fresh, failed, saved; char name[MAXN]; char* data; int len, have; bson_t* meta; bson_value_t oid; };
struct _mongoc_gridfs_file_list_t { bson_t* filter; int at; };
struct _mongoc_client_t { int x; };
struct _mongoc_database_t { char name[MAXN]; };
struct _mongoc_collection_t { int x; };
struct _mongoc_uri_t { int x; };
typedef mongoc_gridfs_file_t File;
static void keep(char* d, const char* s) { size_t n = std::strlen(s); if (n >= MAXN) sx_fail("name too long for the GridFS model"); std::memcpy(d, s, n + 1); }
static char* dup(const char* p, int n) { char* q = (char*)std::malloc(n ? n : 1); if (n) std::memcpy(q, p, n); return q; }
static void err(bson_error_t* e, const char* m) { if (e) { e->domain = 1; e->code = 1; std::strcpy(e->message, m); } }
void mongo_reset() {
    for (int i = 0; i < count; i++) { std::free(store[i].data); bson_destroy(store[i].meta); }
    count = open_ = failSave = failFind = ncoll = 0;
}
int mongo_files() { return count; }
const char* mongo_name(int i) { return store[i].name; }
bson_t* mongo_meta(int i) { return store[i].meta; }
int mongo_length(int i) { return store[i].len; }
const char* mongo_data(int i) { return store[i].data; }
void mongo_put(const char* name, const char* data, int n, const bson_t* meta) {
    if (count == MAXF) sx_fail("too many files for the GridFS model");
    Stored& s = store[count++];
    keep(s.name, name);
    s.data = dup(data, n); s.len = s.have = n; s.meta = bson_copy(meta); s.id = ++nextId;
}
void mongo_cut(int i, int have) { store[i].have = have; }
void mongo_fail_saves(int n) { failSave = n; }
void mongo_fail_finds(int n) { failFind = n; }
void mongo_collection(const char* name) { if (ncoll == MAXC) sx_fail("too many collections for the model"); keep(coll[ncoll++], name); }
int mongo_open() { return open_; }
static bool number(const bson_value_t* v, double& d) {
    if (v->value_type == BSON_TYPE_INT32) d = v->value.v_int32;
    else if (v->value_type == BSON_TYPE_INT64) d = (double)v->value.v_int64;
    else if (v->value_type == BSON_TYPE_DOUBLE) d = v->value.v_double;
    else return false;
    return true;
}
static bool sameValue(const bson_value_t* a, const bson_value_t* b) {
    double x, y;
    if (number(a, x)) return number(b, y) && x == y;
    if (a->value_type != b->value_type) return false;
    if (a->value_type == BSON_TYPE_UTF8) return a->value.v_utf8.len == b->value.v_utf8.len && !std::memcmp(a->value.v_utf8.str, b->value.v_utf8.str, a->value.v_utf8.len);
    return false;
}
static bool matches(const Stored& s, const bson_t* filter) {
    bson_iter_t f, m;
    if (!bson_iter_init(&f, filter)) return false;
    while (bson_iter_next(&f)) {
        const char* k = bson_iter_key(&f);
        const bson_value_t* v = bson_iter_value(&f);
        if (!std::strcmp(k, "filename")) { if (v->value_type != BSON_TYPE_UTF8 || std::strcmp(v->value.v_utf8.str, s.name)) return false; continue; }
        if (std::strncmp(k, "metadata.", 9)) return false;
        if (!bson_iter_init(&m, s.meta) || !bson_iter_find(&m, k + 9) || !sameValue(v, bson_iter_value(&m))) return false;
    }
    return true;
}
static File* handle(const Stored& s) {
    File* f = (File*)std::malloc(sizeof(File));
    std::memset(f, 0, sizeof *f);
    f->id = s.id; std::strcpy(f->name, s.name); f->data = dup(s.data, s.len); f->len = s.len; f->have = s.have; f->meta = bson_copy(s.meta); f->saved = true;
    f->oid.value_type = BSON_TYPE_OID; f->oid.value.v_oid.bytes[11] = (uint8_t)s.id;
    open_++;
    return f;
}
extern "C" {
void mongoc_init() {}
void mongoc_cleanup() {}
mongoc_uri_t* mongoc_uri_new_for_host_port(const char*, uint16_t) { open_++; return (mongoc_uri_t*)std::malloc(sizeof(mongoc_uri_t)); }
void mongoc_uri_destroy(mongoc_uri_t* u) { if (u) { open_--; std::free(u); } }
mongoc_client_t* mongoc_client_new_from_uri(const mongoc_uri_t* u) { if (!u) return nullptr; open_++; return (mongoc_client_t*)std::malloc(sizeof(mongoc_client_t)); }
void mongoc_client_destroy(mongoc_client_t* c) { if (c) { open_--; std::free(c); } }
static char** names(const char (*n)[MAXN], int k) {
    char** r = (char**)bson_malloc((k + 1) * sizeof(char*));
    for (int i = 0; i < k; i++) { r[i] = (char*)bson_malloc(MAXN); std::strcpy(r[i], n[i]); }
    r[k] = nullptr;
    return r;
}
char** mongoc_client_get_database_names_with_opts(mongoc_client_t*, const bson_t*, bson_error_t*) { static const char db[1][MAXN] = {"db"}; return names(db, 1); }
mongoc_database_t* mongoc_client_get_database(mongoc_client_t*, const char* n) { mongoc_database_t* d = (mongoc_database_t*)std::malloc(sizeof *d); keep(d->name, n); open_++; return d; }
const char* mongoc_database_get_name(mongoc_database_t* d) { return d->name; }
void mongoc_database_destroy(mongoc_database_t* d) { if (d) { open_--; std::free(d); } }
char** mongoc_database_get_collection_names_with_opts(mongoc_database_t*, const bson_t*, bson_error_t*) { return names(coll, ncoll); }
bool mongoc_database_has_collection(mongoc_database_t*, const char* n, bson_error_t* e) {
    if (e) std::memset(e, 0, sizeof *e);
    for (int i = 0; i < ncoll; i++) if (!std::strcmp(coll[i], n)) return true;
    return false;
}
mongoc_collection_t* mongoc_client_get_collection(mongoc_client_t*, const char*, const char*) { open_++; return (mongoc_collection_t*)std::malloc(sizeof(mongoc_collection_t)); }
void mongoc_collection_destroy(mongoc_collection_t* c) { if (c) { open_--; std::free(c); } }
int64_t mongoc_collection_count_documents(mongoc_collection_t*, const bson_t*, const bson_t*, const mongoc_read_prefs_t*, bson_t*, bson_error_t*) { return count; }
mongoc_cursor_t* mongoc_collection_find_with_opts(mongoc_collection_t*, const bson_t*, const bson_t*, const mongoc_read_prefs_t*) { return nullptr; }
mongoc_gridfs_t* mongoc_client_get_gridfs(mongoc_client_t*, const char*, const char*, bson_error_t*) { open_++; return (mongoc_gridfs_t*)std::malloc(sizeof(mongoc_gridfs_t)); }
void mongoc_gridfs_destroy(mongoc_gridfs_t* g) { if (g) { open_--; std::free(g); } }
File* mongoc_gridfs_find_one_with_opts(mongoc_gridfs_t*, const bson_t* filter, const bson_t*, bson_error_t* e) {
    if (e) std::memset(e, 0, sizeof *e);
    if (failFind > 0) { failFind--; err(e, "failed"); return nullptr; }
    for (int i = 0; i < count; i++) if (matches(store[i], filter)) return handle(store[i]);
    return nullptr;
}
mongoc_gridfs_file_list_t* mongoc_gridfs_find_with_opts(mongoc_gridfs_t*, const bson_t* filter, const bson_t*) {
    mongoc_gridfs_file_list_t* l = (mongoc_gridfs_file_list_t*)std::malloc(sizeof *l);
    l->filter = bson_copy(filter); l->at = 0; open_++;
    return l;
}
File* mongoc_gridfs_file_list_next(mongoc_gridfs_file_list_t* l) {   // by growing id: files may be removed meanwhile
    int best = -1;
    for (int i = 0; i < count; i++) if ((int)store[i].id > l->at && matches(store[i], l->filter) && (best < 0 || store[i].id < store[best].id)) best = i;
    if (best < 0) return nullptr;
    l->at = (int)store[best].id;
    return handle(store[best]);
}
void mongoc_gridfs_file_list_destroy(mongoc_gridfs_file_list_t* l) { if (l) { bson_destroy(l->filter); open_--; std::free(l); } }
const bson_value_t* mongoc_gridfs_file_get_id(File* f) { return &f->oid; }
bool mongoc_gridfs_file_remove(File* f, bson_error_t* e) {
    for (int i = 0; i < count; i++) if (store[i].id == f->id) {
        std::free(store[i].data); bson_destroy(store[i].meta);
        for (; i + 1 < count; i++) store[i] = store[i + 1];
        count--;
        return true;
    }
    err(e, "no such file");
    return false;
}
const char* mongoc_gridfs_file_get_filename(File* f) { return f->name; }
const bson_t* mongoc_gridfs_file_get_metadata(File* f) { return f->meta; }
int64_t mongoc_gridfs_file_get_length(File* f) { return f->len; }
void mongoc_gridfs_file_destroy(File* f) { if (f) { std::free(f->data); if (f->meta) bson_destroy(f->meta); open_--; std::free(f); } }
File* mongoc_gridfs_create_file(mongoc_gridfs_t*, mongoc_gridfs_file_opt_t* o) {
    File* f = (File*)std::malloc(sizeof(File));
    std::memset(f, 0, sizeof *f);
    keep(f->name, o->filename ? o->filename : "");
    f->meta = o->metadata ? bson_copy(o->metadata) : bson_new();
    f->fresh = true; open_++;
    return f;
}
ssize_t mongoc_gridfs_file_writev(File* f, const mongoc_iovec_t* v, size_t n, uint32_t) {
    ssize_t w = 0;
    for (size_t i = 0; i < n; i++) {
        char* d = (char*)std::malloc(f->len + v[i].iov_len ? f->len + v[i].iov_len : 1);
        if (f->len) std::memcpy(d, f->data, f->len);
        if (v[i].iov_len) std::memcpy(d + f->len, v[i].iov_base, v[i].iov_len);
        std::free(f->data);
        f->data = d; f->len += (int)v[i].iov_len; w += v[i].iov_len;
    }
    return w;
}
bool mongoc_gridfs_file_save(File* f) {
    if (failSave > 0) { failSave--; f->failed = true; return false; }
    if (f->fresh) { mongo_put(f->name, f->data, f->len, f->meta); f->fresh = false; f->saved = true; }
    return true;
}
bool mongoc_gridfs_file_error(File* f, bson_error_t* e) { if (f->failed) { err(e, "not saved"); return true; } return false; }
struct Stream { mongoc_stream_t s; File* f; };
mongoc_stream_t* mongoc_stream_gridfs_new(File* f) { Stream* s = (Stream*)std::malloc(sizeof(Stream)); std::memset(s, 0, sizeof *s); s->f = f; open_++; return &s->s; }
ssize_t mongoc_stream_readv(mongoc_stream_t* p, mongoc_iovec_t* v, size_t n, size_t, int32_t) {   // a missing chunk is an error
    Stream* s = (Stream*)p;
    int at = 0;
    for (size_t i = 0; i < n; i++) {
        int k = (int)v[i].iov_len < s->f->len - at ? (int)v[i].iov_len : s->f->len - at;
        int have = s->f->have - at < 0 ? 0 : s->f->have - at;
        if (have > k) have = k;
        if (have) std::memcpy(v[i].iov_base, s->f->data + at, have);
        if (have < k) return -1;
        at += k;
    }
    return at;
}
void mongoc_stream_destroy(mongoc_stream_t* p) { if (p) { open_--; std::free(p); } }
}
