// Harness interface: symbolic inputs, assertions, and a small file-system facade.
// In the symbolic executor the sx_* functions are built in and the fs_* functions work on an in-memory file system;
// natively (replay) they read the values of a recorded counterexample and work on real files in a scratch directory.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t sx_bits(const char* name, int bits);
double sx_ifp(const char* name, int64_t lo, int64_t hi);
double sx_real(const char* name);
int64_t sx_realint(const char* name, int64_t lo, int64_t hi);
void sx_assume(bool c);
void sx_check(const char* id, bool c);
void sx_reach(const char* label);
void sx_observe(const char* label, uint64_t v);
void sx_observe_d(const char* label, double v);
uint64_t sx_fork(uint64_t v);
int sx_native();
int64_t sx_param(const char* name);                   // bound set by the check (differs between the tiers)
void sx_print(const char* label, uint64_t v);
void sx_fail(const char* msg);
uint64_t sx_heap_mark();
void sx_heap_check(const char* id, uint64_t mark);
void sx_alloc_fail(int n);                             // the n-th "new (nothrow)" from now on (0: the next one) gives null; -1: none
bool sx_ptr_ok(const void* p, uint64_t n);
bool sx_bytes_init(const void* p, uint64_t n);
// file-system facade
void fs_put(const char* path, const char* data, size_t n);
long fs_size(const char* path);                       // -1 when there is no such regular file
size_t fs_read(const char* path, char* buf, size_t cap);
void fs_mkdir(const char* path);
bool fs_isfile(const char* path);
bool fs_isdir(const char* path);
const char* fs_cwd();                                 // absolute path of the scratch directory, no final separator
void fs_link(const char* path, const char* target);   // symbolic link; the target is absolute or relative to the scratch directory
bool fs_islink(const char* path);
long fs_removals();                                   // remove, unlink and rmdir calls so far
const char* fs_removal(long i);                       // what they were given, in absolute form
long fs_count();                                      // number of files and directories below the scratch directory
}
#ifdef __cplusplus
#include <string>
static inline int sx_int(const char* n, int lo, int hi) {   // symbolic integer in [lo, hi], not enumerated
    int w = 1;
    while (w < 32 && (((int64_t)hi - lo) >> w)) w++;
    int64_t v = (int64_t)sx_bits(n, w);
    sx_assume(v <= (int64_t)hi - lo);
    return (int)(v + lo);
}
static inline int sx_pick(const char* n, int lo, int hi) {  // enumerated: one path for each value
    return (int)sx_fork((uint64_t)(int64_t)sx_int(n, lo, hi));
}
static inline bool sx_flag(const char* n) { return sx_fork(sx_bits(n, 1)) != 0; }
static inline char sx_char(const char* n) { return (char)sx_bits(n, 8); }
static inline std::string sx_string(const char* n, int len) {   // len non-null characters, all symbolic
    std::string s(len, 'x');
    for (int i = 0; i < len; i++) { char c = sx_char(n); sx_assume(c != 0); s[i] = c; }
    return s;
}
static inline char sx_among(const char* n, const char* set) {  // one of the characters of set, symbolic
    int k = 0; while (set[k]) k++;
    int i = sx_int(n, 0, k - 1);
    char c = set[0];
    for (int j = 1; j < k; j++) c = (i == j) ? set[j] : c;
    return c;
}
static inline void sx_observe_s(const char* l, const std::string& s) {
    sx_observe(l, s.size());
    for (size_t i = 0; i < s.size(); i++) sx_observe(l, (unsigned char)s[i]);
}
#endif
