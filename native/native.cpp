// Native side of a harness: symbolic inputs are read from a recorded model, assertions abort, files are real ones in a
// scratch directory, and calls that delete or rename are refused outside it.
#include "sxapi.h"
#include <climits>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fstream>
#include <iostream>
#include <map>
#include <new>
#include <set>
#include <sstream>
#include <string>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using std::string;
static std::map<string, uint64_t> model;
static std::map<string, int> cnt;
static FILE* out;
static string scratch;
static uint64_t next(const char* n) {
    string k = string(n) + "#" + std::to_string(cnt[n]++);
    auto it = model.find(k);
    return it == model.end() ? 0 : it->second;
}
static void done(int rc) { fflush(out); fflush(stdout); _exit(rc); }
#if defined(__SANITIZE_ADDRESS__)
extern "C" int __lsan_do_recoverable_leak_check();
extern "C" void __asan_poison_memory_region(void const volatile*, size_t);
#endif
static int failAfter = -1;
static bool failing() { return failAfter >= 0 && failAfter-- == 0; }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { if (failing()) return nullptr; try { return ::operator new[](n); } catch (...) { return nullptr; } }
void* operator new(size_t n, const std::nothrow_t&) noexcept { if (failing()) return nullptr; try { return ::operator new(n); } catch (...) { return nullptr; } }
extern "C" {
uint64_t sx_bits(const char* n, int bits) { uint64_t v = next(n); return bits < 64 ? v & ((1ull << bits) - 1) : v; }
double sx_ifp(const char* n, int64_t lo, int64_t hi) {
    string k = string(n) + "#" + std::to_string(cnt[n]);
    bool has = model.count(k) > 0;
    uint64_t v = next(n); double d; memcpy(&d, &v, 8); (void)hi; return has ? d : (double)lo;
}
double sx_real(const char* n) { uint64_t v = next(n); double d; memcpy(&d, &v, 8); return d; }
int64_t sx_realint(const char* n, int64_t lo, int64_t) {
    string k = string(n) + "#" + std::to_string(cnt[n]);
    bool has = model.count(k) > 0;
    uint64_t v = next(n); return has ? (int64_t)v : lo;
}
void sx_assume(bool c) { if (!c) { fprintf(out, "ASSUME-FALSE\n"); done(43); } }
void sx_check(const char* id, bool c) { fprintf(out, "CHECK %s %d\n", id, (int)c); if (!c) { fprintf(out, "CHECK-FAILED %s\n", id); done(42); } }
void sx_reach(const char*) {}
void sx_observe(const char* l, uint64_t v) { fprintf(out, "OBS %s 0x%llx\n", l, (unsigned long long)v); }
void sx_observe_d(const char* l, double v) { uint64_t u; memcpy(&u, &v, 8); fprintf(out, "OBS %s 0x%llx\n", l, (unsigned long long)u); }
uint64_t sx_fork(uint64_t v) { return v; }
int sx_native() { return 1; }
int64_t sx_param(const char* n) { const char* v = getenv((string("SXP_") + n).c_str()); if (!v) { fprintf(out, "MODEL-FAIL no parameter %s\n", n); done(44); } return atoll(v); }
void sx_print(const char*, uint64_t) {}
void sx_fail(const char* m) { fprintf(out, "MODEL-FAIL %s\n", m); done(44); }
void sx_alloc_fail(int n) { failAfter = n; }
uint64_t sx_heap_mark() { return 0; }
void sx_heap_check(const char* id, uint64_t) {
#if defined(__SANITIZE_ADDRESS__)
    if (__lsan_do_recoverable_leak_check()) { fprintf(out, "CHECK-FAILED %s\n", id); done(42); }
#else
    (void)id;
#endif
}
bool sx_ptr_ok(const void*, uint64_t) { return true; }
bool sx_bytes_init(const void*, uint64_t) { return true; }
static void guard(const char* what, const char* p) {
    char r[PATH_MAX];
    string s = p, d = ".", b = s;
    while (s.size() > 1 && s.back() == '/') s.pop_back();
    size_t k = s.rfind('/');
    if (k != string::npos) { d = k ? s.substr(0, k) : "/"; b = s.substr(k + 1); } else b = s;
    if (!realpath(d.c_str(), r)) return;             // the call will fail by itself
    string full = string(r) + "/" + b;
    string in = string(r) + "/";
    if (in.compare(0, scratch.size() + 1, scratch + "/") != 0 || b == "..") { fprintf(out, "CHECK-FAILED escape.%s %s\n", what, full.c_str()); done(42); }
}
int __real_remove(const char*); int __real_unlink(const char*); int __real_rmdir(const char*); int __real_rename(const char*, const char*);
static std::vector<string> gone;
static void attempt(const char* p) {                 // absolute, without ".", ".." and repeated separators
    string s = p[0] == '/' ? p : scratch + "/" + p, r;
    size_t i = 0;
    while (i < s.size()) {
        while (i < s.size() && s[i] == '/') i++;
        size_t e = i;
        while (e < s.size() && s[e] != '/') e++;
        string c = s.substr(i, e - i); i = e;
        if (c.empty() || c == ".") continue;
        if (c == "..") { size_t k = r.rfind('/'); r = k == string::npos ? "" : r.substr(0, k); continue; }
        r += "/" + c;
    }
    if (*p) gone.push_back(r);
}
long fs_removals() { return (long)gone.size(); }
const char* fs_removal(long i) { return gone[(size_t)i].c_str(); }
int __wrap_remove(const char* p) { attempt(p); guard("remove", p); return __real_remove(p); }
int __wrap_unlink(const char* p) { attempt(p); guard("unlink", p); return __real_unlink(p); }
int __wrap_rmdir(const char* p) { attempt(p); guard("rmdir", p); return __real_rmdir(p); }
int __wrap_rename(const char* p, const char* q) { guard("rename", p); guard("rename", q); return __real_rename(p, q); }
int __wrap_system(const char* c) { fprintf(out, "CHECK-FAILED system %s\n", c); done(42); return 0; }
void fs_put(const char* p, const char* d, size_t n) { FILE* f = fopen(p, "wb"); if (!f) sx_fail("fs_put"); if (n) fwrite(d, 1, n, f); fclose(f); }
long fs_size(const char* p) { struct stat s; return stat(p, &s) == 0 && S_ISREG(s.st_mode) ? (long)s.st_size : -1; }
size_t fs_read(const char* p, char* b, size_t cap) { FILE* f = fopen(p, "rb"); if (!f) return 0; size_t n = fread(b, 1, cap, f); fclose(f); return n; }
void fs_mkdir(const char* p) { mkdir(p, 0755); }
void fs_link(const char* p, const char* to) { string t = to[0] == '/' ? string(to) : scratch + "/" + to; if (symlink(t.c_str(), p)) sx_fail("fs_link"); }
bool fs_islink(const char* p) { struct stat s; return lstat(p, &s) == 0 && S_ISLNK(s.st_mode); }
bool fs_isfile(const char* p) { struct stat s; return stat(p, &s) == 0 && S_ISREG(s.st_mode); }
bool fs_isdir(const char* p) { struct stat s; return stat(p, &s) == 0 && S_ISDIR(s.st_mode); }
const char* fs_cwd() { return scratch.c_str(); }
static long countIn(const string& d) {
    long n = 0; DIR* x = opendir(d.c_str());
    if (!x) return 0;
    while (dirent* e = readdir(x)) {
        string s = e->d_name;
        if (s == "." || s == "..") continue;
        n++;
        struct stat st; string f = d + "/" + s;
        if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) n += countIn(f);
    }
    closedir(x); return n;
}
long fs_count() { return countIn(scratch); }
}
static void wipe(const string& d) {                  // only ever the scratch directory made below
    DIR* x = opendir(d.c_str());
    if (!x) return;
    while (dirent* e = readdir(x)) {
        string s = e->d_name;
        if (s == "." || s == "..") continue;
        struct stat st; string f = d + "/" + s;
        if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) wipe(f);
        else __real_unlink(f.c_str());
    }
    closedir(x);
    __real_rmdir(d.c_str());
}
// usage: native ENTRY MODELFILE OUTFILE ; the model file holds one or more models, separated by lines "--"
int main(int argc, char** argv) {
    if (argc < 4) return 9;
    void (*entry)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!entry) { fprintf(stderr, "no entry %s\n", argv[1]); return 9; }
    std::ifstream in(argv[2]);
    std::vector<std::map<string, uint64_t>> ms(1);
    string line;
    while (std::getline(in, line)) {
        if (line == "--") { ms.emplace_back(); continue; }
        size_t sp = line.rfind(' ');
        if (sp != string::npos) ms.back()[line.substr(0, sp)] = strtoull(line.c_str() + sp + 1, nullptr, 16);
    }
    out = fopen(argv[3], "w");
    int worst = 0;
    for (size_t i = 0; i < ms.size(); i++) {
        char t[] = "/tmp/sxreplayXXXXXX";
        if (!mkdtemp(t)) return 9;
        fprintf(out, "RUN %zu\n", i); fflush(out);
        pid_t pid = fork();
        if (pid == 0) {
            char r[PATH_MAX];
            if (chdir(t) || !realpath(t, r)) _exit(9);
            scratch = r;
            model = ms[i];
            if (!freopen("/dev/null", "w", stdout)) _exit(9);
            alarm(20);
            entry();
            fprintf(out, "END\n");
            fflush(out);
#if defined(__SANITIZE_ADDRESS__)
            _exit(0);
#else
            _exit(0);
#endif
        }
        int w; waitpid(pid, &w, 0);
        fseek(out, 0, SEEK_END);
        int rc = WIFEXITED(w) ? WEXITSTATUS(w) : 128 + WTERMSIG(w);
        fprintf(out, "RC %d\n", rc); fflush(out);
        if (rc) worst = rc;
        wipe(t);
    }
    return worst ? 1 : 0;
}
