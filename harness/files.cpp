// Paths, directories and text files (C19, C20, C21).
#include "sxapi.h"
#include "utils_filesystem.h"
#include "utils_string.h"
#include <cstring>
using namespace ccgl;
using namespace ccgl::utils_filesystem;
struct Parts { std::string dir, core, ext; bool hasdir; };
static Parts split(const std::string& p) {
    Parts r;
    size_t cut = 0, dot = p.size();
    r.hasdir = false;
    for (size_t i = 0; i < p.size(); i++) if (p[i] == '/') { cut = i + 1; r.hasdir = true; }
    for (size_t i = cut; i < p.size(); i++) if (p[i] == '.') dot = i;
    if (dot + 1 == p.size()) dot = p.size();     // nothing follows the last dot: no extension
    r.dir = p.substr(0, cut);
    r.core = p.substr(cut, dot - cut);
    if (dot < p.size()) r.ext = p.substr(dot + 1);
    return r;
}
static std::string suffixed(const std::string& core, const Parts& p) { return p.ext.empty() ? core : core + "." + p.ext; }
// What joining does to a directory: an existing one is spelled out as an absolute path, others stay as they are.
static std::string joinedDir(const std::string& d) {
    if (d.empty() || !fs_isdir(d.c_str())) return d;
    if (d[0] == '/' && d.find("//") == std::string::npos && d.find("/.") == std::string::npos) return d;
    std::string a = GetAbsolutePath(d);
    return a[a.size() - 1] == '/' ? a : a + "/";
}
// path: as given; abs: what it stands for
static void pathChecks(const std::string& path, const std::string& abs, bool joined) {
    Parts e = split(abs);
    sx_check("core", GetCoreFileName(path) == e.core);
    sx_check("suffix", GetSuffix(path) == e.ext);
    std::string dir = GetPathFromFullName(path);
    sx_check("dir", dir == e.dir);
    if (joined) sx_check("rejoined", ConcatFullName(dir, e.core, e.ext) == abs);
    int w = sx_pick("edit", 0, 3);
    if (w == 0) {
        if (e.hasdir && !e.ext.empty()) { sx_check("replaced", ReplaceSuffix(path, "zz") == e.dir + e.core + ".zz"); sx_reach("replaced"); }
    } else if (w == 1) sx_check("appended", AppendCoreFileName(path, "q", '-') == joinedDir(e.dir) + suffixed(e.core + "-q", e));
    else if (w == 2) sx_check("prefixed", PrefixCoreFileName(path, "q") == joinedDir(e.dir) + suffixed("q_" + e.core, e));
    else {
        sx_check("appended number", AppendCoreFileName(path, 12) == joinedDir(e.dir) + suffixed(e.core + "_12", e));
        sx_check("prefixed number", PrefixCoreFileName(path, -3, '+') == joinedDir(e.dir) + suffixed("-3+" + e.core, e));
    }
    sx_observe_s("core", e.core); sx_observe_s("ext", e.ext);
}
static std::string fileName(int len) {
    std::string n = sx_string("name", len);
    for (int i = 0; i < len; i++) sx_assume(n[i] != '/');
    sx_assume(!(n == "." || n == ".."));
    return n;
}
//@unit C19 c19_missing time=60/300 N=5/7 | paths of files that do not exist: one of the directories (none), "/w/", "/w/a.b/", "/no.pe/x/", "k.l/", "./" with a file name of 1 to N arbitrary bytes other than the separator and NUL
extern "C" void c19_missing() {
    static const char* dirs[] = {"", "/no.pe/x/", "/.q/", "k.l/", "./"};
    fs_mkdir("a.b");
    int d = sx_pick("dir", 0, 5);
    std::string base = d == 5 ? std::string(fs_cwd()) + "/a.b/" : dirs[d];
    std::string n = fileName(sx_pick("len", 1, (int)sx_param("N")));
    if (d == 0 || d == 4) sx_assume(n != "a.b");
    // the directory "./" exists, so joining spells it out; the others stay as they are
    pathChecks(base + n, base + n, d != 4 && d != 0);
    sx_reach("end");
}
//@unit C19 c19_existing time=60/300 N=3/4 | paths of existing files, given absolute, relative, or with ./ and ../ steps, in a directory whose name has a dot, with a file name of 1 to N arbitrary bytes: all forms give the parts of the absolute path
extern "C" void c19_existing() {
    fs_mkdir("a.b");
    std::string cwd = fs_cwd();
    std::string n = fileName(sx_pick("len", 1, (int)sx_param("N")));
    std::string abs = cwd + "/a.b/" + n;
    fs_put(abs.c_str(), "x", 1);
    int f = sx_pick("form", 0, 3);
    std::string p = f == 0 ? abs : f == 1 ? "a.b/" + n : f == 2 ? "./a.b/../a.b/" + n : cwd + "//a.b/./" + n;
    sx_check("absolute", GetAbsolutePath(p) == abs);
    pathChecks(p, abs, true);
    sx_check("exists", FileExists(p) && PathExists(p) && !DirectoryExists(p));
    std::vector<std::string> both; both.push_back(p); sx_check("all", FilesExist(both));
    both.push_back(abs + "~"); sx_check("not all", !FilesExist(both));
    sx_reach("end");
}
//@unit C19 c19_any time=60/400 N=5/6 | every path of 1 to N characters out of / . q z that names no existing file or directory
extern "C" void c19_any() {
    int len = sx_pick("len", 1, (int)sx_param("N"));
    std::string p(len, 'x');
    for (int i = 0; i < len; i++) p[i] = sx_among("c", "/.qz");
    sx_assume(!fs_isdir(p.c_str()) && p[len - 1] != '/');
    Parts e = split(p);
    pathChecks(p, p, false);
    if (!fs_isdir(e.dir.c_str())) sx_check("rejoined", ConcatFullName(e.dir, e.core, e.ext) == p);
    sx_reach("end");
}
// ---------------------------------------------------------------------------------------------------- directories
static std::string shortName(const char* nm) {       // one of a few shapes over symbolic letters
    static const char* shapes[] = {"L", "L.E", ".E", "L.EE", "L.E.E"};
    const char* s = shapes[sx_pick(nm, 0, (int)sx_param("S"))];
    std::string r;
    for (; *s; s++) r += *s == '.' ? '.' : *s == 'L' ? sx_among("letter", "xy") : sx_among("ext", "abA");
    return r;
}
struct Entry { std::string name; int kind; };        // 0 file, 1 empty directory, 2 directory with a file, 3 link to a directory outside, 4 link to a file outside
static int setup(Entry* e, int n) {
    fs_mkdir("d"); fs_mkdir("d2");
    fs_put("d2/x.a", "1", 1); fs_put("x.a", "2", 1); fs_put("x", "3", 1);
    int k = 0;
    for (int i = 0; i < n; i++) {
        Entry c; c.name = shortName("shape"); c.kind = sx_pick("kind", 0, 4);
        bool dup = false;
        for (int j = 0; j < k; j++) if (e[j].name == c.name) dup = true;
        if (dup) continue;
        std::string p = "d/" + c.name;
        if (c.kind == 0) fs_put(p.c_str(), "z", 1); else if (c.kind >= 3) fs_link(p.c_str(), c.kind == 3 ? "d2" : "x.a"); else fs_mkdir(p.c_str());
        if (c.kind == 2) fs_put((p + "/i.a").c_str(), "y", 1);
        e[k++] = c;
    }
    return k;
}
// Everything the code tried to remove lies in (or is, if self) the directory d, or is the one file asked for
static bool onlyInside(bool self) {
    std::string d = std::string(fs_cwd()) + "/d";
    bool ok = true;
    for (long i = 0; i < fs_removals(); i++) {
        std::string r = fs_removal(i);
        ok &= (self && r == d) || (r.size() > d.size() + 1 && r.compare(0, d.size() + 1, d + "/") == 0);
    }
    return ok;
}
static bool outsideKept() { return fs_size("d2/x.a") == 1 && fs_size("x.a") == 1 && fs_size("x") == 1 && fs_isdir("d2"); }
static bool entryKept(const Entry& e) {
    std::string p = "d/" + e.name;
    if (e.kind == 0) return fs_size(p.c_str()) == 1;
    if (e.kind >= 3) return fs_islink(p.c_str());
    return fs_isdir(p.c_str()) && (e.kind == 1 || fs_size((p + "/i.a").c_str()) == 1);
}
//@unit C20 c20_clean time=120/500 N=2/2 S=1/4 | CleanDirectory on every directory of up to N entries (files, empty and non-empty directories, symbolic links to a directory or file outside; names x|y, x.e, x.ee, x.e.e or hidden .e over symbolic letters): exactly the visible regular files go, directories, hidden files and everything outside stay; on a missing directory it is created
extern "C" void c20_clean() {
    Entry e[3];
    int k = setup(e, sx_pick("n", 0, (int)sx_param("N")));
    bool ok = CleanDirectory(sx_flag("abs") ? std::string(fs_cwd()) + "/d" : "d");
    sx_check("outside", outsideKept());
    sx_check("directory stays", fs_isdir("d"));
    sx_check("nothing else tried", onlyInside(false));
    bool removed = true, kept = true;
    for (int i = 0; i < k; i++) {
        bool hidden = e[i].name[0] == '.';
        if (e[i].kind == 0 && !hidden) removed &= !fs_isfile(("d/" + e[i].name).c_str());
        else if (e[i].kind == 1 || e[i].kind == 2) kept &= entryKept(e[i]);
    }
    sx_check("files removed", removed);
    sx_check("directories kept", kept);
    sx_check("success reported", ok);
    sx_check("created", CleanDirectory("new") && fs_isdir("new"));
    sx_reach("end");
}
//@unit C20 c20_delete time=120/500 N=2/2 S=1/3 | DeleteExistedFile on an existing or missing file next to up to N others: that file and nothing else goes, the result is 0 exactly when it existed
extern "C" void c20_delete() {
    Entry e[3];
    int k = setup(e, sx_pick("n", 1, (int)sx_param("N")));
    std::string t = shortName("target");
    int hit = -1;
    for (int i = 0; i < k; i++) if (e[i].name == t) hit = i;
    if (hit >= 0 && e[hit].kind != 0) return;
    bool abs = sx_flag("abs");
    long before = fs_count();
    int r = DeleteExistedFile(abs ? std::string(fs_cwd()) + "/d/" + t : "d/" + t);
    for (long i = 0; i < fs_removals(); i++) sx_check("nothing else tried", fs_removal(i) == std::string(fs_cwd()) + "/d/" + t);
    sx_check("result", (r == 0) == (hit >= 0));
    sx_check("gone", !fs_isfile(("d/" + t).c_str()));
    for (int i = 0; i < k; i++) if (i != hit) sx_check("others", entryKept(e[i]));
    sx_check("outside", outsideKept());
    sx_check("count", fs_count() == before - (hit >= 0));
    if (hit >= 0) sx_reach("existed"); else sx_reach("missing");
}
static char lo(char c) { return (c >= 'A') & (c <= 'Z') ? c + 32 : c; }
static bool sameNoCase(const std::string& a, const std::string& b) {
    if (a.size() != b.size()) return false;
    bool s = true;
    for (size_t i = 0; i < a.size(); i++) s &= lo(a[i]) == lo(b[i]);
    return s;
}
//@unit C20 c20_find time=120/600 N=1/2 S=4/2 | FindFiles with the expression .e, *.e or e for a symbolic extension of one or two letters, or *.* or .*: exactly the visible regular files of that directory that carry the extension (in any letter case for plain .e and e), each once, by full path, and nothing is removed
extern "C" void c20_find() {
    Entry e[3];
    int k = setup(e, sx_pick("n", 1, (int)sx_param("N")));
    std::string ext = std::string(1, sx_among("want", "abA"));
    if (sx_flag("two")) ext += sx_among("want", "ab");
    int f = sx_pick("form", 0, 3);
    std::string expr = f == 0 ? "." + ext : f == 1 ? "*." + ext : f == 2 ? ext : sx_flag("dotall") ? ".*" : "*.*";
    std::vector<std::string> got;
    long before = fs_count();
    sx_check("ok", FindFiles(sx_flag("abs") ? (std::string(fs_cwd()) + "/d").c_str() : "d", expr.c_str(), got) == 0);
    sx_check("nothing removed", fs_count() == before && fs_removals() == 0);
    std::string full = std::string(fs_cwd()) + "/d/";
    size_t want = 0; bool present = true, absent = true;
    for (int i = 0; i < k; i++) {
        if (e[i].name[0] == '.') continue;
        Parts p = split(e[i].name);
        size_t times = 0;
        for (size_t j = 0; j < got.size(); j++) times += got[j] == full + e[i].name;
        bool must = e[i].kind == 0 && (f == 3 || (!p.ext.empty() && p.ext == ext)), may = must || (e[i].kind == 0 && sameNoCase(p.ext, ext)) || (e[i].kind == 4 && (f == 3 || sameNoCase(p.ext, ext)));
        if (must) present &= times == 1;
        if (!may) absent &= times == 0; else want += times;
    }
    sx_check("found", present);
    sx_check("not found", absent);
    sx_check("only entries", got.size() == want);
    if (want) sx_reach("some"); else sx_reach("none");
}
//@unit C20 c20_rmdir time=60/300 N=2/3 S=2/4 | DeleteDirectory with and without its subdirectories on every directory of up to N entries: nothing outside goes; with subdirectories the whole directory goes; without, every subdirectory stays with its contents and the files go
extern "C" void c20_rmdir() {
    Entry e[3];
    int k = setup(e, sx_pick("n", 0, (int)sx_param("N")));
    bool sub = sx_flag("sub");
    bool ok = DeleteDirectory("d", sub);
    sx_check("outside", outsideKept());
    sx_check("ok", ok);
    bool anydir = false;
    for (int i = 0; i < k; i++) if (e[i].kind == 1 || e[i].kind == 2) anydir = true;
    sx_check("nothing else tried", onlyInside(true));
    if (sub || !anydir) { sx_check("gone", !fs_isdir("d")); sx_reach("gone"); }
    else {
        for (int i = 0; i < k; i++) if (e[i].kind == 1 || e[i].kind == 2) sx_check("subdirectory kept", entryKept(e[i])); else if (e[i].kind == 0) sx_check("file gone", !fs_isfile(("d/" + e[i].name).c_str()));
        sx_reach("stays");
    }
    sx_check("missing directory", DeleteDirectory("no such", sub));
}
//@unit C20 c20_make time=30/100 | MakeDirectory creates exactly the directory named, succeeds when it exists already, fails when the parent is missing or a file is in the way
extern "C" void c20_make() {
    fs_put("f", "1", 1);
    long before = fs_count();
    std::string n = sx_string("name", sx_pick("len", 1, 2));
    for (size_t i = 0; i < n.size(); i++) sx_assume(n[i] != '/' && n[i] != '.');
    bool blocked = n == "f";
    bool ok = MakeDirectory(n);
    sx_check("result", ok == !blocked);
    sx_check("made", fs_isdir(n.c_str()) == !blocked);
    sx_check("count", fs_count() == before + !blocked);
    sx_check("again", MakeDirectory(n) == !blocked && fs_count() == before + !blocked);
    sx_check("no parent", !MakeDirectory("q/q/q") && fs_count() == before + !blocked);
    sx_check("file kept", fs_size("f") == 1);
    sx_reach("end");
}
// ---------------------------------------------------------------------------------------------------- text files
static bool blank(char c) { return (c == ' ') | (c == '\t') | (c == '\r') | (c == '\n'); }
static std::vector<std::string> refLines(const std::string& t) {
    std::vector<std::string> r;
    size_t i = 0;
    while (i < t.size()) {
        size_t e = i;
        while (e < t.size() && t[e] != '\n') e++;
        size_t a = i, b = e;
        while (a < b && blank(t[a])) a++;
        while (b > a && blank(t[b - 1])) b--;
        if (a < b && t[a] != '#') r.push_back(t.substr(a, b - a));
        i = e + 1;
    }
    return r;
}
static void loadCheck(const std::string& t) {
    fs_put("t.txt", t.data(), t.size());
    std::vector<std::string> got, want = refLines(t);
    uint64_t mark = sx_heap_mark();
    bool ok = LoadPlainTextFile("t.txt", got);
    sx_check("read", ok);
    sx_check("number of lines", got.size() == want.size());
    for (size_t i = 0; i < want.size(); i++) sx_check("line", got[i] == want[i]);
    std::vector<std::string>().swap(got);
    sx_heap_check("leak", mark);
    sx_check("file kept", fs_size("t.txt") == (long)t.size());
    if (want.size() > 1) sx_reach("several lines"); else if (want.size() == 1) sx_reach("one line"); else sx_reach("no line");
}
//@unit C21 c21_text time=90/400 N=6/8 | every text of up to N arbitrary bytes: the lines that are not blank and not comments, in order, without surrounding blanks
extern "C" void c21_text() {
    int n = sx_pick("len", 0, (int)sx_param("N"));
    std::string t(n, 'x');
    for (int i = 0; i < n; i++) t[i] = sx_char("c");
    loadCheck(t);
}
//@unit C21 c21_lines time=90/400 N=2/3 | texts of N lines, each of 0 to 2 symbolic characters out of letter, blank, tab, # and ended by LF, CR LF or (the last one) nothing
extern "C" void c21_lines() {
    int n = (int)sx_param("N");
    std::string t;
    for (int i = 0; i < n; i++) {
        int k = sx_pick("len", 0, 2);
        for (int j = 0; j < k; j++) t += sx_among("c", "a# \tb");
        int e = sx_pick("end", 0, i + 1 == n ? 2 : 1);
        t += e == 0 ? "\n" : e == 1 ? "\r\n" : "";
    }
    loadCheck(t);
}
//@unit C21 c21_missing time=30/60 | a missing file, a file in a missing directory and a directory are reported as failure with no lines
extern "C" void c21_missing() {
    fs_mkdir("d");
    std::vector<std::string> got;
    std::string n = sx_string("name", sx_pick("len", 1, 2));
    for (size_t i = 0; i < n.size(); i++) sx_assume(n[i] != '/' && n[i] != '.' && n[i] != 'd');
    int w = sx_pick("what", 0, 1);
    sx_check("refused", !LoadPlainTextFile(w ? "no/" + n : n, got));
    sx_check("no lines", got.empty());
    sx_check("nothing made", fs_count() == 1);
    sx_reach("end");
}
//@unit C21 c21_directory time=30/60 | loading a directory ends, with no lines
extern "C" void c21_directory() {
    fs_mkdir("d");
    std::vector<std::string> got;
    LoadPlainTextFile("d", got);
    sx_check("no lines", got.empty());
    sx_reach("end");
}
