// The command-line application mask_rasterio (C26).
#include "maskgen.h"
#define main ccgl_main
#include "mask_rasterio.cpp"
#undef main
typedef std::vector<S> VS;
static S lower(S s) { for (size_t i = 0; i < s.size(); i++) if (s[i] >= 'A' && s[i] <= 'Z') s[i] = (char)(s[i] + 32); return s; }
static S cased(const char* w) {     // any mixture of letter case
    S s; for (; *w; w++) { char c = *w; if (c >= 'a' && c <= 'z') { bool up = sx_bits("upper", 1) != 0; c = (char)(c - 32 * up); } s += c; }
    return s;
}
//@unit C26 c26_words time=60/200 | every documented mode and format word in every mixture of letter case
extern "C" void c26_words() {
    static const char* w[] = {"dec", "decompose", "com", "combine", "mask&dec", "maskdec", "mask", "sfile", "file", "gfs", "gridfs"};
    static const int v[] = {DEC, DEC, COM, COM, MASKDEC, MASKDEC, MASK, SFILE, SFILE, GFS, GFS};
    int k = sx_pick("word", 0, 10);
    S s = cased(w[k]);
    if (k < 7) { sx_check("mode", StringToIOMode(s) == v[k]); sx_check("no format", StringToDataFormat(s) == UNKNOWNFMT); }
    else { sx_check("format", StringToDataFormat(s) == v[k]); sx_check("no mode", StringToIOMode(s) == UNKNOWNMODE); }
    sx_reach("end");
}
//@unit C26 c26_unknown time=60/300 N=4/9 | all strings of up to N arbitrary bytes: modes and formats are exactly the documented words
extern "C" void c26_unknown() {
    S s = sx_string("text", sx_pick("length", 0, (int)sx_param("N"))), l = lower(s);
    IOMODE m = StringToIOMode(s); DATAFMT f = StringToDataFormat(s);
    sx_check("mode", m == (l == "dec" || l == "decompose" ? DEC : l == "com" || l == "combine" ? COM : l == "mask&dec" || l == "maskdec" ? MASKDEC : l == "mask" ? MASK : UNKNOWNMODE));
    sx_check("format", f == (l == "sfile" || l == "file" ? SFILE : l == "gfs" || l == "gridfs" ? GFS : UNKNOWNFMT));
    if (m != UNKNOWNMODE) sx_reach("a mode");
    if (f != UNKNOWNFMT) sx_reach("a format");
}
// fields between separators; a last empty one does not count
static VS fields(const S& s, char sep) {
    VS r; S f;
    for (size_t i = 0; i < s.size(); i++) { if (s[i] == sep) { r.push_back(f); f = ""; } else f += s[i]; }
    if (!f.empty()) r.push_back(f);
    return r;
}
static bool whole(const S& s, int& v) {
    size_t i = !s.empty() && s[0] == '-';
    if (i == s.size()) return false;
    v = 0;
    for (size_t k = i; k < s.size(); k++) { if (s[k] < '0' || s[k] > '9') return false; v = v * 10 + (s[k] - '0'); }
    if (i) v = -v;
    return true;
}
typedef std::map<vint, std::vector<double> > KV;
static void list(S s) {
    KV want; bool ok = !s.empty();
    VS items = fields(s, ',');
    for (size_t i = 0; i < items.size(); i++) {
        VS p = fields(items[i], ':'); int k;
        if (p.size() != 2 || p[0].empty() || p[1].empty() || !whole(p[0], k)) continue;
        VS w = fields(p[1], '|'); std::vector<double> v; bool all = true;
        for (size_t j = 0; j < w.size(); j++) { int x; if (whole(w[j], x)) v.push_back(x); else all = false; }
        if (!all) { ok = false; continue; }
        want.insert(std::make_pair((vint)k, v));
    }
    KV kv; S t = s;
    bool got = parse_key_values(t, kv);
    sx_check("accepted", got == ok);
    sx_check("pairs", kv.size() == want.size());
    for (KV::iterator a = kv.begin(), b = want.begin(); a != kv.end(); ++a, ++b) {
        sx_check("key", a->first == b->first); sx_check("values", a->second.size() == b->second.size() && !a->second.empty());
        for (size_t j = 0; j < a->second.size(); j++) sx_check("value", a->second[j] == b->second[j]);
    }
    if (got && kv.size() > 0) sx_reach("pairs");
    if (!got && !s.empty()) sx_reach("refused");
}
//@unit C26 c26_list time=60/300 N=5/6 | all reclassification lists of up to N characters among 1 2 : , | - x
extern "C" void c26_list() {
    int n = sx_pick("length", 0, (int)sx_param("N"));
    S s; for (int i = 0; i < n; i++) s += "12:,|-x"[sx_pick("character", 0, 6)];
    list(s);
}
//@unit C26 c26_pairs time=60/300 N=2/3 | lists of 1 to N pairs with keys of one or two digits (1 or 2 and 0 or 1), negative or not, and one or two new values each of any digit or 5.5
extern "C" void c26_pairs() {
    int n = sx_pick("pairs", 1, (int)sx_param("N"));
    S s; std::vector<int> keys; std::vector<std::vector<double> > vals;
    for (int i = 0; i < n; i++) {
        if (i) s += ',';
        bool neg = sx_flag("negative"); int a = sx_pick("first digit", 1, 2);
        if (neg) s += '-';
        s += (char)('0' + a);
        if (sx_flag("second digit")) { int b = sx_pick("digit", 0, 1); s += (char)('0' + b); a = 10 * a + b; }
        keys.push_back(neg ? -a : a);
        s += ':';
        std::vector<double> v; int m = sx_pick("values", 1, 2);
        for (int j = 0; j < m; j++) {
            if (j) s += '|';
            bool half = j && sx_flag("half");
            int d = half ? 5 : sx_int("value", 0, 9); s += (char)('0' + d);
            v.push_back(d);
            if (half) { s += ".5"; v[j] += 0.5; }
        }
        vals.push_back(v);
    }
    KV kv; bool ok = parse_key_values(s, kv);
    sx_check("accepted", ok);
    size_t distinct = 0;
    for (int i = 0; i < n; i++) {
        bool again = false; for (int j = 0; j < i; j++) if (keys[j] == keys[i]) again = true;
        if (again) continue;
        distinct++;
        KV::iterator it = kv.find(keys[i]);
        sx_check("listed", it != kv.end() && it->second.size() == vals[i].size());
        for (size_t j = 0; j < vals[i].size(); j++) sx_check("value", it->second[j] == vals[i][j]);
    }
    sx_check("nothing else", kv.size() == distinct);
    sx_reach("end");
}
static void paths(const VS& strs, int tagk) {
    static const char* T[3] = {"IN", "MASK", "OUT"};
    S tag = T[tagk];
    DATAFMT f = UNKNOWNFMT; VS p;
    const S& last = strs.size() > 1 ? strs[1] : strs[0];
    VS want = fields(last, ',');
    bool exist = !want.empty() && tagk != 2;
    for (size_t i = 0; i < want.size(); i++) if (want[i] != "a" && (want[i].empty() || want[i].find_first_not_of('/') != S::npos)) exist = false;   // so does the root folder
    S w = lower(strs[0]);
    DATAFMT word = w == "file" || w == "sfile" ? SFILE : w == "gfs" || w == "gridfs" ? GFS : UNKNOWNFMT;
    bool ok = true; DATAFMT fmt;
    if (exist) fmt = SFILE;
    else if (want.empty()) { ok = false; fmt = UNKNOWNFMT; }
    else if (word != UNKNOWNFMT) fmt = word;
    else if (strs.size() > 1) { ok = false; fmt = UNKNOWNFMT; }
    else fmt = want[0].find('/') != S::npos ? SFILE : GFS;
    bool got = parse_fmt_paths(tag, strs, f, p);
    sx_check("accepted", got == ok);
    sx_check("format", f == fmt);
    if (ok) {
        sx_check("all paths", p.size() == want.size());
        for (size_t i = 0; i < want.size(); i++) sx_check("path", p[i] == want[i]);
        if (f == GFS) sx_reach("database"); else sx_reach("file");
    }
    else { sx_check("no paths", p.empty()); sx_reach("refused"); }
}
static S some(const char* n, int len) { S s; for (int i = 0; i < len; i++) s += "ab,/"[sx_pick(n, 0, 3)]; return s; }
//@unit C26 c26_paths time=60/300 N=2/4 | a format word (documented or not, in any letter case for one of them) or none, followed by any text of up to N characters among a b , and / (a is an existing file), for input, mask and output
extern "C" void c26_paths() {
    static const char* W[] = {"file", "gfs", "sfile", "gridfs", "tape", "a", ""};
    fs_put("a", "x", 1);
    VS s; int k = sx_pick("word", 0, 7);
    if (k < 7) s.push_back(k ? S(W[k]) : cased(W[k]));
    if (k == 7 || sx_flag("path")) s.push_back(some("character", sx_pick("length", 0, (int)sx_param("N"))));
    if (k < 7 && s.size() > 1 && sx_flag("more")) s.push_back("b");
    paths(s, sx_pick("tag", 0, 2));
}
static int run(const VS& a) {
    std::vector<const char*> v; v.push_back("mask_rasterio");
    for (size_t i = 0; i < a.size(); i++) v.push_back(a[i].c_str());
    v.push_back(nullptr);
    return ccgl_main((int)a.size() + 1, &v[0]);
}
//@unit C26 c26_mask time=100/600 N=3/4 | complete runs: a file masked by another (up to 2 x 2 cells each, displaced by up to a cell, at most one blank cell each), arguments in two orders, by arguments or by a configuration file given in the two documented ways, with or without a default value and a new nodata value
extern "C" void c26_mask() {
    int k = sx_pick("shape", 0, (int)sx_param("N")), R, C; dims(k, R, C);
    int b = sx_pick("blank", -1, R * C - 1), how = sx_pick("how", 0, 3);
    bool dfl = sx_flag("default"), nod = sx_flag("new nodata");
    Src s = file("s.asc", k, b < 0 ? 0 : 1 << b, 4, 400 + 4 * sx_pick("east", -1, 1), -160);
    Src m = file("m.asc", k, R * C > 1 && sx_flag("mask blank") ? 1 : 0, 4, 400, -160, -7);
    Mask mm = shaped(k, 0); for (int i = 0; i < R * C; i++) if (!m.ok(i)) mm.pattern |= 1 << i;
    int nd = nod ? -5 : s.nd;
    Want w; expected(s, mm, true, dfl ? 77 : s.nd, w);
    for (size_t i = 0; i < w.v.size(); i++) if (w.v[i] == s.nd) w.v[i] = nd;
    uint64_t mark = sx_heap_mark();
    VS a;
    if (how < 2) {
        a.push_back("-in"); if (how) a.push_back("file"); a.push_back("s.asc"); a.push_back("-mask"); a.push_back("m.asc");
        a.push_back("-out"); a.push_back("FILE"); a.push_back("./o.asc");
        if (dfl) { a.push_back("-default"); a.push_back("77"); }
        if (nod) { a.push_back("-nodata"); a.push_back("-5"); }
        a.push_back("-thread"); a.push_back("1");
        if (how) { a.insert(a.begin(), "MASK"); a.insert(a.begin(), "-mode"); }
    }
    else {
        S t = "# comment\n-mode\tmask\n-mask\tfile\tm.asc\ns.asc;./o.asc"; t += dfl ? ";77" : ";"; t += nod ? ";-5\n" : ";\n";
        fs_put("c.txt", t.data(), t.size());
        if (how == 2) a.push_back("-configfile");
        a.push_back("c.txt");
    }
    int rc = run(a);
    sx_check("done", rc == 0);
    if (w.inside && (w.matched || dfl)) {
        sx_check("written", fs_isfile("o.asc"));
        clsRasterData<double>* r = clsRasterData<double>::Init("o.asc");
        sx_check("readable", r != nullptr);
        compare(r, w, 4, nd);
        delete r;
        sx_reach("end");
    }
    { VS().swap(a); }
    sx_heap_check("released", mark);
}
//@unit C26 c26_args time=100/600 N=2/3 | complete runs with up to N arguments among documented and undocumented flags and malformed values: no crash
extern "C" void c26_args() {
    static const char* A[] = {"-in", "-mask", "-out", "-configfile", "-mode", "-reclass", "-thread", "-default", "-outdatatype", "-include_nodata", "-mongo", "-x", "-", "", ",", "a.asc", "file", "gfs", "-1", "com", "1:2", "none"};
    S t = "NCOLS 1\nNROWS 1\nXLLCENTER 0\nYLLCENTER 0\nCELLSIZE 1\nNODATA_VALUE -9\n3\n";
    fs_put("a.asc", t.data(), t.size());
    VS a; int n = sx_pick("arguments", 0, (int)sx_param("N"));
    for (int i = 0; i < n; i++) a.push_back(A[sx_pick("argument", 0, 21)]);
    int rc = run(a);
    sx_check("code", rc >= 0 && rc <= 3);
    sx_reach("end");
}
static VS words(const char* t) { VS v; S w; for (; *t; t++) { if (*t == ' ') { v.push_back(w); w = ""; } else w += *t; } v.push_back(w); return v; }
// Decomposing by the zones of a mask and combining again (C05, C32)
//@unit C05 c05_tool time=100/600 N=3/5 | the application: a file (up to 2 x 2 cells, thorough 3 x 1; at most one blank cell, displaced by up to a row or column) is decomposed by a mask of two zones with at most one blank cell, with or without the masked whole, and the pieces are combined again
//@unit C32 c05_tool name=c32_tool time=100/600 N=3/5 | as c05_tool
extern "C" void c05_tool() {
    int k = sx_pick("shape", 0, (int)sx_param("N")), R, C; dims(k, R, C);
    int b = sx_pick("blank", -1, R * C - 1), first = sx_pick("zones", 0, (1 << R * C) - 1), mb = R * C > 1 ? sx_pick("mask blank", -1, R * C - 1) : -1;
    if (mb >= 0 && (first >> mb & 1)) return;
    if (R * C == 4 && !(first & 1) && mb != 0) return;      // the zones' names do not matter
    bool both = sx_flag("with the whole");
    int east = R * C < 4 || mb < 0 ? sx_pick("east", -1, 1) : 0;
    Src s = file("s.asc", k, b < 0 ? 0 : 1 << b, 4, 400 + 4 * east, -160);
    Mask m = shaped(k, mb < 0 ? 0 : 1 << mb);
    S t = "NCOLS " + num(C) + "\nNROWS " + num(R) + "\nXLLCENTER 100\nYLLCENTER -40\nCELLSIZE 1\nNODATA_VALUE -9\n";
    std::vector<int> zone;
    bool has[3] = {false, false, false};
    for (int i = 0; i < R * C; i++) { int z = !m.ok(i) ? -9 : (first >> i & 1) ? 1 : 2; zone.push_back(z); t += num(z); t += i % C == C - 1 ? "\n" : " "; }
    fs_put("m.asc", t.data(), t.size());
    Want w; expected(s, m, true, s.nd, w);
    if (!w.matched) return;
    for (int i = 0; i < R * C; i++) if (m.ok(i) && w.v[i] != s.nd) has[zone[i]] = true;
    uint64_t mark = sx_heap_mark();
    {
        sx_check("done", run(words(both ? "-in s.asc -mask m.asc -mode MASK&DEC -out FILE ./o.asc" : "-in s.asc -mask m.asc -mode DEC -out FILE ./o.asc")) == 0);
        sx_check("whole", fs_isfile("o.asc") == both);
        S in;
        for (int z = 1; z <= 2; z++) {
            S n = "./" + num(z) + "_o.asc";
            sx_check("piece", fs_isfile(n.c_str()) == has[z]);
            if (!has[z]) continue;
            in += (in.empty() ? "" : ",") + n;
            clsRasterData<double>* r = clsRasterData<double>::Init(n);
            sx_check("readable", r != nullptr);
            int c0 = (int)(r->GetXllCenter() - 100), r0 = R - r->GetRows() - (int)(r->GetYllCenter() + 40);
            sx_check("inside", c0 >= 0 && r0 >= 0 && c0 + r->GetCols() <= C && r0 + r->GetRows() <= R && r->GetCellWidth() == 1);
            int k2 = 0;
            for (int i = 0; i < r->GetRows(); i++) for (int j = 0; j < r->GetCols(); j++) {
                int p = (i + r0) * C + j + c0; bool mine = zone[p] == z && w.v[p] != s.nd;
                sx_check("cell of the piece", r->IsNoData(i, j) == !mine && (!mine || r->GetValue(i, j) == w.v[p]));
                if (mine) k2++;
            }
            int all = 0; for (int i = 0; i < R * C; i++) if (zone[i] == z && w.v[i] != s.nd) all++;
            sx_check("all cells", k2 == all);
            delete r;
        }
        if (both) { clsRasterData<double>* r = clsRasterData<double>::Init("o.asc"); sx_check("readable", r != nullptr); compare(r, w, 4, -9); delete r; }
        sx_check("done", run(words(("-in " + in + " -mask m.asc -mode COM -out FILE ./c.asc").c_str())) == 0);
        clsRasterData<double>* r = clsRasterData<double>::Init("0_c.asc");
        sx_check("combined", r != nullptr);
        compare(r, w, 4, -9);
        delete r;
        sx_reach("end");
    }
    sx_heap_check("released", mark);
}
