// ASC grids: reading any text (C10), writing and reading back (C09).
#include "rastergen.h"
typedef std::string S;
static void put(const S& n, const S& t) { fs_put(n.c_str(), t.data(), t.size()); }
static S num(int64_t v) { S s; bool neg = v < 0; uint64_t m = neg ? 0 - (uint64_t)v : v; do { s.insert(s.begin(), (char)('0' + m % 10)); m /= 10; } while (m); return neg ? "-" + s : s; }
static S header(int cols, int rows) { return "NCOLS " + num(cols) + "\nNROWS " + num(rows) + "\nXLLCENTER 100\nYLLCENTER -40.5\nCELLSIZE 2\nNODATA_VALUE -9999\n"; }
// whole numbers separated by blanks; false when something else occurs
static bool wholes(const S& t, std::vector<int>& v) {
    size_t i = 0;
    while (i < t.size()) {
        if (t[i] == ' ' || t[i] == '\n') { i++; continue; }
        bool neg = t[i] == '-';
        if (neg) i++;
        int m = 0; size_t k = 0;
        while (i < t.size() && t[i] >= '0' && t[i] <= '9') { m = m * 10 + (t[i] - '0'); i++; k++; }
        if (!k || (i < t.size() && t[i] != ' ' && t[i] != '\n')) return false;
        v.push_back(neg ? -m : m);
    }
    return true;
}
//@unit C10 c10_values time=90/500 N=4/6 | a complete header (2 x 1 or 1 x 2 cells) and any text of up to N characters out of digits, minus, blank, end of line and a letter as the data
extern "C" void c10_values() {
    bool tall = sx_flag("tall");
    int n = sx_pick("len", 0, (int)sx_param("N"));
    S body(n, ' ');
    for (int i = 0; i < n; i++) body[i] = sx_among("c", "10 \n-q7");
    put("a.asc", header(tall ? 1 : 2, tall ? 2 : 1) + body);
    std::vector<int> want;
    bool good = wholes(body, want) && want.size() == 2;
    uint64_t mark = sx_heap_mark();
    {
        STRDBL_MAP h; int* v = nullptr;
        bool ok = ReadAscFile(S("a.asc"), h, v);
        sx_check("accepted", ok == good);
        if (ok) {
            sx_check("values", v && v[0] == want[0] && v[1] == want[1]);
            sx_check("header", h.at(HEADER_RS_NCOLS) == (tall ? 1 : 2) && h.at(HEADER_RS_NROWS) == (tall ? 2 : 1) && h.at(HEADER_RS_XLL) == 100 && h.at(HEADER_RS_YLL) == -40.5 && h.at(HEADER_RS_CELLSIZE) == 2 && h.at(HEADER_RS_NODATA) == -9999 && h.at(HEADER_RS_CELLSNUM) == 2 && h.at(HEADER_RS_LAYERS) == 1);
            sx_reach("accepted");
        } else { sx_check("nothing given", v == nullptr); sx_reach("refused"); }
        delete[] v;
    }
    sx_heap_check("released", mark);
}
//@unit C10 c10_size time=90/400 N=2/3 | column and row numbers are any text of 1 to N characters out of 0, 1, 2, 3, minus and a letter; two to six values follow
extern "C" void c10_size() {
    S a(sx_pick("len", 1, (int)sx_param("N")), ' '), b(sx_pick("len", 1, 2), ' ');
    for (size_t i = 0; i < a.size(); i++) a[i] = sx_among("cols", "0123-y");
    for (size_t i = 0; i < b.size(); i++) b[i] = sx_among("rows", "0123-y");
    bool swap = sx_flag("swap");
    int k = sx_pick("values", 2, 6);
    S t = swap ? "nrows " + b + "\nncols " + a : "ncols " + a + "\nNROWS " + b;
    t += "\nxllcenter 100\nyllcenter -40.5\ncellsize 2\nnodata_value -9999\n";
    for (int i = 0; i < k; i++) t += num(i + 1) + (i % 2 ? "\n" : " ");
    put("a.asc", t);
    auto plain = [](const S& s) { if (s[0] == '0' && s.size() > 1) return -1; int v = 0; for (size_t i = 0; i < s.size(); i++) { if (s[i] < '0' || s[i] > '9') return -1; v = v * 10 + (s[i] - '0'); } return v; };
    int c = plain(a), r = plain(b);
    bool good = c > 0 && r > 0 && c * r == k;
    uint64_t mark = sx_heap_mark();
    {
        STRDBL_MAP h; int* v = nullptr;
        bool ok = ReadAscFile(S("a.asc"), h, v);
        sx_check("accepted", ok == good);
        if (ok) {
            for (int i = 0; i < k; i++) sx_check("values", v && v[i] == i + 1);
            sx_check("size", h.at(HEADER_RS_NCOLS) == c && h.at(HEADER_RS_NROWS) == r && h.at(HEADER_RS_CELLSNUM) == k);
            sx_reach("accepted");
        } else { sx_check("nothing given", v == nullptr); sx_reach("refused"); }
        delete[] v;
    }
    sx_heap_check("released", mark);
}
//@unit C10 c10_huge time=40/100 | column and row numbers whose product leaves the range of int, with a few values
extern "C" void c10_huge() {
    static const int big[] = {65536, 65537, 46341, 1 << 30, 2147483647, 32768};
    int c = big[sx_pick("cols", 0, 5)], r = big[sx_pick("rows", 0, 5)];
    if ((int64_t)c * r <= 2147483647) return;
    put("a.asc", header(c, r) + "1 2 3\n");
    uint64_t mark = sx_heap_mark();
    {
        STRDBL_MAP h; int* v = nullptr;
        sx_check("refused", !ReadAscFile(S("a.asc"), h, v));
        sx_check("nothing given", v == nullptr);
        delete[] v;
        sx_reach("end");
    }
    sx_heap_check("released", mark);
}
//@unit C10 c10_header time=90/400 | each of two of the six header lines in any order is well-formed, missing, without a value, with something that is no number, or given as corner; upper or lower case; also at the end, behind the data
extern "C" void c10_header() {
    S name[6] = {"NCOLS", "NROWS", "XLLCENTER", "YLLCENTER", "CELLSIZE", "NODATA_VALUE"};
    S val[6] = {"2", "1", "100", "-40.5", "2", "-9"};
    bool lower = sx_flag("lower");
    int rot = sx_pick("first", 0, 5), i = sx_pick("a", 0, 5), j = sx_pick("b", i, 5), w[6] = {0, 0, 0, 0, 0, 0};
    w[i] = sx_pick("how a", 0, 4);
    if (j != i) w[j] = sx_pick("how b", 0, 4);
    bool late = sx_flag("late");                 // the last header line stands behind the data
    S t, last;
    bool good = true, free = false, xc = false, yc = false, nd = true;
    for (int q = 0; q < 6; q++) {
        int k = (q + rot) % 6, how = w[k];
        S n = name[k];
        if (how == 4) { if (k == 2) { n = "XLLCORNER"; xc = true; } else if (k == 3) { n = "YLLCORNER"; yc = true; } else how = 0; }
        if (lower) for (size_t c = 0; c < n.size(); c++) if (n[c] >= 'A' && n[c] <= 'Z') n[c] += 32;
        S line = how == 1 ? S("# none\n") : how == 2 ? n + "\n" : how == 3 ? n + " q\n" : n + " " + val[k] + "\n";
        if (how == 1 && k == 5) nd = false;
        else if (how >= 1 && how <= 3) good = false;
        if (late && q == 5) { last = line; if (k < 2) free = true; } else t += line;   // may be refused: the size has to come first
    }
    put("a.asc", t + "5 6\n" + last + "\n");
    uint64_t mark = sx_heap_mark();
    {
        STRDBL_MAP h; double* v = nullptr;
        bool ok = ReadAscFile(S("a.asc"), h, v);
        sx_check("accepted", ok ? good : !good || free || !nd);   // at least seven lines are asked for
        if (ok) {
            sx_check("values", v && v[0] == 5 && v[1] == 6);
            sx_check("corner", h.at(HEADER_RS_XLL) == (xc ? 101 : 100) && h.at(HEADER_RS_YLL) == (yc ? -39.5 : -40.5));
            sx_check("header", h.at(HEADER_RS_NCOLS) == 2 && h.at(HEADER_RS_NROWS) == 1 && h.at(HEADER_RS_CELLSIZE) == 2);
            if (nd) sx_check("nodata", h.at(HEADER_RS_NODATA) == -9);
            sx_reach("accepted");
        } else { sx_check("nothing given", v == nullptr); sx_reach("refused"); }
        delete[] v;
    }
    sx_heap_check("released", mark);
}
//@unit C10 c10_again time=60/300 N=2/3 | a header line for columns or rows repeated with any number of one digit behind the first K values (K up to N), then more values
extern "C" void c10_again() {
    int most = (int)sx_param("N");
    int k = sx_pick("before", 0, most), m = sx_pick("after", 0, 3);
    bool cols = sx_flag("cols");
    S d(1, sx_among("digit", "012345"));
    S t = header(1, 2);
    for (int i = 0; i < k; i++) t += num(i + 1) + "\n";
    t += (cols ? "NCOLS " : "NROWS ") + d + "\n";
    for (int i = 0; i < m; i++) t += num(k + i + 1) + "\n";
    put("a.asc", t);
    uint64_t mark = sx_heap_mark();
    {
        STRDBL_MAP h; int* v = nullptr;
        bool ok = ReadAscFile(S("a.asc"), h, v);
        if (ok) {
            int n = (int)sx_fork((uint64_t)(int64_t)(h.at(HEADER_RS_NCOLS) * h.at(HEADER_RS_NROWS)));
            sx_check("as announced", n == k + m);
            for (int i = 0; i < n; i++) sx_check("values", v[i] == i + 1);
            sx_reach("accepted");
        } else { sx_check("nothing given", v == nullptr); sx_reach("refused"); }
        delete[] v;
    }
    sx_heap_check("released", mark);
}
//@unit C10 c10_decimal time=90/300 N=4/6 | one value written with digits, point and minus, up to N characters
extern "C" void c10_decimal() {
    int n = sx_pick("len", 1, (int)sx_param("N"));
    S w(n, '0');
    for (int i = 0; i < n; i++) w[i] = sx_among("c", "059.-");
    put("a.asc", header(1, 1) + w + "\n");
    bool neg = w[0] == '-', dot = false, good = true; int64_t m = 0, scale = 1, digs = 0;
    for (int i = neg; i < n; i++) {
        if (w[i] == '.') { if (dot) good = false; dot = true; }
        else if (w[i] == '-') good = false;
        else { m = m * 10 + (w[i] - '0'); digs++; if (dot) scale *= 10; }
    }
    if (!digs) good = false;
    uint64_t mark = sx_heap_mark();
    {
        STRDBL_MAP h; double* v = nullptr;
        bool ok = ReadAscFile(S("a.asc"), h, v);
        sx_check("accepted", ok == good);
        if (ok) { sx_check("value", *v * (double)scale == (double)(neg ? -m : m) || (scale > 1 && *v > ((double)(neg ? -m : m) - 0.001) / (double)scale && *v < ((double)(neg ? -m : m) + 0.001) / (double)scale)); sx_reach("accepted"); }
        delete[] v;
    }
    sx_heap_check("released", mark);
}
//@unit C10 c10_raster time=60/200 | the same through the raster class: a file that is missing, empty, a directory, too short, with a wrong value, or fine; with and without compaction
extern "C" void c10_raster() {
    int w = sx_pick("file", 0, 5);
    if (w == 1) put("a.asc", ""); else if (w == 2) fs_mkdir("a.asc"); else if (w == 3) put("a.asc", header(2, 1) + "1\n"); else if (w == 4) put("a.asc", header(2, 1) + "1 y\n"); else if (w == 5) put("a.asc", header(2, 1) + "1 -9999\n");
    uint64_t mark = sx_heap_mark();
    {
        bool c = sx_flag("compact");
        clsRasterData<float>* r = clsRasterData<float>::Init("a.asc", c);
        sx_check("accepted", (r != nullptr) == (w == 5));
        if (r) {
            sx_check("cells", r->GetRows() == 1 && r->GetCols() == 2 && r->GetValue(0, 0) == 1 && r->IsNoData(0, 1) && r->GetCellNumber() == (c ? 1 : 2));
            sx_check("geo", r->GetXllCenter() == 100 && r->GetYllCenter() == -40.5 && r->GetCellWidth() == 2 && r->GetNoDataValue() == -9999);
            sx_reach("accepted");
        } else sx_reach("refused");
        delete r;
    }
    sx_heap_check("released", mark);
}

// ---- writing and reading back (C09)
template <typename T> static void roundtrip(Grid<T> g, bool compact, bool readCompact);
template <typename T> static void roundtrip(T (*cell)(const char*), std::vector<T> nodatas, int L = 2) {
        static const double X[] = {100, 3958422.5, -0.125}, D[] = {2, 0.5, 30};
        int most = (int)sx_param("N");
        Grid<T> g = shape<T>(most, L);
        if (g.n() * g.L > most || (L > 2 && g.n() * g.L < 3)) return;
        int q = sx_pick("nodata", 0, (int)nodatas.size() - 1), p = sx_param("ALL") ? sx_pick("place", 0, 2) : (q + g.R) % 3;
        g.x = X[p]; g.y = p == 1 ? 4123456.25 : -40.5; g.dx = D[p];
        g.nd = nodatas[q];
        for (int i = 0; i < g.n() * g.L; i++) g.v.push_back(sx_flag("blank") ? g.nd : cell("cell"));
        bool compact = sx_flag("compact");
        if (compact) { sameCells(g); sx_assume(g.count() > 0); }
        roundtrip<T>(g, compact, sx_param("ALL") ? sx_flag("read compact") : g.R == 1);
}
template <typename T> static void roundtrip(Grid<T> g, bool compact, bool readCompact) {
    uint64_t mark = sx_heap_mark();
    {
        clsRasterData<T>* r = build(g);
        if (compact) r->SetCalcPositions();
        S dir = fs_cwd();
        fs_mkdir("o");
        sx_check("written", r->OutputToFile(dir + "/o/r.asc"));
        sx_check("no other file", fs_count() == 1 + g.L);
        for (int l = 0; l < g.L; l++) {
            clsRasterData<T>* b = clsRasterData<T>::Init(dir + "/o/" + (g.two ? "r_" + num(l) + ".asc" : S("r.asc")), readCompact);
            sx_check("readable", b != nullptr);
            sx_check("size", b->GetRows() == g.R && b->GetCols() == g.C && b->GetLayers() == 1);
            sx_check("place", b->GetXllCenter() == g.x && b->GetYllCenter() == g.y && b->GetCellWidth() == g.dx);
            sx_check("nodata value", b->GetNoDataValue() == g.nd);
            for (int i = 0; i < g.R; i++)
                for (int j = 0; j < g.C; j++) {
                    sx_check("valid cells", b->IsNoData(i, j) == !g.ok(i, j, l));
                    sx_check("value", b->GetValue(i, j) == g.at(i, j, l));
                }
            delete b;
        }
        sameEverywhere("source unchanged", r, g);
        sx_reach("end");
        delete r;
    }
    sx_heap_check("released", mark);
}
static int anyInt(const char* n) { return sx_int(n, -9, 99); }
static float anyFlt(const char* n) { return (float)sx_ifp(n, 0, sx_param("ALL") ? 99 : 9); }
static double anyDbl(const char* n) { return sx_ifp(n, 0, sx_param("ALL") ? 99 : 9); }
static unsigned char anyByte(const char* n) { return (unsigned char)sx_bits(n, 8); }
//@unit C09 c09_int time=100/500 N=2/3 ALL=0/1 | every raster of at most N values (flat or 1 to 2 layers), full or compact, written as ASC and read back; values -9..99, nodata -9999, 0, the smallest or a large int; three places
extern "C" void c09_int() { roundtrip<int>(anyInt, {-9999, 0, INT32_MIN, 123456789}); }
//@unit C09 c09_float time=100/500 N=2/3 ALL=0/1 | as c09_int, whole floats 0..9 (99 in the thorough tier), nodata -9999, 0 or the default nodata of floats
extern "C" void c09_float() { roundtrip<float>(anyFlt, {-9999.f, 0.f, (float)MISSINGFLOAT, -1234567.f}); }
//@unit C09 c09_double time=100/500 N=2/3 ALL=0/1 | as c09_int, whole doubles 0..9 (99)
extern "C" void c09_double() { roundtrip<double>(anyDbl, {-9999., sx_param("ALL") ? 0.5 : 3., (double)MISSINGFLOAT, -1234567.}); }
//@unit C09 c09_byte time=100/500 N=2/3 ALL=0/1 | as c09_int, arbitrary bytes, nodata 255 or 0
extern "C" void c09_byte() { roundtrip<unsigned char>(anyByte, {255, 0}); }
static int digit(const char* n) { return sx_int(n, 0, 9); }
//@unit C09 c09_wide time=100/500 N=4/8 ALL=0/0 | every raster of 3 to N values (cells times layers), flat or with 1 to 3 layers, values 0..9, nodata -9999
extern "C" void c09_wide() { roundtrip<int>(digit, {-9999}, 3); }
//@unit C09 c09_large time=100/500 N=0/1 | grids of 4x3, 3x5 and 1x9 cells, flat or with three layers (thorough: up to 40 cells, up to five layers), blank cells in one of seven patterns, values 1 to 9 elsewhere except for one in the middle or last cell, which is any of -9..99; full or compact, read full or compact
extern "C" void c09_large() {
    bool compact = sx_flag("compact");
    Grid<int> g = patterned<int>(sx_param("N") != 0, compact, -9999, GIVEN);
    if (g.count() == 0) return;
    int i = (1 + sx_pick("where", 0, 1)) * (g.n() - 1) / 2, l = g.L - 1;
    if (g.v[i * g.L + l] != g.nd) g.v[i * g.L + l] = anyInt("cell");
    roundtrip<int>(g, compact, g.R == 4 || g.L == 3);
}
