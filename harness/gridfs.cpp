// Rasters in GridFS (C31).  The server and the driver are the stand-in of model/mongo, in symbolic runs and replays alike.
#include "zones.h"
#include "db_mongoc.h"
#include "sxmongo.h"
#include <cfloat>
#include <climits>
#include <cstring>
using namespace ccgl::db_mongoc;
struct Db {
    MongoClient* c; MongoGridFs* g;
    Db() { mongo_reset(); c = MongoClient::Init("127.0.0.1", 27017); g = c->GridFs("db", "S"); }
    void close() { delete g; c->Destroy(); delete c; sx_check("closed", mongo_open() == 0); mongo_reset(); }
};
static STRING_MAP opt(const char* k, const S& v) { STRING_MAP m; m[k] = v; return m; }
static STRING_MAP kept(bool all) { return opt(HEADER_INC_NODATA, all ? "TRUE" : "FALSE"); }
template <typename T> static clsRasterData<int>* sameMask(Grid<T>& g) {
    int* a = new int[g.n()];
    for (int i = 0; i < g.n(); i++) a[i] = g.ok(i / g.C, i % g.C) ? i + 1 : -1;
    return new clsRasterData<int>(a, g.C, g.R, -1, g.dx, g.x, g.y);
}
// The raster kinds of which g may be read back: one layer is read as a one-dimensional raster
template <typename T> static void full(bool lone) {
    int most = (int)sx_param("N");
    uint64_t mark = sx_heap_mark();
    {
        Grid<T> g = shape<T>(most, 2);
        if (g.n() * g.L > most) return;
        fill(g); sameCells(g);
        Db d;
        clsRasterData<T>* r = build(g, lone ? opt(HEADER_RS_SRS, "EPSG:4326") : STRING_MAP());
        bool compact = sx_flag("compact");
        if (compact) { sx_assume(g.count() > 0); r->SetCalcPositions(); }
        sx_check("written", r->OutputToMongoDB(d.g, "r", STRING_MAP(), true));
        sameEverywhere("source kept", r, g);
        delete r;
        sx_check("one file", mongo_files() == 1 && mongo_length(0) == (int)(g.n() * g.L * sizeof(T)));
        bool calc = sx_flag("positions");
        if (calc) sx_assume(g.count() > 0);
        r = clsRasterData<T>::Init(d.g, "r", calc);
        sx_check("read", r != nullptr);
        sameGeo("geometry", r, g);
        sameEverywhere("cells", r, g);
        sx_check("srs", r->GetSrsString() == (lone ? "EPSG:4326" : ""));
        sx_reach("end");
        delete r;
        d.close();
    }
    sx_heap_check("released", mark);
}
//@unit C31 c31_int prof=mongo time=90/600 N=3/5 | every 32-bit raster of at most N cells (flat or of up to two layers; arbitrary values and nodata), full or compact, stored with its nodata cells and read back, with positions or without
extern "C" void c31_int() { full<int>(true); }
//@unit C31 c31_uchar prof=mongo time=60/600 N=2/4 | 8-bit unsigned rasters: as c31_int
extern "C" void c31_uchar() { full<unsigned char>(false); }
//@unit C31 c31_short prof=mongo time=60/600 N=2/4 | 16-bit rasters: as c31_int
extern "C" void c31_short() { full<short>(false); }
//@unit C31 c31_float prof=mongo time=60/600 N=2/3 | whole 32-bit floating-point values: as c31_int
extern "C" void c31_float() { full<float>(false); }
//@unit C31 c31_double prof=mongo time=60/600 N=2/3 | whole 64-bit floating-point values: as c31_int
extern "C" void c31_double() { full<double>(false); }
//@unit C31 c31_compact prof=mongo time=90/600 N=3/5 | as c31_int with only the valid values stored, read back under a mask of the same cells (never without one)
extern "C" void c31_compact() {
    int most = (int)sx_param("N");
    uint64_t mark = sx_heap_mark();
    {
        Grid<int> g = shape<int>(most, 2);
        if (g.n() * g.L > most) return;
        fill(g); sameCells(g); sx_assume(g.count() > 0);
        Db d;
        clsRasterData<int>* r = build(g);
        if (sx_flag("compact")) r->SetCalcPositions();
        sx_check("written", r->OutputToMongoDB(d.g, "r", STRING_MAP(), false));
        sameEverywhere("source kept", r, g);
        delete r;
        sx_check("one file", mongo_files() == 1 && mongo_length(0) == (int)(g.count() * g.L * sizeof(int)));
        sx_check("not found as a full raster", clsRasterData<int>::Init(d.g, "r") == nullptr);
        sx_check("no mask", clsRasterData<int>::Init(d.g, "r", sx_flag("positions"), nullptr, true, NODATA_VALUE, kept(false)) == nullptr);
        clsRasterData<int>* m = sameMask(g);
        r = clsRasterData<int>::Init(d.g, "r", sx_flag("calc"), m, true, NODATA_VALUE, kept(false));
        sx_check("read", r != nullptr);
        sameGeo("geometry", r, g);
        sameEverywhere("cells", r, g);
        sx_reach("end");
        delete r;
        delete m;
        d.close();
    }
    sx_heap_check("released", mark);
}
//@unit C31 c31_mask prof=mongo time=120/600 N=2/5 | stored rasters of the first N shapes up to 2 x 3 cells, read under masks of up to 2 x 2 cells at the same place or shifted, every pattern of blank cells, with positions or without, the mask's extent or the common one
extern "C" void c31_mask() {
    uint64_t mark = sx_heap_mark();
    {
        int k = sx_pick("source", 0, (int)sx_param("N")), km = sx_pick("mask", 0, 3);
        Src s; dims(k, s.R, s.C); s.q = 4; s.x = 400; s.y = -160; s.nd = -9;
        Grid<int> g; g.R = s.R; g.C = s.C; g.L = 1; g.two = false; g.dx = 1; g.x = 100; g.y = -40; g.nd = -9;
        for (int i = 0; i < g.n(); i++) { int v = sx_flag("blank") ? -9 : sx_int("cell", 1, 9); s.v.push_back(v); g.v.push_back(v); }
        Mask m = shaped(km, 0);
        m.pattern = sx_pick("pattern", 0, (1 << (m.R * m.C)) - 2);
        if (sx_flag("shifted")) { m.x += 4 * sx_pick("dx", -1, 1); m.y += 4 * sx_pick("dy", -1, 1); }
        bool ext = sx_flag("extent"), calc = sx_flag("positions");
        Want w;
        if (!expected(s, m, ext, s.nd, w)) return;
        Db d;
        clsRasterData<int>* r = build(g);
        sx_check("written", r->OutputToMongoDB(d.g, "r"));
        delete r;
        clsRasterData<int>* mk = mask<int>(m);
        r = clsRasterData<int>::Init(d.g, "r", calc, mk, ext);
        bool can = w.inside > 0 && (w.matched > 0 || (ext && !calc));
        sx_check("read", can ? r != nullptr : r == nullptr || w.matched == 0);
        if (r && can) { compare(r, w, m.q, s.nd); sx_reach("read"); }
        if (!r) sx_reach("refused");
        delete r;
        delete mk;
        d.close();
    }
    sx_heap_check("released", mark);
}
static const char* const NAMES[] = {"UINT8", "INT8", "UINT16", "INT16", "UINT32", "INT32", "UINT64", "INT64", "FLOAT", "DOUBLE"};
static const double LOW[] = {0, -128, 0, -32768, 0, -2147483648., 0, -9223372036854775808., -1e30, -1e30}, HIGH[] = {255, 127, 65535, 32767, 4294967295., 2147483647., 18446744073709551615., 9223372036854775807., 1e30, 1e30};
static const int SIZE[] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8};
template <typename T> static void convert(int from, int to, bool wide) {
    uint64_t mark = sx_heap_mark();
    {
        int type = sx_pick("type", from, to);
        Grid<T> g; g.R = 1; g.C = sx_pick("cols", 1, (int)sx_param("N")); g.L = 1; g.two = false; g.dx = 2; g.x = 100; g.y = -40;
        static const int ND[] = {-9999, 0, 255, -32768, 70000};
        static const int EDGE[] = {0, 1, -1, 127, -128, 16777217, -2147483647 - 1, 2147483647, -9999, 70001};
        g.nd = (T)ND[sx_pick("nodata", 0, 4)];
        for (int i = 0; i < g.C; i++) g.v.push_back(sx_flag("blank") ? g.nd : wide ? type < 4 ? Num<T>::any("cell") : (T)EDGE[sx_pick("edge", 0, 9)] : (T)sx_int("cell", -40000, 80000));
        Db d;
        clsRasterData<T>* r = build(g);
        r->SetOutDataType(NAMES[type]);
        bool fits = true, taken = (double)g.nd < LOW[type] || (double)g.nd > HIGH[type];
        double nd = !taken ? (double)g.nd : LOW[type] < 0 ? LOW[type] : HIGH[type];
        for (int i = 0; i < g.C; i++) { double v = (double)g.v[i]; if (g.v[i] != g.nd && (v < LOW[type] || v > HIGH[type] || (taken && v == nd))) fits = false; }
        bool ok = r->OutputToMongoDB(d.g, "r");
        sx_check("written", ok == fits);
        sx_check("files", mongo_files() == (fits ? 1 : 0));
        delete r;
        if (ok) {
            sx_check("length", mongo_length(0) == g.C * SIZE[type]);
            clsRasterData<double>* q = clsRasterData<double>::Init(d.g, "r");
            sx_check("read", q != nullptr);
            sx_check("nodata", q->GetNoDataValue() == nd);
            for (int i = 0; i < g.C; i++) {
                sx_check("blank", q->IsNoData(0, i) == (g.v[i] == g.nd));
                if (g.v[i] != g.nd) sx_check("cell", q->GetValue(0, i) == (type == 8 ? (double)(float)g.v[i] : (double)g.v[i]));
            }
            delete q;
            sx_reach("read");
        } else sx_reach("refused");
        d.close();
    }
    sx_heap_check("released", mark);
}
//@unit C31 c31_convert prof=mongo time=90/600 N=2/3 | rows of up to N whole doubles from -40000 to 80000 with one of five nodata values stored as each of the integer types of up to 32 bits
extern "C" void c31_convert() { convert<double>(0, 5, false); }
//@unit C31 c31_convert_int prof=mongo time=90/600 N=2/3 | rows of up to N 32-bit integers stored as each of the ten types (arbitrary ones for types of up to 16 bits, ten values for the others)
extern "C" void c31_convert_int() { convert<int>(0, 9, true); }
// A stored file of any declared size and type
//@unit C31 c31_damaged prof=mongo time=120/600 N=9/17 | files of up to N bytes whose metadata claims -1 to 2 rows, columns, layers and cells (each possibly missing or a text) and one of six types, with all, some or none of the bytes readable (missing fields, texts and unreadable bytes for 16-bit files of one layer; lengths that agree, 8 and multiples of three): read only when all agree, with the stored values
extern "C" void c31_damaged() {
    static const char* const TYPES[] = {"INT32", "UINT8", "INT16", "DOUBLE", "WRONG", ""};
    static const int BYTES[] = {4, 1, 2, 8, 0, 0};
    uint64_t mark = sx_heap_mark();
    {
        int len = sx_pick("length", 0, (int)sx_param("N")), rows = sx_pick("rows", -1, 2), cols = sx_pick("cols", 1, 2), lyrs = sx_pick("layers", 0, 2), cells = sx_pick("cells", -1, 4), odd = sx_pick("odd", 0, 3), type = odd ? 2 : sx_pick("type", 0, 5);   // 1: a field missing, 2: a field that is no number, 3: a cut file
        if (odd == 3 && !len) return;
        if (odd && (lyrs != 1 || rows < 1)) return;
        if (len != cells * lyrs * BYTES[type] && len % 3 && len != 8) return;   // agreeing lengths, every third and 8
        int which = odd == 1 || odd == 2 ? sx_pick("which", 0, 3) : -1;
        Db d;
        char buf[32];
        for (int i = 0; i < len; i++) buf[i] = (char)sx_bits("byte", 8);
        bson_t b = BSON_INITIALIZER;
        static const char* const K[] = {HEADER_RS_NROWS, HEADER_RS_NCOLS, HEADER_RS_LAYERS, HEADER_RS_CELLSNUM};
        int val[] = {rows, cols, lyrs, cells};
        for (int i = 0; i < 4; i++) {
            if (i == which && odd == 1) continue;
            if (i == which) bson_append_utf8(&b, K[i], -1, "none", -1); else bson_append_int32(&b, K[i], -1, val[i]);
        }
        bson_append_utf8(&b, HEADER_INC_NODATA, -1, "TRUE", -1);
        if (TYPES[type][0]) bson_append_utf8(&b, HEADER_RSOUT_DATATYPE, -1, TYPES[type], -1);
        mongo_put("r", buf, len, &b);
        bson_destroy(&b);
        if (odd == 3) mongo_cut(0, sx_pick("have", 0, len - 1));
        clsRasterData<int>* r = nullptr;
        clsRasterData<double>* q = nullptr;
        bool dbl = type == 3;
        if (dbl) q = clsRasterData<double>::Init(d.g, "r"); else r = clsRasterData<int>::Init(d.g, "r");
        bool good = odd == 0 && BYTES[type] && rows > 0 && lyrs > 0 && cells == rows * cols && len == cells * lyrs * BYTES[type];
        sx_check("accepted", (r || q) == good);
        if (good) {
            sx_check("size", dbl ? q->GetRows() == rows && q->GetCols() == cols && q->GetLayers() == lyrs : r->GetRows() == rows && r->GetCols() == cols && r->GetLayers() == lyrs);
            if (!dbl) for (int i = 0; i < cells; i++) for (int l = 0; l < lyrs; l++) {
                int k = i * lyrs + l, want;
                if (type == 0) std::memcpy(&want, buf + 4 * k, 4); else if (type == 1) want = (unsigned char)buf[k]; else { short s; std::memcpy(&s, buf + 2 * k, 2); want = s; }
                sx_check("cell", r->GetValue(i / cols, i % cols, l + 1) == want);
            }
            sx_reach("accepted");
        } else sx_reach("refused");
        delete r; delete q;
        d.close();
    }
    sx_heap_check("released", mark);
}
//@unit C31 c31_faults prof=mongo time=60/300 N=6/8 | a raster written while the next 0 to N savings fail, and read while the next 0 to N searches fail: what is reported as written can be read, what is read is what was written
extern "C" void c31_faults() {
    uint64_t mark = sx_heap_mark();
    {
        Grid<int> g; g.R = 1; g.C = 2; g.L = 1; g.two = false; g.dx = 2; g.x = 100; g.y = -40; fill(g);
        Db d;
        clsRasterData<int>* r = build(g);
        int saves = sx_pick("failing saves", 0, (int)sx_param("N")), finds = sx_pick("failing searches", 0, (int)sx_param("N"));
        mongo_fail_saves(saves);
        bool all = sx_flag("all");
        if (!all) sx_assume(g.count() > 0);
        bool ok = r->OutputToMongoDB(d.g, "r", STRING_MAP(), all);
        mongo_fail_saves(0);
        sx_check("retried", saves > 2 || ok);
        sx_check("files", mongo_files() == (ok ? 1 : 0));
        delete r;
        mongo_fail_finds(finds);
        clsRasterData<int>* m = all ? nullptr : sameMask(g);
        r = clsRasterData<int>::Init(d.g, "r", false, m, true, NODATA_VALUE, kept(all));
        sx_check("nothing to read", ok || !r);
        sx_check("found", !ok || finds > 2 || r);
        if (r) { sameGeo("geometry", r, g); sameEverywhere("cells", r, g); sx_reach("read"); } else sx_reach("not read");
        delete r; delete m;
        mongo_fail_finds(0);
        d.close();
    }
    sx_heap_check("released", mark);
}
//@unit C31 c31_again prof=mongo time=60/300 | two rasters of 1 x 2 and 2 x 1 arbitrary cells written in turn under the same or different names, with all cells or the valid ones: the last of each kind replaces the former, the others stay
extern "C" void c31_again() {
    uint64_t mark = sx_heap_mark();
    {
        Db d;
        Grid<int> g[2];
        const char* name[2]; bool all[2];
        for (int i = 0; i < 2; i++) {
            g[i].R = 1 + i; g[i].C = 2 - i; g[i].L = 1; g[i].two = false; g[i].dx = 2; g[i].x = 100 + i; g[i].y = -40; fill(g[i]);
            name[i] = i && sx_flag("other name") ? "q" : "r";
            all[i] = !sx_flag("valid only");
            sx_assume(g[i].count() > 0);
            clsRasterData<int>* r = build(g[i]);
            sx_check("written", r->OutputToMongoDB(d.g, name[i], STRING_MAP(), all[i]));
            delete r;
        }
        bool replaced = name[1][0] == 'r' && all[0] == all[1];
        sx_check("files", mongo_files() == (replaced ? 1 : 2));
        for (int i = replaced ? 1 : 0; i < 2; i++) {
            clsRasterData<int>* m = all[i] ? nullptr : sameMask(g[i]);
            clsRasterData<int>* r = clsRasterData<int>::Init(d.g, name[i], false, m, true, NODATA_VALUE, kept(all[i]));
            sx_check("read", r != nullptr);
            sameGeo("geometry", r, g[i]); sameEverywhere("cells", r, g[i]);
            delete r; delete m;
        }
        sx_reach("end");
        d.close();
    }
    sx_heap_check("released", mark);
}

//@unit C31 c31_subsets prof=mongo time=120/800 N=2/3 | rasters of at most N values with zones 1 and 2 and blank cells, full or compact: the raster's own values or ones of one or two layers given to each subset (either perhaps not usable), or reclassified, stored together or per zone, all cells or the valid ones; read back as rasters and into subsets that held values of other layers
extern "C" void c31_subsets() {
    uint64_t mark = sx_heap_mark();
    {
        Zoned k;
        if (!zoned(k, (int)sx_param("N"), 2)) return;
        Grid<int>& g = k.g;
        Db d;
        Ras* r = zonedRaster(k, "compact");
        int n = g.n(), what = sx_pick("what", 0, 2), off = sx_pick("not usable", 0, 2);   // 0: own values, 1: given values, 2: reclassified
        bool comb = sx_flag("combined"), all = !sx_flag("valid only");
        if (off && (!k.has[1] || !k.has[2])) { delete r; d.close(); return; }
        if (what == 2 && g.two) { delete r; d.close(); return; }
        int L = what == 1 ? sx_pick("layers of the values", 1, 2) : what == 2 ? sx_pick("lists", 1, 2) : g.L;
        Vals v = some(k, L);
        std::map<vint, std::vector<double> > recl;
        std::vector<int> want(n * L);
        for (int z = 1; z <= 2; z++) {
            if (!k.has[z]) continue;
            if (what == 1) { give(r, k, z, v, L == 1 && sx_flag("plain")); }
            if (what == 2) for (int l = 0; l < L; l++) recl[z].push_back(v.v[(z - 1) % n * L + l]);
        }
        if (off) r->GetSubset().at(off)->usable = false;
        bool blank = false;
        for (int i = 0; i < n; i++) for (int l = 0; l < L; l++) {
            int x = k.z[i] == NONE || k.z[i] == off ? g.nd : what == 0 ? g.v[i * L + l] : what == 1 ? v.v[i * L + l] : v.v[(k.z[i] - 1) % n * L + l];
            want[i * L + l] = x;
            if (x == g.nd && k.z[i] != NONE) blank = true;
        }
        bool ok = r->OutputSubsetToMongoDB(d.g, "r", STRING_MAP(), all, what == 0 || (what == 2 && sx_flag("own keys")), comb, recl);
        sx_check("written", ok);
        int zones = 0;
        for (int z = 1; z <= 2; z++) zones += k.has[z] && z != off;
        sx_check("files", mongo_files() == (comb ? 1 : zones));
        Ras* m = sameMask(g);
        if (comb) {
            bool full = r->GetCellNumber() == n;
            if (all || !full) {
                Ras* q = Ras::Init(d.g, "0_r", false, all ? nullptr : m, true, NODATA_VALUE, kept(all));
                sx_check("read", q != nullptr);
                Grid<int> w = g; w.L = L; w.v = want;
                sameGeo("geometry", q, w); sameEverywhere("cells", q, w);
                delete q;
                sx_reach("combined");
            }
        } else for (int z = 1; z <= 2; z++) {
            if (!k.has[z] || z == off) continue;
            SubsetPositions* p = r->GetSubset().at(z);
            S name = num(z) + "_r";
            if (all) {
                Ras* q = Ras::Init(d.g, name.c_str());
                sx_check("read", q != nullptr);
                int h = p->g_erow - p->g_srow + 1, w = p->g_ecol - p->g_scol + 1;
                sx_check("rectangle", q->GetRows() == h && q->GetCols() == w && q->GetLayers() == L && q->GetXllCenter() == g.x + p->g_scol * g.dx && q->GetYllCenter() == g.y + (g.R - 1 - p->g_erow) * g.dx && q->GetNoDataValue() == g.nd);
                for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) for (int l = 0; l < L; l++) {
                    int c = (p->g_srow + i) * g.C + p->g_scol + j;
                    sx_check("cell", q->GetValue(i, j, l + 1) == (k.z[c] == z ? want[c * L + l] : g.nd));
                }
                delete q;
            }
            SubsetPositions* t = new SubsetPositions(p, sx_flag("deep"));
            if (sx_flag("values before")) { std::vector<int> a(t->n_cells * 3, 5); std::vector<int*> rows; for (int i = 0; i < t->n_cells; i++) rows.push_back(&a[3 * i]); if (L == 1) t->Set2DData(t->n_cells, 3, rows.data()); else t->SetData(t->n_cells, a.data()); }
            sx_check("read into subset", t->ReadFromMongoDB(d.g, name, kept(all)));
            sx_check("layers", t->n_lyrs == L && t->usable && (L == 1 ? t->data_ && !t->data2d_ : t->data2d_ && !t->data_));
            int at = 0;
            for (int c = 0; c < n; c++) if (k.z[c] == z) { for (int l = 0; l < L; l++) sx_check("value", (L == 1 ? t->data_[at] : t->data2d_[at][l]) == want[c * L + l]); at++; }
            sx_check("missing file", !t->ReadFromMongoDB(d.g, "none"));
            delete t;
            sx_reach("single");
        }
        delete m;
        delete r;
        sx_reach("end");
        d.close();
    }
    sx_heap_check("released", mark);
}
