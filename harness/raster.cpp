// Rasters in memory: construction, lookup, compact storage, reclassification, nodata, statistics.
#include "rastergen.h"

// ---- construction (C29)
template <typename T> static Grid<T> small(int layers) { Grid<T> g = shape<T>((int)sx_param("N"), layers); fill(g); return g; }
template <typename T> static Grid<T> wider() { Grid<T> g = wide<T>((int)sx_param("N")); fill(g); return g; }
template <typename T> static void constructed(Grid<T> g) {
    uint64_t mark = sx_heap_mark();
    {
        STRING_MAP o;
        bool opt = sx_flag("options");
        if (opt) { o["SRS"] = "EPSG:4326"; o["MINE"] = "x"; }
        clsRasterData<T>* r = build(g, o);
        sx_check("initialized", r->Initialized() && r->ValidateRasterData() && r->Is2DRaster() == g.two);
        sameGeo("geo", r, g);
        sx_check("cells", r->GetCellNumber() == g.n() && r->GetDataLength() == g.n() * g.L);
        sx_check("plain", !r->PositionsCalculated() && r->GetMask() == nullptr && r->GetRasterPositionIndexPointer() == nullptr);
        sameEverywhere("value", r, g);
        int n = -5, m = -5;
        T* d1 = nullptr; T** d2 = nullptr;
        bool b1 = r->GetRasterData(&n, &d1);
        sx_check("flat data", b1 == !g.two && n == (g.two ? -1 : g.n()) && (d1 == nullptr) == g.two);
        bool b2 = r->Get2DRasterData(&n, &m, &d2);
        sx_check("layered data", b2 == g.two && n == (g.two ? g.n() : -1) && m == (g.two ? g.L : -1) && (d2 != nullptr) == g.two);
        if (opt) sx_check("options", r->GetOption("MINE") == "x" && r->GetSrsString() == "EPSG:4326");
        else sx_check("options", r->GetOption("MINE") == "");
        delete r;
        sx_reach("constructed");
    }
    sx_heap_check("all released", mark);
}
//@unit C29 c29_int time=60/300 N=4/8 | every shape of at most N cells, kept flat or with 1 or 2 layers, arbitrary int values and nodata
extern "C" void c29_int() { constructed<int>(small<int>(2)); }
//@unit C29 c29_double time=60/300 N=4/8 | as c29_int, whole doubles up to 1e9
extern "C" void c29_double() { constructed<double>(small<double>(2)); }
//@unit C29 c29_byte time=60/300 N=4/8 | as c29_int, arbitrary bytes
extern "C" void c29_byte() { constructed<unsigned char>(small<unsigned char>(2)); }
//@unit C29 c29_large time=60/300 N=0/1 | grids of 4x3, 3x5 and 1x9 cells, flat or with three layers (thorough: up to 40 cells, up to five layers), blank cells in one of seven patterns, arbitrary whole floats elsewhere
extern "C" void c29_large() { constructed<float>(patterned<float>(sx_param("N") != 0, false, -9999.f)); }
//@unit C29 c29_srs time=60/300 N=3/6 | the constructors that take the spatial reference as a text; shapes of at most N cells
extern "C" void c29_srs() {
    uint64_t mark = sx_heap_mark();
    {
        Grid<int> g = shape<int>((int)sx_param("N"), 2);
        fill(g);
        std::string srs = "EPSG:32650";
        clsRasterData<int>* r = g.two ? new clsRasterData<int>(layered(g), g.C, g.R, g.L, g.nd, g.dx, g.x, g.y, srs)
                                      : new clsRasterData<int>(flat(g), g.C, g.R, g.nd, g.dx, g.x, g.y, srs);
        sx_check("initialized", r->Initialized() && r->ValidateRasterData() && r->Is2DRaster() == g.two);
        sameGeo("geo", r, g);
        sameEverywhere("value", r, g);
        sx_check("srs", r->GetSrsString() == srs);
        delete r;
        sx_reach("constructed");
    }
    sx_heap_check("all released", mark);
}
// Values laid on the valid cells of a mask
//@unit C29 c29_onmask time=60/300 N=4/6 | int mask of at most N cells (arbitrary values, compacted or not, at least one valid cell) and as many int values, 0 to 2 layers; also a wrong number of values
extern "C" void c29_onmask() {
    uint64_t mark = sx_heap_mark();
    {
        Grid<int> g = shape<int>((int)sx_param("N"), 0);
        fill(g);
        int L = sx_pick("layers", 0, 2);
        clsRasterData<int>* m = build(g);
        if (sx_flag("compacted")) m->SetCalcPositions();
        int n = (int)sx_fork(g.count());
        sx_assume(n > 0);
        int len = sx_pick("wrong", 0, 5) ? n : n + 1;
        std::vector<int> val;
        int d = L ? L : 1;
        int* flatv = new int[len * d];
        for (int i = 0; i < len * d; i++) { flatv[i] = (int)sx_bits("value", 32); val.push_back(flatv[i]); }
        int** rows = new int*[len];
        for (int i = 0; i < len; i++) rows[i] = flatv + i * d;
        clsRasterData<int>* r = L ? new clsRasterData<int>(m, rows, len, L) : new clsRasterData<int>(m, flatv, len);
        for (int i = 0; i < len * d; i++) flatv[i] = 12345;   // the raster keeps its own copy
        delete[] rows; delete[] flatv;
        if (len == n) {
            sx_check("initialized", r->Initialized() && r->ValidateRasterData() && r->GetCellNumber() == n && r->GetLayers() == d);
            sx_check("geo", r->GetRows() == g.R && r->GetCols() == g.C && r->GetXllCenter() == g.x && r->GetYllCenter() == g.y && r->GetCellWidth() == g.dx && r->GetNoDataValue() == g.nd);
            int k = 0;
            for (int i = 0; i < g.R; i++)
                for (int j = 0; j < g.C; j++) {
                    bool ok = g.ok(i, j);
                    for (int l = 0; l < d; l++) sx_check("value", r->GetValue(i, j, l + 1) == (ok ? val[k * d + l] : g.nd));
                    sx_check("position", r->GetPosition(i, j) == (ok ? k : -1));
                    if (ok) {
                        for (int l = 0; l < d; l++) sx_check("by index", r->GetValueByIndex(k, l + 1) == val[k * d + l]);
                        k++;
                    }
                }
            sx_reach("fits");
        } else {
            sx_check("refused", !r->Initialized() && r->GetRasterDataPointer() == nullptr && r->Get2DRasterDataPointer() == nullptr);
            sx_check("no value", r->GetValue(0, 0) == r->GetNoDataValue());
            sx_reach("refused");
        }
        delete r;
        delete m;
    }
    sx_heap_check("all released", mark);
}

// ---- lookup (C02)
template <typename T> static void lookup(bool compact, Grid<T> g, bool value = false) {
    uint64_t mark = sx_heap_mark();
    {
    if (compact) sameCells(g);
    clsRasterData<T>* r = build(g);
    if (compact) {
        sx_assume(g.count() > 0);
        sx_check("compacted", r->SetCalcPositions());
    }
    int row = (int)sx_bits("row", 32), col = (int)sx_bits("col", 32), lyr = (int)sx_bits("layer", 32);
    bool inside = g.in(row, col), lok = lyr >= 1 && lyr <= g.L;
    T want = g.nd;
    int k = 0, pos = -2;
    std::vector<int> cells;
    for (int i = 0; i < g.n(); i++) {
        bool keep = compact ? g.v[i * g.L] != g.nd : true;
        bool here = row == i / g.C && col == i % g.C;
        if (here) pos = keep ? k : -1;
        for (int l = 0; l < g.L; l++) if (here && lyr == l + 1) want = g.v[i * g.L + l];
        if (keep) { cells.push_back(i); k++; }
    }
    int w = value ? 1 : sx_pick("how", 0, 4);
    if (w == 0) {
        sx_check("position", r->GetPosition(row, col) == pos);
        sx_reach("position");
    } else if (w == 1) {
        T got = r->GetValue(row, col, lyr);
        sx_check("value", got == want);
        if (!inside || !lok) sx_check("outside", got == g.nd);
        sx_check("nodata", r->IsNoData(row, col, lyr) == (want == g.nd));
        sx_reach("value");
    } else if (w == 2) {
        int idx = (int)sx_bits("index", 32);
        T at = g.nd;
        for (int i = 0; i < k; i++) for (int l = 0; l < g.L; l++) if (idx == i && lyr == l + 1) at = g.v[cells[i] * g.L + l];
        sx_check("by index", r->GetValueByIndex(idx, lyr) == at);
        sx_reach("by index");
    } else if (w == 3) {
        T* a = nullptr;
        bool given = sx_flag("given");
        if (given) { a = new T[g.L]; for (int l = 0; l < g.L; l++) a[l] = T(); }
        r->GetValue(row, col, a);
        if (inside) {
            sx_check("all layers", a != nullptr);
            for (int l = 0; l < g.L; l++) {
                T e = g.nd;
                for (int i = 0; i < g.n(); i++) if (row == i / g.C && col == i % g.C) e = g.v[i * g.L + l];
                sx_check("all layers", a[l] == e);
            }
            sx_reach("all layers");
        } else sx_check("no layers", a == nullptr);
        delete[] a;
    } else {
        T* a = nullptr;
        int idx = (int)sx_bits("index", 32);
        r->GetValueByIndex(idx, a);
        if (idx >= 0 && idx < k) {
            sx_check("layers by index", a != nullptr);
            for (int l = 0; l < g.L; l++) {
                T e = g.nd;
                for (int i = 0; i < k; i++) if (idx == i) e = g.v[cells[i] * g.L + l];
                sx_check("layers by index", a[l] == e);
            }
            sx_reach("layers by index");
        } else sx_check("no layers by index", a == nullptr);
        delete[] a;
    }
    delete r;
    }
    sx_heap_check("released", mark);
}
//@unit C02 c02_full_int time=60/300 N=4/9 | full storage, every shape of at most N cells, flat or 1 to 2 layers, arbitrary int values; arbitrary 32-bit row, column, layer and index
extern "C" void c02_full_int() { lookup<int>(false, small<int>(2)); }
//@unit C02 c02_compact_int time=90/300 N=4/6 | compact storage, at least one valid cell, otherwise as c02_full_int
extern "C" void c02_compact_int() { lookup<int>(true, small<int>(2)); }
//@unit C02 c02_full_float time=60/300 N=4/6 | as c02_full_int, whole floats up to 1e6
extern "C" void c02_full_float() { lookup<float>(false, small<float>(2)); }
//@unit C02 c02_compact_double time=60/300 N=3/6 | as c02_compact_int, whole doubles up to 1e9
extern "C" void c02_compact_double() { lookup<double>(true, small<double>(2)); }
//@unit C02 c02_wide time=60/300 N=6/9 | as c02_compact_int, bytes, 2x3, 3x2 (thorough: 3x3) cells, and 1x2 and 2x1 cells of three layers
extern "C" void c02_wide() { lookup<unsigned char>(true, wider<unsigned char>()); }
//@unit C02 c02_large time=60/300 N=0/1 | grids of 4x3, 3x5 and 1x9 cells, flat or with three layers (thorough: up to 40 cells, up to five layers), blank cells in one of seven patterns, arbitrary int values elsewhere, full or compact; the value and the nodata predicate at an arbitrary 32-bit row, column and layer
extern "C" void c02_large() {
    bool compact = sx_flag("compact");
    lookup<int>(compact, patterned<int>(sx_param("N") != 0, compact, -9999), true);
}
//@unit C02 c02_blank time=60/300 N=3/6 | a raster without any valid cell, before and after compaction, and a raster that was never filled: lookups at arbitrary rows, columns, layers and indices
extern "C" void c02_blank() {
    uint64_t mark = sx_heap_mark();
    {
        bool empty = sx_flag("empty");
        int row = (int)sx_bits("row", 32), col = (int)sx_bits("col", 32), lyr = (int)sx_bits("layer", 32), idx = (int)sx_bits("index", 32);
        clsRasterData<int>* r;
        int nd;
        if (empty) { r = new clsRasterData<int>(sx_flag("2d")); nd = r->GetNoDataValue(); }
        else {
            Grid<int> g = shape<int>((int)sx_param("N"), 2);
            nd = g.nd = (int)sx_bits("nodata", 32);
            for (int i = 0; i < g.n() * g.L; i++) g.v.push_back(nd);
            r = build(g);
            if (sx_flag("compact")) { r->SetCalcPositions(); sx_reach("compacted"); }
        }
        sx_check("value", r->GetValue(row, col, lyr) == nd);
        sx_check("by index", r->GetValueByIndex(idx, lyr) == nd);
        sx_check("nodata", r->IsNoData(row, col, lyr));
        int p = r->GetPosition(row, col);
        if (empty) sx_check("no position", p < 0);
        r->SetValue(row, col, nd, lyr);
        if (sx_flag("copied")) { clsRasterData<int> c(r); sx_check("copy", c.GetValue(row, col, lyr) == nd); }
        delete r;
        sx_reach("looked up");
    }
    sx_heap_check("released", mark);
}
//@unit C02 c02_set time=60/300 N=4/6 | writing one arbitrary value at an arbitrary row, column and layer, full and compact storage: exactly that cell changes, and only if it is stored
extern "C" void c02_set() {
    Grid<int> g = shape<int>((int)sx_param("N"), 2);
    fill(g);
    bool compact = sx_flag("compact");
    if (compact) { sameCells(g); sx_assume(g.count() > 0); }
    clsRasterData<int>* r = build(g);
    if (compact) r->SetCalcPositions();
    int row = (int)sx_bits("row", 32), col = (int)sx_bits("col", 32), lyr = (int)sx_bits("layer", 32), v = (int)sx_bits("new", 32);
    r->SetValue(row, col, v, lyr);
    for (int i = 0; i < g.R; i++)
        for (int j = 0; j < g.C; j++) {
            bool kept = !compact || g.at(i, j, 0) != g.nd;
            for (int l = 0; l < g.L; l++) sx_check("set", r->GetValue(i, j, l + 1) == (row == i && col == j && lyr == l + 1 && kept ? v : g.at(i, j, l)));
        }
    sx_reach("set");
    delete r;
}

// ---- compact storage (C03)
template <typename T> static void compacted(Grid<T> g, bool valid = true) {
    uint64_t mark = sx_heap_mark();
    {
        sameCells(g);
        clsRasterData<T>* r = build(g);
        int how = sx_pick("how", 0, 2), n = -1, *idx = nullptr, **pos = nullptr;
        if (how == 0) sx_check("done", r->SetCalcPositions());
        else if (how == 1) r->GetRasterPositionData(&n, &idx);
        else r->GetRasterPositionData(&n, &pos);
        int k = (int)sx_fork(g.count());
        if (k > 0) {
            for (int again = 0; again < 2; again++) {
                int n1 = -1, n2 = -1;
                r->GetRasterPositionData(&n1, &idx);
                r->GetRasterPositionData(&n2, &pos);
                sx_check("count", r->GetCellNumber() == k && n1 == k && n2 == k && r->GetDataLength() == k * g.L);
                if (valid) sx_check("valid number", r->GetValidNumber() == k);
                sx_check("flag", r->PositionsCalculated());
                int p = 0;
                for (int i = 0; i < g.n(); i++) {
                    if (!(g.v[i * g.L] != g.nd)) continue;
                    sx_check("index list", idx[p] == i);
                    sx_check("row and column list", pos[p][0] == i / g.C && pos[p][1] == i % g.C);
                    p++;
                }
                sameEverywhere("value", r, g);
                sx_check("header", r->GetRasterHeader().at(HEADER_RS_CELLSNUM) == k);
                sameGeo("geo", r, g);
                if (!again) r->SetCalcPositions();
            }
            sx_reach("compacted");
        } else {
            sameEverywhere("blank", r, g);
            sx_reach("blank");
        }
        delete r;
    }
    sx_heap_check("released", mark);
}
//@unit C03 c03_int time=90/400 N=3/5 | every shape of at most N cells, flat or 1 to 2 layers (further layers blank where the first is), arbitrary int values and nodata; the three ways to ask for compaction, twice
//@unit C24 c03_int name=omp_compact prof=omp time=60/300 N=3/4 args=--omp-threads,6 | valid positions calculated: the checks of c03_int
extern "C" void c03_int() { compacted<int>(small<int>(2)); }
//@unit C03 c03_float time=60/400 N=3/5 | as c03_int, whole floats up to 1e6
extern "C" void c03_float() { compacted<float>(small<float>(2)); }
//@unit C03 c03_byte time=60/400 N=3/5 | as c03_int, bytes
extern "C" void c03_byte() { compacted<unsigned char>(small<unsigned char>(2)); }
//@unit C03 c03_wide time=60/400 N=6/9 | as c03_int, bytes, 2x3, 3x2 (thorough: 3x3) cells, and 1x2 and 2x1 cells of three layers
extern "C" void c03_wide() { compacted<unsigned char>(wider<unsigned char>()); }

//@unit C03 c03_large time=60/400 N=1 | grids of 4x3, 3x5, 1x9, 9x1, 6x5 and 5x8 cells, flat or with 1, 2, 3 or 5 layers, blank cells in one of seven patterns, arbitrary 16-bit values elsewhere
extern "C" void c03_large() { compacted<short>(patterned<short>(sx_param("N") != 0, true, -9999), false); }

// ---- reclassification (C06)
template <typename T> static void reclassified() {
    int most = (int)sx_param("N");
    Grid<T> g = shape<T>(most, 2);
    if (g.n() * g.L > most) return;
    fill(g);
    bool compact = sx_flag("compact");
    if (compact) sameCells(g);
    if (compact) sx_assume(g.count() > 0);
    clsRasterData<T>* r = build(g);
    if (compact) r->SetCalcPositions();
    std::map<int, T> t;
    int k = sx_pick("entries", 0, g.n() * g.L > (int)sx_param("M") ? 1 : 2);
    T key[2], to[2];
    for (int i = 0; i < k; i++) { key[i] = Num<T>::any("key"); to[i] = Num<T>::any("to"); sx_assume(key[i] != g.nd); }
    if (k == 2) sx_assume(key[0] != key[1]);
    for (int i = 0; i < k; i++) t[(int)key[i]] = to[i];
    r->Reclassify(t);
    for (int i = 0; i < g.R; i++)
        for (int j = 0; j < g.C; j++)
            for (int l = 0; l < g.L; l++) {
                T old = g.at(i, j, l), want = g.nd;
                for (int e = 0; e < k; e++) if (old == key[e]) want = to[e];
                sx_check("mapped", r->GetValue(i, j, l + 1) == want);
            }
    sx_check("nodata", r->GetNoDataValue() == g.nd);
    sx_reach("reclassified");
    delete r;
}
//@unit C06 c06_int time=90/400 N=3/5 M=2/3 | every raster of at most N values (cells times layers), flat or 1 to 2 layers, full or compact; arbitrary int values, nodata and a table of at most 2 entries (1 above M values) with arbitrary keys other than nodata
extern "C" void c06_int() { reclassified<int>(); }
//@unit C06 c06_double time=90/400 N=2/3 M=1/2 | as c06_int, whole doubles up to 1e9
extern "C" void c06_double() { reclassified<double>(); }
//@unit C06 c06_byte time=90/400 N=4/5 M=2/3 | as c06_int, bytes
extern "C" void c06_byte() { reclassified<unsigned char>(); }

//@unit C06 c06_large time=90/400 N=0/1 | grids of 4x3, 3x5 and 1x9 cells, flat or with three layers (thorough: up to 40 cells, up to five layers), blank cells in one of seven patterns, values 1 to 9 elsewhere, full or compact; a table of up to two keys from 0 to 10 with arbitrary new values
extern "C" void c06_large() {
    bool compact = sx_flag("compact");
    Grid<int> g = patterned<int>(sx_param("N") != 0, compact, -9999, GIVEN);
    clsRasterData<int>* r = build(g);
    if (compact) r->SetCalcPositions();
    int key[2] = {sx_pick("key", 0, 10), 5}, to[2] = {(int)sx_bits("to", 32), (int)sx_bits("to", 32)}, k = sx_pick("entries", 1, 2);
    if (k == 2 && key[0] == key[1]) return;
    std::map<int, int> t;
    for (int i = 0; i < k; i++) t[key[i]] = to[i];
    r->Reclassify(t);
    for (int i = 0; i < g.n(); i++)
        for (int l = 0; l < g.L; l++) {
            int old = g.v[i * g.L + l], want = g.nd;
            for (int e = 0; e < k; e++) if (old == key[e]) want = to[e];
            sx_check("mapped", r->GetValue(i / g.C, i % g.C, l + 1) == want);
        }
    sx_reach("reclassified");
    delete r;
}

// ---- nodata replacement (C07)
template <typename T> static void replaced(bool compact, Grid<T> g) {
    if (compact) { sameCells(g); sx_assume(g.count() > 0); }
    clsRasterData<T>* r = build(g);
    if (compact) r->SetCalcPositions();
    bool same = sx_flag("default");
    if (same) r->SetDefaultValue((double)g.nd);
    T nn = Num<T>::any("new");
    for (int i = 0; i < g.n() * g.L; i++) sx_assume(g.v[i] != nn);   // not a value in use
    r->ReplaceNoData(nn);
    for (int i = 0; i < g.R; i++)
        for (int j = 0; j < g.C; j++)
            for (int l = 0; l < g.L; l++) {
                bool was = g.at(i, j, l) != g.nd;
                sx_check("value", r->GetValue(i, j, l + 1) == (was ? g.at(i, j, l) : nn));
                sx_check("nodata cell", r->IsNoData(i, j, l + 1) == !was);
            }
    sx_check("announced", r->GetNoDataValue() == nn && r->GetRasterHeader().at(HEADER_RS_NODATA) == (double)nn);
    if (same) sx_check("default follows", r->GetDefaultValue() == (double)nn);
    sx_reach("replaced");
    delete r;
}
//@unit C07 c07_int time=60/300 N=4/7 | every shape of at most N cells, flat or 1 to 2 layers, full or compact; arbitrary int values, old and new nodata (the new one not in use as a value)
//@unit C24 c07_int name=omp_nodata prof=omp time=60/300 N=4/6 args=--omp-threads,6 | nodata replaced in parallel: the checks of c07_int
extern "C" void c07_int() { bool compact = sx_flag("compact"); replaced<int>(compact, small<int>(2)); }
//@unit C07 c07_float time=60/300 N=4/6 | as c07_int, whole floats up to 1e6
extern "C" void c07_float() { bool compact = sx_flag("compact"); replaced<float>(compact, small<float>(2)); }
//@unit C07 c07_byte time=60/300 N=3/6 | as c07_int, bytes
extern "C" void c07_byte() { bool compact = sx_flag("compact"); replaced<unsigned char>(compact, small<unsigned char>(2)); }
//@unit C07 c07_large time=60/300 N=0/1 | grids of 4x3, 3x5 and 1x9 cells, flat or with three layers (thorough: up to 40 cells, up to five layers), blank cells in one of seven patterns, arbitrary whole doubles elsewhere, full or compact; any new nodata value not in use
extern "C" void c07_large() {
    bool compact = sx_flag("compact");
    replaced<double>(compact, patterned<double>(sx_param("N") != 0, compact, -9999));
}
