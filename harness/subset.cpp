// Subsets by zone: splitting and combining (C05), files of single subsets (C32), export at full size (C28).
#include "zones.h"
// The subsets of r have to be the classes of zone (one entry per cell of the full grid, NONE for blank cells)
template <typename T> static void partition(clsRasterData<T>* r, const std::vector<int>& zone) {
    int R = r->GetRows(), C = r->GetCols(), n = 0, *ix = nullptr;
    if (r->PositionsCalculated()) r->GetRasterPositionData(&n, &ix);
    std::vector<int> owner(R * C, NONE), seen(R * C, 0);
    Subs& s = r->GetSubset();
    for (auto it = s.begin(); it != s.end(); ++it) {
        SubsetPositions* p = it->second;
        int r0 = R, r1 = -1, c0 = C, c1 = -1, last = -1;
        sx_check("some cell", p->n_cells > 0);
        for (int i = 0; i < p->n_cells; i++) {
            int k = p->global_[i];
            sx_check("index", k >= 0 && k < r->GetCellNumber() && k > last);
            last = k;
            if (ix) k = ix[k];
            int row = k / C, col = k % C;
            sx_check("local", p->local_pos_[i][0] == row - p->g_srow && p->local_pos_[i][1] == col - p->g_scol && p->local_posidx_[i] == (row - p->g_srow) * (p->g_ecol - p->g_scol + 1) + col - p->g_scol);
            sx_check("once", !seen[k]);
            seen[k] = 1;
            owner[k] = it->first;
            if (row < r0) r0 = row; if (row > r1) r1 = row; if (col < c0) c0 = col; if (col > c1) c1 = col;
        }
        sx_check("tight box", p->g_srow == r0 && p->g_erow == r1 && p->g_scol == c0 && p->g_ecol == c1);
        STRDBL_MAP h;
        p->GetHeader(r->GetXllCenter(), r->GetYllCenter(), R, r->GetCellWidth(), -9, h);
        sx_check("rectangle", h.at(HEADER_RS_NROWS) == r1 - r0 + 1 && h.at(HEADER_RS_NCOLS) == c1 - c0 + 1 && h.at(HEADER_RS_XLL) == r->GetXllCenter() + c0 * r->GetCellWidth() && h.at(HEADER_RS_YLL) == r->GetYllCenter() + (R - 1 - r1) * r->GetCellWidth() && h.at(HEADER_RS_CELLSIZE) == r->GetCellWidth() && h.at(HEADER_RS_NODATA) == -9);
    }
    for (int i = 0; i < R * C; i++) {
        sx_check("in a subset", (seen[i] != 0) == (zone[i] != NONE));
        if (zone[i] != NONE) sx_check("zone", owner[i] == zone[i]);
    }
}
//@unit C05 c05_split time=100/600 N=3/5 | every raster of at most N cells (flat or layered; arbitrary values and nodata), stored full or compact; subsets by value
//@unit C24 c05_split name=omp_split prof=omp time=60/400 N=3/4 args=--omp-threads,4 | subsets: the checks of c05_split
extern "C" void c05_split() {
    int most = (int)sx_param("N");
    uint64_t mark = sx_heap_mark();
    {
        Grid<int> g = shape<int>(most, 2);
        if (g.n() * g.L > most) return;
        fill(g); sameCells(g); sx_assume(g.count() > 0);
        for (int i = 0; i < g.n(); i++) sx_assume(g.v[i * g.L] != NONE);
        Ras* r = build(g);
        if (sx_flag("compact")) r->SetCalcPositions();
        sx_check("built", r->BuildSubSet());
        std::vector<int> z;
        for (int i = 0; i < g.n(); i++) z.push_back(g.v[i * g.L] == g.nd ? NONE : g.v[i * g.L]);
        partition(r, z);
        sameEverywhere("values kept", r, g);
        sx_reach("end");
        delete r;
    }
    sx_heap_check("released", mark);
}
//@unit C05 c05_wide time=100/600 N=1/2 | rasters of 2 x 3 and 3 x 2 (thorough 3 x 3) cells, each blank or of one of two zones
extern "C" void c05_wide() {
    static const int D[3][2] = {{2, 3}, {3, 2}, {3, 3}};
    int k = sx_pick("shape", 0, (int)sx_param("N"));
    uint64_t mark = sx_heap_mark();
    {
        Grid<int> g; g.R = D[k][0]; g.C = D[k][1]; g.L = 1; g.two = false; g.nd = -9; g.dx = 2; g.x = 100; g.y = -40;
        int a = sx_int("zone a", -5, 5), b = sx_int("zone b", 6, 9); bool any = false;
        std::vector<int> z;
        for (int i = 0; i < g.n(); i++) { int w = sx_pick("which", 0, 2), v = w == 0 ? -9 : w == 1 ? a : b; if (w) any = true; g.v.push_back(v); z.push_back(w ? v : NONE); }
        if (!any) return;
        Ras* r = build(g);
        sx_check("built", r->BuildSubSet());
        partition(r, z);
        sx_reach("end");
        delete r;
    }
    sx_heap_check("released", mark);
}
//@unit C05 c05_groups time=100/600 N=2/4 | as c05_split with up to two values assigned to groups (arbitrary values and groups), then rebuilt with one assignment or none
extern "C" void c05_groups() {
    int most = (int)sx_param("N");
    uint64_t mark = sx_heap_mark();
    {
        Grid<int> g = shape<int>(most, 0);
        fill(g); sx_assume(g.count() > 0);
        std::map<int, int> t;
        int k = sx_pick("groups", 1, 2), key[2], to[2];
        for (int i = 0; i < k; i++) { key[i] = (int)sx_bits("value", 32); to[i] = (int)sx_bits("group", 32); sx_assume(to[i] != NONE); }
        if (k == 2) sx_assume(key[0] != key[1]);
        for (int i = 0; i < k; i++) t[key[i]] = to[i];
        Ras* r = build(g);
        sx_check("built", r->BuildSubSet(t));
        auto zones = [&](int m) { std::vector<int> z; for (int i = 0; i < g.n(); i++) { int v = g.v[i]; sx_assume(v != NONE); z.push_back(v == g.nd ? NONE : m > 0 && v == key[0] ? to[0] : m > 1 && v == key[1] ? to[1] : v); } return z; };
        partition(r, zones(k));
        if (sx_flag("again")) {
            bool none = sx_flag("none");
            std::map<int, int> u; if (!none) u[key[0]] = to[0];
            sx_check("rebuilt", r->RebuildSubSet(u));
            partition(r, zones(none ? 0 : 1));
            sx_reach("again");
        }
        sx_reach("end");
        delete r;
    }
    sx_heap_check("released", mark);
}
//@unit C05 c05_floats time=60/300 N=3/4 | whole floating-point values as zones; a row of up to N cells
extern "C" void c05_floats() {
    uint64_t mark = sx_heap_mark();
    {
        Grid<float> g; g.R = 1; g.C = sx_pick("cols", 1, (int)sx_param("N")); g.L = 1; g.two = false; g.dx = 2; g.x = 100; g.y = -40; g.nd = -9;
        std::vector<int> z;
        for (int i = 0; i < g.C; i++) { bool blank = sx_flag("blank"); int v = sx_int("zone", -1000, 1000); sx_assume(v != -9); g.v.push_back(blank ? -9.f : (float)v); z.push_back(blank ? NONE : v); }
        sx_assume(g.count() > 0);
        clsRasterData<float>* r = build(g);
        sx_check("built", r->BuildSubSet());
        partition(r, z);
        sx_reach("end");
        delete r;
    }
    sx_heap_check("released", mark);
}
// ---- rasters of zones 1 and 2 and their output
static S lyr(const S& stem, int l, int L) { return fs_cwd() + S("/") + stem + (L > 1 ? "_" + num(l + 1) : S()) + ".asc"; }
// The file name stem[_layer].asc has to hold want (full grid of k) within rows r0..r1 and columns c0..c1
static void holds(const S& stem, int L, const Zoned& k, const std::vector<int>& want, int r0, int r1, int c0, int c1) {
    const Grid<int>& g = k.g;
    for (int l = 0; l < L; l++) {
        STRDBL_MAP h; int* v = nullptr;
        bool ok = ReadAscFile(lyr(stem, l, L), h, v);
        sx_check("file", ok);
        sx_check("rectangle", h.at(HEADER_RS_NROWS) == r1 - r0 + 1 && h.at(HEADER_RS_NCOLS) == c1 - c0 + 1 && h.at(HEADER_RS_XLL) == g.x + c0 * g.dx && h.at(HEADER_RS_YLL) == g.y + (g.R - 1 - r1) * g.dx && h.at(HEADER_RS_CELLSIZE) == g.dx && h.at(HEADER_RS_NODATA) == g.nd);
        for (int r = r0; r <= r1; r++) for (int c = c0; c <= c1; c++) sx_check("cell", v[(r - r0) * (c1 - c0 + 1) + c - c0] == want[(r * g.C + c) * L + l]);
        delete[] v;
    }
}
//@unit C05 c05_combine time=100/600 N=3/4 M=0/1 | rasters of at most N values with zones 1 and 2 and blank cells; values of one or two layers given to each subset (by SetData or Set2DData, perhaps replacing ones of another number of layers), either subset perhaps not usable, with and without a default value; combined into files
//@unit C28 c05_combine name=c28_combine time=100/600 N=2/4 M=0/1 | as c05_combine
extern "C" void c05_combine() {
    uint64_t mark = sx_heap_mark();
    {
        Zoned k;
        if (!zoned(k, (int)sx_param("N"), 2)) return;
        Ras* r = zonedRaster(k, "compact");
        bool dfl = sx_flag("default");
        int dv = k.g.C > 1 ? 7 : -20;
        if (dfl) r->SetDefaultValue(dv);
        int L = sx_pick("layers of the values", 1, 2), off = sx_pick("not usable", 0, 2), before = (k.g.R == 1 || sx_param("M")) && sx_flag("values before") ? 3 - L + (int)sx_param("M") * sx_pick("more before", 0, 1) : 0;
        bool one = L == 1 && sx_flag("plain");
        if (off && !(k.has[3 - off] && k.has[off])) { delete r; return; }
        Vals d = some(k, L);
        for (int z = 1; z <= 2; z++) {
            if (!k.has[z]) continue;
            if (before) { Vals o; o.L = before; o.v.assign(k.g.n() * before, 5); give(r, k, z, o, false); }
            give(r, k, z, d, one);
            if (z == off) r->GetSubset().at(z)->usable = false;
        }
        std::vector<int> want;
        for (int i = 0; i < k.g.n(); i++) for (int l = 0; l < L; l++) want.push_back(k.z[i] == NONE ? -9 : k.z[i] == off ? (dfl ? dv : -9) : d.v[i * L + l]);
        bool byRaster = k.g.C > 1 && !off;
        sx_check("written", byRaster ? r->OutputToFile(fs_cwd() + S("/o.asc"), false) : r->OutputSubsetToFile(false, true, fs_cwd() + S("/o.asc")));
        sx_check("files", fs_count() == L);
        holds("0_o", L, k, want, 0, k.g.R - 1, 0, k.g.C - 1);
        sameEverywhere("raster unchanged", r, k.g);
        sx_reach("end");
        delete r;
    }
    sx_heap_check("released", mark);
}
// Which of the values a cell gets when given by a list per zone
static std::map<vint, std::vector<double> > lists(int L, int (&to)[3][2], bool second, int dflt) {
    std::map<vint, std::vector<double> > t;
    for (int z = 1; z <= 2; z++) for (int l = 0; l < L; l++) { to[z][l] = dflt; if (z == 1 || second) { int v = sx_int("new", 1, 9); to[z][l] = v; t[z].push_back((double)v); } }
    return t;
}
//@unit C05 c05_lists P=0 time=100/600 N=3/4 | combined output by reclassification lists of one or two layers for both zones or the first only, without values given to the subsets, one of which may not be usable; original or subset mode; default value given to the call, to the raster or not at all
//@unit C32 c05_lists name=c32_lists P=1 time=100/600 N=3/4 | the same, written as one file per subset
extern "C" void c05_lists() {
    uint64_t mark = sx_heap_mark();
    bool single = sx_param("P") != 0;
    {
        Zoned k;
        if (!zoned(k, (int)sx_param("N"), 0)) return;
        Ras* r = zonedRaster(k, "compact");
        int dfl = sx_pick("default", 0, 2), L = sx_pick("layers", 1, 2), to[3][2];
        if (dfl == 1) r->SetDefaultValue(7);
        std::map<vint, std::vector<double> > t = lists(L, to, sx_flag("both"), dfl == 0 ? -9 : dfl == 1 ? 7 : 8);
        bool origin = sx_flag("original");
        int off = k.has[1] && k.has[2] ? sx_pick("not usable", 0, 2) : 0;
        if (off) { r->GetSubset().at(off)->usable = false; for (int l = 0; l < L; l++) to[off][l] = dfl == 0 ? -9 : dfl == 1 ? 7 : 8; }
        sx_check("written", r->OutputSubsetToFile(origin, !single, fs_cwd() + S("/o.asc"), t, dfl == 2 ? 8. : (double)NODATA_VALUE));
        std::vector<int> want;
        if (!single) {
            for (int i = 0; i < k.g.n(); i++) for (int l = 0; l < L; l++) want.push_back(k.z[i] == NONE ? -9 : to[k.z[i]][l]);
            sx_check("files", fs_count() == L);
            holds("0_o", L, k, want, 0, k.g.R - 1, 0, k.g.C - 1);
        } else for (int z = 1; z <= 2; z++) {
            if (!k.has[z] || z == off) continue;
            SubsetPositions* p = r->GetSubset().at(z);
            want.clear();
            for (int i = 0; i < k.g.n(); i++) for (int l = 0; l < L; l++) want.push_back(k.z[i] == z ? to[z][l] : -9);
            holds(num(z) + "_o", L, k, want, p->g_srow, p->g_erow, p->g_scol, p->g_ecol);
        }
        sx_reach("end");
        delete r;
    }
    sx_heap_check("released", mark);
}
//@unit C32 c32_values time=100/600 N=3/4 | one file per subset of a raster of at most N values (flat or two layers) with zones 1 and 2 and blank cells: the original values or values of one or two layers given to the subsets, one of which may not be usable
extern "C" void c32_values() {
    uint64_t mark = sx_heap_mark();
    {
        Zoned k;
        if (!zoned(k, (int)sx_param("N"), 2)) return;
        Ras* r = zonedRaster(k, "compact");
        bool origin = sx_flag("original");
        int L = origin ? k.g.L : sx_pick("layers of the values", 1, 2), off = sx_pick("not usable", 0, 2);
        Vals d; d.L = L;
        if (origin) d.v = k.g.v; else d = some(k, L);
        bool one = L == 1 && !origin && sx_flag("plain");
        int files = 0;
        for (int z = 1; z <= 2; z++) {
            if (!k.has[z]) continue;
            if (!origin) give(r, k, z, d, one);
            if (z == off) r->GetSubset().at(z)->usable = false; else files += L;
        }
        sx_check("written", r->OutputSubsetToFile(origin, false, fs_cwd() + S("/o.asc")));
        sx_check("files", fs_count() == files);
        for (int z = 1; z <= 2; z++) {
            if (!k.has[z] || z == off) continue;
            SubsetPositions* p = r->GetSubset().at(z);
            std::vector<int> want;
            for (int i = 0; i < k.g.n(); i++) for (int l = 0; l < L; l++) want.push_back(k.z[i] == z ? d.v[i * L + l] : -9);
            holds(num(z) + "_o", L, k, want, p->g_srow, p->g_erow, p->g_scol, p->g_ecol);
            std::vector<int*> a;
            if (origin) continue;
            p->Output(-9, a);
            sx_check("layers in memory", (int)a.size() == L);
            int C = p->g_ecol - p->g_scol + 1;
            for (int l = 0; l < (int)a.size(); l++) {
                for (int i = 0; i < k.g.n(); i++) { int y = i / k.g.C - p->g_srow, x = i % k.g.C - p->g_scol; if (x >= 0 && y >= 0 && x < C && y <= p->g_erow - p->g_srow) sx_check("in memory", a[l][y * C + x] == want[i * L + l]); }
                delete[] a[l];
            }
        }
        sx_reach("end");
        delete r;
    }
    sx_heap_check("released", mark);
}
// Larger grids, whose zones are stripes in any direction
//@unit C05 c32_large name=c05_large W=0 time=100/600 N=3/7 | grids of 4 x 2 to 3 x 4 (thorough 6 x 3) cells of two zones and blank cells in stripes, values of one or two layers given to the subsets: the partition, and the combined files
//@unit C32 c32_large W=1 time=100/600 N=3/7 | the same, one file per subset
//@unit C28 c32_large name=c28_large W=2 time=100/600 N=3/7 | the same, original values combined at full size
extern "C" void c32_large() {
    static const int D[8][2] = {{4, 2}, {2, 4}, {4, 3}, {3, 4}, {5, 3}, {2, 6}, {1, 7}, {6, 3}};
    uint64_t mark = sx_heap_mark();
    {
        int s = sx_pick("shape", 0, (int)sx_param("N")), down = sx_pick("down", 0, 2), across = sx_pick("across", 0, 2), first = sx_pick("first", 0, 2), mode = (int)sx_param("W");
        Zoned k; Grid<int>& g = k.g;
        g.R = D[s][0]; g.C = D[s][1]; g.L = 1; g.two = false; g.nd = -9; g.dx = 2; g.x = 100; g.y = -40;
        k.has[1] = k.has[2] = false;
        for (int i = 0; i < g.n(); i++) { int z = (i / g.C * down + i % g.C * across + first) % 3; k.z.push_back(z ? z : NONE); k.has[z] = true; g.v.push_back(z ? z : -9); }
        if (!k.has[1] && !k.has[2]) return;
        Ras* r = zonedRaster(k, "compact");
        partition(r, k.z);
        int L = mode == 2 ? 1 : sx_pick("layers of the values", 1, 2);
        Vals d; d.L = L;
        if (mode == 2) d.v = g.v; else { d = some(k, L); for (int z = 1; z <= 2; z++) if (k.has[z]) give(r, k, z, d, L == 1); }
        sx_check("written", r->OutputSubsetToFile(mode == 2, mode != 1, fs_cwd() + S("/o.asc")));
        for (int z = mode == 1 ? 1 : 0; z <= (mode == 1 ? 2 : 0); z++) {
            if (z && !k.has[z]) continue;
            std::vector<int> want;
            for (int i = 0; i < g.n(); i++) for (int l = 0; l < L; l++) want.push_back((z ? k.z[i] == z : k.z[i] != NONE) ? d.v[i * L + l] : -9);
            if (!z) { holds("0_o", L, k, want, 0, g.R - 1, 0, g.C - 1); continue; }
            SubsetPositions* p = r->GetSubset().at(z);
            holds(num(z) + "_o", L, k, want, p->g_srow, p->g_erow, p->g_scol, p->g_ecol);
        }
        sx_reach("end");
        delete r;
    }
    sx_heap_check("released", mark);
}
//@unit C28 c28_original time=100/600 N=3/4 | a raster of at most N values (flat or two layers, blank cells, full or compact), split into zones 1 and 2: its original values combined into files at full size; a subset that is not usable gets the default value or nodata
extern "C" void c28_original() {
    uint64_t mark = sx_heap_mark();
    {
        Zoned k;
        if (!zoned(k, (int)sx_param("N"), 2)) return;
        Ras* r = zonedRaster(k, "compact");
        bool dfl = sx_flag("default");
        if (dfl) r->SetDefaultValue(7);
        int off = sx_pick("not usable", 0, 2), L = k.g.L;
        for (int z = 1; z <= 2; z++) if (k.has[z] && z == off) r->GetSubset().at(z)->usable = false;
        sx_check("written", r->OutputSubsetToFile(true, true, fs_cwd() + S("/o.asc")));
        std::vector<int> want;
        for (int i = 0; i < k.g.n(); i++) for (int l = 0; l < L; l++) want.push_back(k.z[i] == NONE ? -9 : k.z[i] == off ? (dfl ? 7 : -9) : k.g.v[i * L + l]);
        sx_check("files", fs_count() == L);
        holds("0_o", L, k, want, 0, k.g.R - 1, 0, k.g.C - 1);
        sx_reach("end");
        delete r;
    }
    sx_heap_check("released", mark);
}
//@unit C05 c05_refused time=60/300 | combining is refused, and nothing written, when a usable subset has no values, when the numbers of layers differ, when no subsets exist, or when the lists differ in length
extern "C" void c05_refused() {
    uint64_t mark = sx_heap_mark();
    {
        Zoned k; k.g.R = 1; k.g.C = 3; k.g.L = 1; k.g.two = false; k.g.nd = -9; k.g.dx = 2; k.g.x = 100; k.g.y = -40; k.g.v = {1, 2, 1}; k.z = k.g.v; k.has[1] = k.has[2] = true;
        Ras* r = build(k.g);
        int how = sx_pick("how", 0, 3);
        bool comb = sx_flag("combined");
        std::map<vint, std::vector<double> > t;
        if (how) r->BuildSubSet();
        Vals d = some(k, 1), e = some(k, 2);
        if (how == 1) give(r, k, 1, d, true);
        if (how == 2) { give(r, k, 1, d, true); give(r, k, 2, e, false); comb = true; }
        if (how == 3) { t[1].push_back(1); t[2].push_back(1); t[2].push_back(2); }
        sx_check("refused", !r->OutputSubsetToFile(false, comb, fs_cwd() + S("/o.asc"), t));
        if (comb) sx_check("nothing written", fs_count() == 0);
        sx_reach("end");
        delete r;
    }
    sx_heap_check("released", mark);
}
// A raster read under a mask that has been split: its subsets are the zones of the mask; w: what is looked at
static void underZones(const Mask& m, int first, const Src& s, const Src& s2, int L, bool given, int w) {
    int R = m.R, C = m.C;
    bool ext = sx_flag("mask extent"), pos = sx_flag("valid cells only");
    uint64_t mark = sx_heap_mark();
    {
        Want v;
        expected(s, m, ext, s.nd, v);
        if (!v.matched) return;
        int* a = new int[R * C];
        for (int i = 0; i < R * C; i++) a[i] = !m.ok(i) ? 0 : (first >> i & 1) ? 1 : 2;
        std::vector<int> zm(a, a + R * C);
        Ras* q = new Ras(a, C, R, 0, 1., 100., -40.);
        sx_check("built", q->BuildSubSet());
        if (given) {
            Subs& t = q->GetSubset();
            for (auto it = t.begin(); it != t.end(); ++it) { std::vector<int> d(it->second->n_cells, 5); it->second->SetData(it->second->n_cells, d.data()); }
        }
        std::vector<S> names(1, "s.asc"); if (L > 1) names.push_back("t.asc");
        Ras* r = Ras::Init(names, pos, q, ext);
        sx_check("read", r != nullptr && r->GetRows() == v.R && r->GetCols() == v.C);
        // zones of the cells of the result; blank cells may be kept
        std::vector<int> zone(v.R * v.C, NONE), may(v.R * v.C, NONE), seen(v.R * v.C, 0);
        int c0 = (v.x - m.x) / 4, r0 = m.R - v.R - (v.y - m.y) / 4;
        for (int i = 0; i < v.R * v.C; i++) {
            int z = zm[(i / v.C + r0) * C + i % v.C + c0];
            if (z) may[i] = z;
            if (v.v[i] != s.nd) zone[i] = z;
        }
        Subs& t = r->GetSubset();
        int n = 0, *ix = nullptr;
        if (r->PositionsCalculated()) r->GetRasterPositionData(&n, &ix);
        for (auto it = t.begin(); it != t.end(); ++it) for (int i = 0; i < it->second->n_cells; i++) {
            int g = it->second->global_[i];
            sx_check("index", g >= 0 && g < r->GetCellNumber());
            if (ix) g = ix[g];
            if (zone[g] == NONE) { sx_check("zone of a blank cell", may[g] == it->first); zone[g] = it->first; }
        }
        if (!w) {
            bool full = !r->PositionsCalculated();
            partition(r, zone);
            if (full && sx_flag("compact later")) {
                sx_check("made compact", r->SetCalcPositions() && r->GetCellNumber() == v.matched);
                sx_reach("compact later");
                for (int i = 0; i < v.R * v.C; i++) if (v.v[i] == s.nd) zone[i] = NONE;
                partition(r, zone);
            }
        }
        if (w) {
            sx_check("written", r->OutputSubsetToFile(true, w == 2, fs_cwd() + S("/o.asc")));
            Zoned k2; k2.g.R = v.R; k2.g.C = v.C; k2.g.dx = 1; k2.g.x = v.x / 4.; k2.g.y = v.y / 4.; k2.g.nd = s.nd;
            std::vector<int> all;
            for (int i = 0; i < v.R * v.C; i++) {
                all.push_back(v.v[i]);
                if (L > 1) { int p = s2.at(v.x + i % v.C * 4, v.y + (v.R - 1 - i / v.C) * 4); bool any = zone[i] != NONE && p >= 0; int o = any ? s2.v[p] : s.nd; if (v.v[i] == s.nd && any) o = r->GetValue(i / v.C, i % v.C, 2); all.push_back(o); }
            }
            if (w == 2) holds("0_o", L, k2, all, 0, v.R - 1, 0, v.C - 1);
            else for (auto it = t.begin(); it != t.end(); ++it) {
                SubsetPositions* p = it->second;
                std::vector<int> want;
                for (int i = 0; i < v.R * v.C; i++) for (int l = 0; l < L; l++) want.push_back(zone[i] == it->first ? all[i * L + l] : s.nd);
                holds(num(it->first) + "_o", L, k2, want, p->g_srow, p->g_erow, p->g_scol, p->g_ecol);
            }
        }
        sx_reach("end");
        delete r; delete q;
    }
    sx_heap_check("released", mark);
}
//@unit C05 c05_masked time=100/600 N=3/5 ALL=0/1 W=0 | rasters of up to 2 x 2 cells (thorough 3 x 1), with at most one blank cell, read under a mask of the same shape split into two zones (with at most one blank cell), shifted by up to a row and column; mask or valid extent, full or compact; one or two layers (2 x 2 cells: one layer and one direction in the quick tier)
//@unit C32 c05_masked name=c32_masked time=100/600 N=3/5 ALL=0/1 W=1 | as c05_masked, original values written as one file per subset
//@unit C28 c05_masked name=c28_masked time=100/600 N=3/5 ALL=0/1 W=2 | as c05_masked, original values combined into files at full size
extern "C" void c05_masked() {
    int k = sx_pick("shape", 0, (int)sx_param("N")), w = (int)sx_param("W"), R, C; dims(k, R, C);
    int first = sx_pick("zones", 0, (1 << R * C) - 1), b = sx_pick("mask blank", -1, R * C > 1 ? R * C - 1 : -1), c = sx_pick("blank", -1, R * C - 1);
    Mask m = shaped(k, b < 0 ? 0 : 1 << b);
    if (b >= 0 && (first >> b & 1)) return;
    if (R * C == 4 && !(first & 1) && b != 0) return;       // the zones' names do not matter: the first cell is in the first zone
    bool small = R * C < 4 || sx_param("ALL");
    int L = small ? sx_pick("layers", 1, 2) : 1, east = sx_pick("east", -1, 1), north = small || !east ? sx_pick("north", -1, 1) : 0;
    Src s = file("s.asc", k, c < 0 ? 0 : 1 << c, 4, 400 + 4 * east, -160 + 4 * north);
    Src s2 = L > 1 ? file("t.asc", k, 0, 4, s.x, s.y) : s;
    underZones(m, first, s, s2, L, small && sx_flag("values at the mask"), w);
}
//@unit C05 c05_window time=100/600 W=0 | rasters of 2 x 2 cells with at most one blank cell at any place under a mask of 2 x 3 or 3 x 2 cells split into two zones
//@unit C28 c05_window name=c28_window time=100/600 W=2 | as c05_window, original values combined into files at full size
extern "C" void c05_window() {
    Mask m = shaped(6, 0);
    bool tall = sx_flag("tall");
    if (tall) { m.R = 3; m.C = 2; }
    int first = 1 + 2 * sx_pick("zones", 0, 31), c = sx_pick("blank", -1, 3);
    Src s = file("s.asc", 3, c < 0 ? 0 : 1 << c, 4, 400 + (tall ? 0 : 4 * sx_pick("east", 0, 1)), -160 + (tall ? 4 * sx_pick("north", 0, 1) : 0));
    underZones(m, first, s, s, 1, false, (int)sx_param("W"));
}
