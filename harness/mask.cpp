// Rasters read under a mask (C01), stacks of single-layer files (C27).
#include "maskgen.h"
template <typename T, typename M> static void masked(const Src& s, const Mask& m, bool dfl) {
    bool ext = sx_flag("mask extent"), pos = sx_flag("valid cells only");
    int dflt = dfl ? 12 : s.nd;
    uint64_t mark = sx_heap_mark();
    {
        Want w;
        if (!expected(s, m, ext, dflt, w)) return;
        clsRasterData<M>* k = mask<M>(m);
        bool ready = sx_flag("mask positions known");
        if (ready) k->SetCalcPositions();
        clsRasterData<T, M>* r = clsRasterData<T, M>::Init("s.asc", pos, k, ext, dfl ? 12. : NODATA_VALUE);
        if (!w.inside) sx_check("nothing under the mask", !r);
        else if (!w.matched && !dfl) { if (r) for (int i = 0; i < m.R; i++) for (int j = 0; j < m.C; j++) sx_check("nothing valid", r->IsNoData(i, j)); }
        else if (!w.matched && !ext) {}         // only default values: any rectangle of them
        else {
            sx_check("read", r != nullptr);
            compare(r, w, m.q, s.nd);
            if (r->PositionsCalculated()) {
                int n, **p = nullptr, *ix = nullptr;
                r->GetRasterPositionData(&n, &p); r->GetRasterPositionData(&n, &ix);
                T* d = r->GetRasterDataPointer();
                sx_check("count", n == r->GetCellNumber());
                for (int i = 0; i < n; i++) sx_check("positions", p[i][0] * w.C + p[i][1] == ix[i] && d[i] == (T)w.v[ix[i]]);
            }
            sx_reach("end");
        }
        delete r;
        for (int i = 0; i < m.R * m.C; i++) sx_check("mask unchanged", k->IsNoData(i / m.C, i % m.C) == !m.ok(i) && k->GetValue(i / m.C, i % m.C) == (m.ok(i) ? (M)(i + 1) : (M)0));
        delete k;
    }
    sx_heap_check("released", mark);
}
//@unit C01 c01_pattern time=100/600 N=3/6 | mask and raster of the same extent (up to 2 x 2 cells, thorough up to 2 x 3) with every pattern of blank cells in both; mask or valid extent, full or compact, mask positions known or not; digits as values
//@unit C24 c01_pattern name=omp_mask prof=omp time=60/400 N=2/4 args=--omp-threads,4 | a file read under a mask: the checks of c01_pattern
extern "C" void c01_pattern() {
    int k = sx_pick("shape", 0, (int)sx_param("N")), R, C; dims(k, R, C);
    Mask m = shaped(k, sx_pick("mask", 0, (1 << (R * C)) - 2));
    masked<int, int>(file("s.asc", k, sx_pick("blank", 0, (1 << (R * C)) - 1), 4, 400, -160), m, false);
}
//@unit C01 c01_shift time=100/600 N=3/5 S=1/2 | mask (up to 2 x 2, thorough up to 3 x 1) without blanks or with one, raster of any such shape shifted by -1 to 1 (thorough -2 to 2) rows and columns, with at most one blank
extern "C" void c01_shift() {
    int k = sx_pick("mask shape", 0, (int)sx_param("N")), l = sx_pick("shape", 0, (int)sx_param("N")), R, C, A, B; dims(k, R, C); dims(l, A, B);
    int b = sx_pick("mask blank", -1, R * C > 1 ? R * C - 1 : -1), c = sx_pick("blank", -1, A * B - 1);
    Mask m = shaped(k, b < 0 ? 0 : 1 << b);
    masked<int, int>(file("s.asc", l, c < 0 ? 0 : 1 << c, 4, 400 + 4 * sx_pick("east", -(int)sx_param("S"), (int)sx_param("S")), -160 + 4 * sx_pick("north", -(int)sx_param("S"), (int)sx_param("S"))), m, false);
}
//@unit C01 c01_default time=100/600 N=3/5 | the same with a default value; shifts -1 to 1
extern "C" void c01_default() {
    int k = sx_pick("mask shape", 0, (int)sx_param("N")), l = sx_pick("shape", 0, (int)sx_param("N")), R, C, A, B; dims(k, R, C); dims(l, A, B);
    int b = sx_pick("mask blank", -1, R * C > 1 ? R * C - 1 : -1), c = sx_pick("blank", -1, A * B - 1);
    Mask m = shaped(k, b < 0 ? 0 : 1 << b);
    masked<float, int>(file("s.asc", l, c < 0 ? 0 : 1 << c, 4, 400 + 4 * sx_pick("east", -1, 1), -160 + 4 * sx_pick("north", -1, 1)), m, true);
}
//@unit C01 c01_cells time=100/600 N=3/6 | cells of the raster half, one and a half or twice as large as the mask's, displaced by quarters of the mask's cell (points on the border of two cells left out); bytes as mask
extern "C" void c01_cells() {
    static const int Q[3] = {2, 6, 8};
    int q = Q[sx_pick("size", 0, 2)], k = sx_pick("mask shape", 1, 4), l = sx_pick("shape", 0, (int)sx_param("N")), R, C; dims(k, R, C);
    Mask m = shaped(k, 0);
    masked<int, unsigned char>(file("s.asc", l, 0, q, 400 + sx_pick("east", -3, 3), -160 + sx_pick("north", -1, 2)), m, false);
}
//@unit C01 c01_large time=100/600 S=3/5 P=2/4 | masks and rasters of 4 x 3, 3 x 5 and 1 x 9 (thorough: also 9 x 1 and 6 x 5) cells, the raster shifted by up to two rows and columns, blank cells in some of seven patterns, digits elsewhere; mask or valid extent, full or compact, mask positions known or not
extern "C" void c01_large() {
    static const int some[] = {5, 1, 2, 3, 0, 4, 6};
    int n = (int)sx_param("S"), np = (int)sx_param("P"), k = 7 + sx_pick("mask shape", 0, n - 1), l = 7 + sx_pick("shape", 0, n - 1);
    Mask m = shaped(k, stripes(some[sx_pick("mask", 0, np)], k));
    masked<int, int>(file("s.asc", l, stripes(some[sx_pick("blank", 0, np)], l), 4, 400 + 4 * (sx_pick("east", 0, 1) * 3 - 2), -160 + 4 * (sx_pick("north", 0, 1) * 3 - 1)), m, false);
}
//@unit C01 c01_later time=100/600 N=3/5 | the extent of the mask requested after reading with the valid extent
extern "C" void c01_later() {
    int k = sx_pick("mask shape", 0, (int)sx_param("N")), R, C; dims(k, R, C);
    int b = sx_pick("mask blank", -1, R * C > 1 ? R * C - 1 : -1), c = sx_pick("blank", -1, R * C - 1);
    Mask m = shaped(k, b < 0 ? 0 : 1 << b);
    Src s = file("s.asc", k, c < 0 ? 0 : 1 << c, 4, 400 + 4 * sx_pick("east", -1, 1), -160 + 4 * sx_pick("north", -1, 1));
    uint64_t mark = sx_heap_mark();
    {
        Want w, v;
        expected(s, m, true, s.nd, w); expected(s, m, false, s.nd, v);
        clsRasterData<int>* q = mask<int>(m);
        clsRasterData<int>* r = clsRasterData<int>::Init("s.asc", sx_flag("valid cells only"), q, false);
        if (r && w.matched) {
            compare(r, v, 4, s.nd);
            bool done = r->SetUseMaskExt();
            compare(r, done ? w : v, 4, s.nd);
            sx_reach("end");
        }
        delete r; delete q;
    }
    sx_heap_check("released", mark);
}

// ---- stacks of files (C27); masked stacks also belong to C01
static S nth(int i) { return S("l_") + num(i + 1) + ".asc"; }
// layer k (from the second) of the stack whose first layer is w: positions without value in the first are blank in all;
// under a mask and without compact storage they may keep their values
static bool layer(const Want& w, int q, int nd, const Src& s, Want& r) {
    r = w;
    r.other.assign(w.R * w.C, nd);
    for (int i = 0; i < w.R * w.C; i++) {
        int p = s.at(w.x + i % w.C * q, w.y + (w.R - 1 - i / w.C) * q);
        if (p == -2) return false;
        r.other[i] = p >= 0 && s.ok(p) ? s.v[p] : nd;
        if (w.v[i] != nd) r.v[i] = r.other[i];
    }
    return true;
}
template <typename T> static void stacked(const std::vector<Src>& s, const Mask* m, bool ext) {
    uint64_t mark = sx_heap_mark();
    {
        std::vector<S> names; for (size_t i = 0; i < s.size(); i++) names.push_back(nth((int)i));
        std::vector<Want> w(s.size());
        int q = m ? m->q : s[0].q, nd = s[0].nd;
        bool pos = sx_flag("valid cells only"), any = true, clear = true;
        if (m) { clear = expected(s[0], *m, ext, nd, w[0]); any = w[0].matched > 0; }
        else {
            w[0].R = s[0].R; w[0].C = s[0].C; w[0].x = s[0].x; w[0].y = s[0].y; w[0].v = s[0].v;
            any = false; for (int i = 0; i < s[0].R * s[0].C; i++) if (s[0].ok(i)) any = true;
        }
        for (size_t k = 1; clear && any && k < s.size(); k++) clear = layer(w[0], q, nd, s[k], w[k]);
        if (clear) {
            clsRasterData<int>* k = m ? mask<int>(*m) : nullptr;
            clsRasterData<T, int>* r = clsRasterData<T, int>::Init(names, pos, k, ext);
            if (any) {
                sx_check("read", r != nullptr);
                sx_check("layers", r->GetLayers() == (int)s.size() && r->GetRasterHeader().at(HEADER_RS_LAYERS) == (int)s.size() && r->Is2DRaster() == (s.size() > 1));
                for (size_t i = 0; i < s.size(); i++) {
                    if (m && !pos && i) for (int j = 0; j < w[0].R * w[0].C; j++) if (w[0].v[j] == nd && !r->IsNoData(j / w[0].C, j % w[0].C, (int)i + 1)) w[i].v[j] = w[i].other[j];
                    compare(r, w[i], q, nd, (int)i + 1);
                }
                sx_check("no such layer", r->GetValue(0, 0, (int)s.size() + 1) == (T)nd && r->GetValue(0, 0, 0) == (T)nd);
                sx_reach("end");
            }
            else if (r) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int l = 1; l <= (m && !pos ? 1 : (int)s.size()); l++) sx_check("nothing valid", r->IsNoData(i, j, l));
            delete r; delete k;
        }
    }
    sx_heap_check("released", mark);
}
static int some(const char* what, int n) { int b = sx_pick(what, -1, n - 1); return b < 0 ? 0 : 1 << b; }   // at most one of n cells blank
//@unit C27 c27_files time=100/600 N=3/6 | one or two files of the same extent (up to 2 x 2 cells, thorough up to 2 x 3) with every pattern of blank cells and different nodata values; full or compact storage; digits as values
//@unit C24 c27_files name=omp_files prof=omp time=60/400 N=3/4 args=--omp-threads,4 | layers read in parallel: the checks of c27_files
extern "C" void c27_files() {
    int k = sx_pick("shape", 0, (int)sx_param("N")), n = sx_pick("files", 1, 2), R, C; dims(k, R, C);
    std::vector<Src> s;
    for (int i = 0; i < n; i++) s.push_back(file(nth(i).c_str(), k, sx_pick("blank", 0, (1 << (R * C)) - 1), 4, 400, -160, -9 - i));
    stacked<float>(s, nullptr, false);
}
//@unit C27 c27_three time=100/600 N=2/5 | three files with different nodata values, the further ones shifted by up to one row or column, at most one blank cell each
extern "C" void c27_three() {
    int k = sx_pick("shape", 0, (int)sx_param("N")), R, C; dims(k, R, C);
    std::vector<Src> s;
    for (int i = 0; i < 3; i++) s.push_back(file(nth(i).c_str(), k, some("blank", R * C), 4, 400 + (i ? 4 * sx_pick("east", -1, 1) : 0), -160 + (i > 1 ? 4 * sx_pick("north", 0, 1) : 0), -9 - i));
    stacked<int>(s, nullptr, false);
}
//@unit C27 c27_shift time=100/600 N=3/5 | a second file of any such shape, shifted by -2 to 2 rows and columns, both with at most one blank cell
extern "C" void c27_shift() {
    int k = sx_pick("shape", 0, (int)sx_param("N")), l = sx_pick("shape of the second", 0, (int)sx_param("N")), R, C, A, B; dims(k, R, C); dims(l, A, B);
    std::vector<Src> s;
    s.push_back(file(nth(0).c_str(), k, some("blank", R * C), 4, 400, -160));
    s.push_back(file(nth(1).c_str(), l, some("blank of the second", A * B), 4, 400 + 4 * sx_pick("east", -2, 2), -160 + 4 * sx_pick("north", -2, 2), -8));
    stacked<int>(s, nullptr, false);
}
//@unit C27 c27_cells time=100/600 N=3/6 | a second file with cells half, one and a half or twice as large, displaced by quarters of a cell (points on the border of two cells left out)
extern "C" void c27_cells() {
    static const int Q[3] = {2, 6, 8};
    int q = Q[sx_pick("size", 0, 2)], k = sx_pick("shape", 1, 4), l = sx_pick("shape of the second", 0, (int)sx_param("N"));
    std::vector<Src> s;
    s.push_back(file(nth(0).c_str(), k, 0, 4, 400, -160));
    s.push_back(file(nth(1).c_str(), l, 0, q, 400 + sx_pick("east", -3, 3), -160 + sx_pick("north", -1, 2)));
    stacked<int>(s, nullptr, false);
}
static void underMask() {
    int k = sx_pick("mask shape", 0, (int)sx_param("N")), R, C; dims(k, R, C);
    Mask m = shaped(k, R * C > 1 ? some("mask blank", R * C) : 0);
    std::vector<Src> s;
    s.push_back(file(nth(0).c_str(), k, some("blank", R * C), 4, 400 + 4 * sx_pick("east", -1, 1), -160));
    s.push_back(file(nth(1).c_str(), k, some("blank of the second", R * C), 4, 400, -160 + 4 * sx_pick("north", -1, 1), -8));
    stacked<int>(s, &m, sx_flag("mask extent"));
}
//@unit C27 c27_masked time=100/600 N=3/6 | two files under a mask of the same shape (up to 2 x 2, thorough up to 2 x 3), each shifted by up to a row or column, at most one blank cell in each; mask or valid extent, full or compact
//@unit C24 c27_masked name=omp_masked prof=omp time=60/400 N=2/4 args=--omp-threads,4,--omp-reverse | layers read under a mask in parallel: the checks of c27_masked, reverse order
extern "C" void c27_masked() {
    underMask();
}
//@unit C01 c27_masked name=c01_layers time=100/600 N=2/5 | two layers from two files under one mask, each file shifted by up to a row or column, at most one blank cell in each; mask or valid extent, full or compact
//@unit C27 c27_broken time=60/300 | three files one of which is missing, empty, lacks values or has a word among its values; by the factory or the constructor, full or compact storage
extern "C" void c27_broken() {
    int bad = sx_pick("which", 0, 2), how = sx_pick("how", 0, 3);
    bool pos = sx_flag("valid cells only"), ctor = sx_flag("constructor");
    for (int i = 0; i < 3; i++) {
        if (i != bad) { file(nth(i).c_str(), 3, 0, 4, 400, -160); continue; }
        S t = "NCOLS 2\nNROWS 2\nXLLCENTER 100\nYLLCENTER -40\nCELLSIZE 1\nNODATA_VALUE -9\n1 2\n3";
        if (how == 3) t += " x";
        t += "\n";
        if (how == 1) t = "";
        if (how) fs_put(nth(i).c_str(), t.data(), t.size());
    }
    uint64_t mark = sx_heap_mark();
    {
        std::vector<S> names; for (int i = 0; i < 3; i++) names.push_back(nth(i));
        if (ctor) { clsRasterData<int> r(names, pos); sx_check("not complete", !r.ValidateRasterData() || r.GetLayers() != 3 || !r.GetRasterHeader().count(HEADER_RS_LAYERS) || r.GetRasterHeader().at(HEADER_RS_LAYERS) != 3); }
        else sx_check("refused", clsRasterData<int>::Init(names, pos) == nullptr);
        sx_reach("end");
    }
    sx_heap_check("released", mark);
}
//@unit C27 c27_built time=60/300 | the constructor with a list of one to three files
extern "C" void c27_built() {
    int n = sx_pick("files", 1, 3); bool pos = sx_flag("valid cells only");
    std::vector<Src> s; std::vector<S> names;
    for (int i = 0; i < n; i++) { s.push_back(file(nth(i).c_str(), 3, 0, 4, 400, -160)); names.push_back(nth(i)); }
    uint64_t mark = sx_heap_mark();
    {
        clsRasterData<int> r(names, pos);
        sx_check("read", r.Initialized() && r.GetLayers() == n && r.Is2DRaster() == (n > 1) && r.GetRows() == 2 && r.GetCols() == 2);
        for (int k = 0; k < n; k++) for (int i = 0; i < 4; i++) sx_check("cell", r.GetValue(i / 2, i % 2, k + 1) == s[k].v[i]);
        sx_reach("end");
    }
    sx_heap_check("released", mark);
}
//@unit C27 c27_large time=100/600 S=3/5 P=2/6 | three or five files of 4 x 3, 3 x 5 or 1 x 9 (thorough: also 9 x 1 and 6 x 5) cells, with different nodata values, the further ones displaced by up to two columns and a row, blank cells in some of seven patterns, digits elsewhere; without a mask or under one of 4 x 3 cells; full or compact
extern "C" void c27_large() {
    static const int some[] = {0, 5, 2, 1, 6, 4, 3};
    int k = 7 + sx_pick("shape", 0, (int)sx_param("S") - 1), p = sx_pick("blank", 0, (int)sx_param("P")), n = 3 + 2 * sx_pick("more files", 0, 1), d = sx_pick("displaced", 0, 2);
    std::vector<Src> s;
    for (int i = 0; i < n; i++) s.push_back(file(nth(i).c_str(), k, stripes(some[(p + i) % 7], k), 4, 400 + (i && d ? 4 * (d + i % 3 - 2) : 0), -160 + (i > 1 && d == 2 ? 4 : 0), -9 - i));
    Mask m = shaped(7, stripes(some[p], 7));
    bool under = sx_flag("mask");
    stacked<int>(s, under ? &m : nullptr, under && sx_flag("mask extent"));
}
