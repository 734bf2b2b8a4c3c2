// Statistics (C12).
#include "rastergen.h"
template <typename T> static clsRasterData<T>* prepared(Grid<T>& g, bool compact) {
    clsRasterData<T>* r = build(g);
    if (compact) r->SetCalcPositions();
    return r;
}
// Cells that count for layer l: in compact storage a cell blank in the first layer is not stored.
template <typename T> static bool counts(Grid<T>& g, bool compact, int i, int l) { return g.v[i * g.L + l] != g.nd && (!compact || g.v[i * g.L] != g.nd); }
template <typename T> static void extremes(clsRasterData<T>* r, Grid<T>& g, bool compact, int l, const char* id) {
    int n = 0; double lo = 0, hi = 0;
    for (int i = 0; i < g.n(); i++) {
        if (!counts(g, compact, i, l)) continue;
        double v = (double)g.v[i * g.L + l];
        if (n == 0 || v < lo) lo = v;
        if (n == 0 || v > hi) hi = v;
        n++;
    }
    sx_check(id, r->GetValidNumber(l + 1) == n);
    if (n == 0) return;
    sx_check(id, r->GetMinimum(l + 1) == lo && r->GetMaximum(l + 1) == hi);
    sx_check(id, r->GetRange(l + 1) == hi - lo);
    sx_reach("statistics");
}
template <typename T> static void ranges(int layers) {
    uint64_t mark = sx_heap_mark();
    {
        int most = (int)sx_param("N");
        Grid<T> g = shape<T>(most, layers);
        if (g.n() * g.L > most) return;
        fill(g);
        bool compact = sx_flag("compact");
        if (compact) sx_assume(g.count() > 0);
        clsRasterData<T>* r = prepared(g, compact);
        int l = sx_pick("layer", 0, g.L - 1);
        extremes(r, g, compact, l, "first");
        sx_check("calculated", r->StatisticsCalculated());
        int w = sx_pick("then", 0, 3);
        if (w == 0) {                          // all layers at once
            if (g.two) {
                int k = -1; double* a = nullptr;
                r->GetStatistics("VALID_CELLNUMBER", &k, &a);
                sx_check("together", k == g.L && a != nullptr);
                for (int m = 0; m < g.L; m++) sx_check("together", a[m] == r->GetStatistics("valid_cellnumber", m + 1));
                double* b = nullptr;
                r->GetStatistics("max", &k, &b);
                for (int m = 0; m < g.L; m++) sx_check("together", b[m] == r->GetMaximum(m + 1) || a[m] == 0);
                sx_reach("together");
            }
        } else if (w == 1) {                   // a changed cell shows after a recomputation
            int i = sx_pick("cell", 0, g.n() - 1);
            T nv = Num<T>::any("new");
            if (counts(g, compact, i, 0)) { r->SetValue(i / g.C, i % g.C, nv, l + 1); sx_assume(!(compact && l == 0) || nv != g.nd); g.v[i * g.L + l] = nv; sx_reach("changed"); }
            r->UpdateStatistics();
            extremes(r, g, compact, l, "changed");
        } else if (w == 2) {                   // another layer after that
            extremes(r, g, compact, g.L - 1, "other layer");
            sx_check("unknown name", r->GetStatistics("none", 1) == r->GetDefaultValue());
            sx_check("no such layer", r->GetStatistics("MAX", g.L + 1) == r->GetDefaultValue() && r->GetStatistics("MAX", 0) == r->GetDefaultValue());
        } else if (g.two) {                    // released statistics are computed anew
            r->ReleaseStatsMap2D();
            extremes(r, g, compact, l, "released");
            sx_reach("released");
        }
        delete r;
    }
    sx_heap_check("all released", mark);
}
//@unit C12 c12_int time=90/400 N=2/4 | every raster of at most N values, flat or with 1 or 2 layers, full or compact, arbitrary int values and nodata: number, minimum, maximum and range of a layer, then of all layers together, after a changed cell, of another layer, after releasing the statistics
//@unit C24 c12_int name=omp_ranges prof=omp time=60/300 N=2/3 args=--omp-threads,4 | parallel statistics: the checks of c12_int
extern "C" void c12_int() { ranges<int>(2); }
//@unit C12 c12_float time=90/400 N=2/4 | as c12_int, whole floats up to 1e6
extern "C" void c12_float() { ranges<float>(2); }
//@unit C12 c12_byte time=90/400 N=3/5 | as c12_int, bytes
extern "C" void c12_byte() { ranges<unsigned char>(2); }
//@unit C12 c12_wide time=90/400 N=4/9 | 1x2 and 2x1 cells of three layers (thorough: also 2x3, 3x2 and 3x3 cells), full or compact, bytes, nodata 0: number, minimum, maximum and range of every layer
extern "C" void c12_wide() {
    uint64_t mark = sx_heap_mark();
    {
        Grid<unsigned char> g = wide<unsigned char>((int)sx_param("N"));
        for (int i = 0; i < g.n() * g.L; i++) g.v.push_back(Num<unsigned char>::any("cell"));
        g.nd = 0;
        bool compact = sx_flag("compact");
        if (compact) sx_assume(g.count() > 0);
        clsRasterData<unsigned char>* r = prepared(g, compact);
        for (int l = 0; l < g.L; l++) extremes(r, g, compact, l, "layers");
        delete r;
    }
    sx_heap_check("all released", mark);
}
// Values beyond the range of float: concrete magnitudes, symbolic choice
//@unit C12 c12_huge time=60/100 N=3 | double rasters of up to N cells with values out of 1e300, -1e300, 3.5e38, -3.5e38, 0 and nodata
extern "C" void c12_huge() {
    static const double vals[] = {1e300, -1e300, 3.5e38, -3.5e38, 0, -9999};
    int n = sx_pick("cells", 1, (int)sx_param("N"));
    Grid<double> g; g.R = 1; g.C = n; g.L = 1; g.two = sx_flag("layered"); g.nd = -9999; g.dx = 2; g.x = 100; g.y = -40;
    for (int i = 0; i < n; i++) g.v.push_back(vals[sx_pick("value", 0, 5)]);
    clsRasterData<double>* r = build(g);
    extremes(r, g, false, 0, "huge");
    delete r;
}
// Mean and standard deviation, in exact arithmetic
template <typename T> static void moments() {
    int most = (int)sx_param("N");
    Grid<T> g; g.R = 1; g.C = sx_pick("cells", 1, most); g.L = sx_pick("layers", 0, 3); g.two = g.L > 0; if (!g.two) g.L = 1;
    if (g.n() * g.L > most + 2) return;
    g.nd = -9999; g.dx = 2; g.x = 100; g.y = -40;
    int l = sx_pick("layer", 0, g.L - 1);
    int n = 0; double sum = 0;
    std::vector<double> used;
    for (int i = 0; i < g.n(); i++)
        for (int k = 0; k < g.L; k++) {
            bool blank = sx_flag("blank");
            double v = -9999;
            if (!blank) {
                v = sx_real("v"); sx_assume(v >= -1000 && v <= 1000);
                if (k == l) { used.push_back(v); sum += v; n++; }
            }
            g.v.push_back((T)v);
        }
    clsRasterData<T>* r = build(g);
    sx_check("number", r->GetValidNumber(l + 1) == n);
    if (n > 0) {
        double mean = r->GetAverage(l + 1), std = r->GetStd(l + 1), sq = 0;
        sx_check("mean", mean * n == sum);
        for (size_t i = 0; i < used.size(); i++) sq += (used[i] - mean) * (used[i] - mean);
        sx_check("deviation", std >= 0 && std * std * n == sq);
        sx_reach("moments");
    }
    delete r;
}
//@unit C12 c12_moments time=90/400 N=4/5 args=--real | rows of up to N cells, flat or with 1 to 3 layers, at most N + 2 values, real values in -1000..1000 with any subset blank: mean and standard deviation in exact (unrounded) arithmetic
//@unit C24 c12_moments name=omp_moments prof=omp time=60/300 N=3/4 args=--real,--omp-threads,6 | mean and deviation computed in parallel: the checks of c12_moments
extern "C" void c12_moments() { moments<double>(); }
