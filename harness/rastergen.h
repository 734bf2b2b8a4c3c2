// Symbolic rasters and their reference model.
#pragma once
#include "sxapi.h"
#include "data_raster.hpp"
#include <cmath>
#include <vector>
using namespace ccgl;
using namespace ccgl::data_raster;
template <typename T> struct Num;
template <> struct Num<int> {
    static int any(const char* n) { return (int)sx_bits(n, 32); }
    static int few(const char* n) { return sx_int(n, 0, 9); }
};
template <> struct Num<unsigned char> {
    static unsigned char any(const char* n) { return (unsigned char)sx_bits(n, 8); }
    static unsigned char few(const char* n) { return (unsigned char)sx_int(n, 0, 9); }
};
template <> struct Num<short> {
    static short any(const char* n) { return (short)sx_bits(n, 16); }
    static short few(const char* n) { return (short)sx_int(n, 0, 9); }
};
template <> struct Num<double> {
    static double any(const char* n) { return sx_ifp(n, -1000000000, 1000000000); }
    static double few(const char* n) { return sx_ifp(n, 0, 9); }
};
template <> struct Num<float> {
    static float any(const char* n) { return (float)sx_ifp(n, -1000000, 1000000); }
    static float few(const char* n) { return (float)sx_ifp(n, 0, 9); }
};
template <typename T> struct Grid {
    int R, C, L;          // rows, columns, layers
    bool two;             // kept as a two-dimensional (layered) raster
    T nd;
    double dx, x, y;      // cell size, centre of the lower left cell
    std::vector<T> v;     // [(row * C + col) * L + layer]
    T& at(int r, int c, int l) { return v[(r * C + c) * L + l]; }
    int n() const { return R * C; }
    bool in(int r, int c) const { return r >= 0 && r < R && c >= 0 && c < C; }
    bool ok(int r, int c, int l = 0) { return at(r, c, l) != nd; }
    int count(int l = 0) { int k = 0; for (int i = 0; i < n(); i++) if (v[i * L + l] != nd) k++; return k; }
};
// Shape: enumerated; at most cells cells; layers 0 stands for the one-dimensional kind
template <typename T> static Grid<T> shape(int cells, int layers) {
    Grid<T> g;
    g.R = sx_pick("rows", 1, cells);
    g.C = sx_pick("cols", 1, cells / g.R);
    g.L = layers ? sx_pick("layers", 0, layers) : 0;
    g.two = g.L > 0;
    if (!g.two) g.L = 1;
    g.dx = 2; g.x = 100; g.y = -40;
    g.nd = T();
    return g;
}
// A few larger shapes: 2x3, 3x2 and 3x3 cells (from N=9) of the one-dimensional kind, and 1x2 and 2x1 cells of three layers
template <typename T> static Grid<T> wide(int cells) {
    static const int S[5][3] = {{1, 2, 3}, {2, 1, 3}, {2, 3, 0}, {3, 2, 0}, {3, 3, 0}};
    int k = sx_pick("shape", 0, cells >= 9 ? 4 : cells >= 6 ? 3 : 1);
    Grid<T> g;
    g.R = S[k][0]; g.C = S[k][1]; g.L = S[k][2]; g.two = g.L > 0;
    if (!g.two) g.L = 1;
    g.dx = 2; g.x = 100; g.y = -40; g.nd = T();
    return g;
}
// Larger shapes: 4x3, 3x5 and 1x9 (more: also 9x1, 6x5 and 5x8) cells; flat or three layers (more: also one, two or five).  Blank cells are in one of seven
// patterns, further layers have others (same: they are also blank where the first layer is); all other cells are arbitrary values.
static inline bool blankAt(int p, int i, int j, int R, int C) {
    switch (p % 7) {
    case 0: return false;
    case 1: return i == 0 || j == C - 1;
    case 2: return (i + j) % 2 == 0;
    case 3: return i * C + j != R * C - 1;
    case 4: return i != 0 || j != 0;
    case 5: return i * C + j == R * C - 1 || i * C + j == R * C / 2;
    default: return j % 3 != 1 && i % 3 != 1;
    }
}
enum Cells { ANY, DIGITS, GIVEN };                     // arbitrary, 0 to 9, or concrete values 1 to 9
template <typename T> static Grid<T> patterned(bool more, bool same, T nodata, Cells how = ANY) {
    static const int S[6][2] = {{4, 3}, {3, 5}, {1, 9}, {9, 1}, {6, 5}, {5, 8}};
    static const int W[5] = {0, 3, 1, 2, 5};
    int k = sx_pick("shape", 0, more ? 5 : 2), p = sx_pick("pattern", 0, 6);
    Grid<T> g;
    g.R = S[k][0]; g.C = S[k][1]; g.L = W[sx_pick("layers", 0, more ? 4 : 1)]; g.two = g.L > 0;
    if (!g.two) g.L = 1;
    g.dx = 2; g.x = 100; g.y = -40; g.nd = nodata;
    for (int i = 0; i < g.R; i++)
        for (int j = 0; j < g.C; j++)
            for (int l = 0; l < g.L; l++) {
                T v = how == DIGITS ? Num<T>::few("cell") : how == ANY ? Num<T>::any("cell") : T(1 + (i * 4 + j * 7 + l * 2) % 9);
                if (how != GIVEN) sx_assume(v != nodata);
                g.v.push_back(blankAt(p + l, i, j, g.R, g.C) || (same && blankAt(p, i, j, g.R, g.C)) ? nodata : v);
            }
    return g;
}
template <typename T> static void fill(Grid<T>& g) {
    for (int i = 0; i < g.n() * g.L; i++) g.v.push_back(Num<T>::any("cell"));
    g.nd = Num<T>::any("nodata");
}
// The caller's arrays, as the constructors take them over
template <typename T> static T* flat(Grid<T>& g) {
    T* a = new T[g.n()];
    for (int i = 0; i < g.n(); i++) a[i] = g.v[i];
    return a;
}
template <typename T> static T** layered(Grid<T>& g) {
    T** a = new T*[g.n()];
    a[0] = new T[g.n() * g.L];
    for (int i = 1; i < g.n(); i++) a[i] = a[0] + i * g.L;
    for (int i = 0; i < g.n() * g.L; i++) a[0][i] = g.v[i];
    return a;
}
template <typename T> static clsRasterData<T>* build(Grid<T>& g, const STRING_MAP& o = STRING_MAP()) {
    return g.two ? new clsRasterData<T>(layered(g), g.C, g.R, g.L, g.nd, g.dx, g.x, g.y, o)
                 : new clsRasterData<T>(flat(g), g.C, g.R, g.nd, g.dx, g.x, g.y, o);
}
// For several layers the first one decides which cells are kept; the others are blank where it is.
template <typename T> static void sameCells(Grid<T>& g) {
    for (int i = 0; i < g.n(); i++)
        for (int l = 1; l < g.L; l++) sx_assume(g.v[i * g.L] != g.nd || g.v[i * g.L + l] == g.nd);
}
template <typename T, typename M> static void sameEverywhere(const char* id, clsRasterData<T, M>* r, Grid<T>& g) {
    for (int i = 0; i < g.R; i++)
        for (int j = 0; j < g.C; j++)
            for (int l = 0; l < g.L; l++) sx_check(id, r->GetValue(i, j, l + 1) == g.at(i, j, l));
}
template <typename T, typename M> static void sameGeo(const char* id, clsRasterData<T, M>* r, Grid<T>& g) {
    sx_check(id, r->GetRows() == g.R && r->GetCols() == g.C && r->GetLayers() == g.L);
    sx_check(id, r->GetCellWidth() == g.dx && r->GetXllCenter() == g.x && r->GetYllCenter() == g.y);
    sx_check(id, r->GetNoDataValue() == g.nd);
    const STRDBL_MAP& h = r->GetRasterHeader();
    sx_check(id, h.at(HEADER_RS_NCOLS) == g.C && h.at(HEADER_RS_NROWS) == g.R && h.at(HEADER_RS_LAYERS) == g.L);
    sx_check(id, h.at(HEADER_RS_NODATA) == (double)g.nd);
}
