// GeoTIFF files (C11): export to every cell type and reading back.  The symbolic runs use the GDAL stand-in of model/gdal, replays the real library.
#include "rastergen.h"
#include <cmath>
#include <type_traits>
#ifdef USE_GDAL
namespace {
typedef std::string S;
// Number k: the types an output may have (0: none given)
const char* const OUT[] = {"", "UINT8", "INT8", "UINT16", "INT16", "UINT32", "INT32", "UINT64", "INT64", "FLOAT", "DOUBLE"};
const int UIN[] = {0, 8, 0, 16, 0, 32, 0, 64, 0, 0, 0}, SIN[] = {0, 0, 8, 0, 16, 0, 32, 0, 64, 0, 0};
template <typename T> struct Of;
template <> struct Of<unsigned char> { enum { k = 1 }; };
template <> struct Of<signed char> { enum { k = 2 }; };
template <> struct Of<vuint16_t> { enum { k = 3 }; };
template <> struct Of<vint16_t> { enum { k = 4 }; };
template <> struct Of<vuint32_t> { enum { k = 5 }; };
template <> struct Of<vint32_t> { enum { k = 6 }; };
template <> struct Of<vuint64_t> { enum { k = 7 }; };
template <> struct Of<vint64_t> { enum { k = 8 }; };
template <> struct Of<float> { enum { k = 9 }; };
template <> struct Of<double> { enum { k = 10 }; };
// Whether a number can be held by the output type
bool fitsI(int64_t v, int k) {
    if (UIN[k]) return v >= 0 && (UIN[k] == 64 || v <= ((int64_t)1 << UIN[k]) - 1);
    if (SIN[k] && SIN[k] < 64) return v >= -((int64_t)1 << (SIN[k] - 1)) && v <= ((int64_t)1 << (SIN[k] - 1)) - 1;
    return true;
}
bool fitsD(double v, int k) {
    if (UIN[k]) return v >= 0 && v < std::ldexp(1., UIN[k]);
    if (SIN[k]) return v >= -std::ldexp(1., SIN[k] - 1) && v < std::ldexp(1., SIN[k] - 1);
    if (k == 9) return v <= 3.4028234663852886e38 && v >= -3.4028234663852886e38;
    return true;
}
template <typename T> bool fits(T v, int k) { return fitsI((int64_t)v, k); }
template <> bool fits<vuint64_t>(vuint64_t v, int k) { return v >> 63 ? k == 7 || k > 8 : fitsI((int64_t)v, k); }
template <> bool fits<float>(float v, int k) { return fitsD(v, k); }
template <> bool fits<double>(double v, int k) { return fitsD(v, k); }

// Reads the file as rasters of R and compares
template <typename T, typename R> void same(const S& file, Grid<T>& g, int l, int k) {
    clsRasterData<R>* b = clsRasterData<R>::Init(file, false);
    sx_check("readable", b != nullptr);
    if (!b) return;
    sx_check("size", b->GetRows() == g.R && b->GetCols() == g.C && b->GetLayers() == 1);
    sx_check("place", b->GetXllCenter() == g.x && b->GetYllCenter() == g.y && b->GetCellWidth() == g.dx);
    R nd = b->GetNoDataValue();
    if (fits(g.nd, k)) sx_check("nodata value", nd == (k == 9 ? (R)(float)g.nd : (R)g.nd));
    else sx_check("nodata value of the type", fits(nd, k) || (k == 7 && nd == (R)18446744073709551615ull));   // as a double it is rounded
    sx_check("type", b->GetDataType() == (RasterDataType)k);
    for (int i = 0; i < g.R; i++)
        for (int j = 0; j < g.C; j++) {
            sx_check("cell", b->GetValue(i, j) == (g.ok(i, j, l) ? (k == 9 ? (R)(float)g.at(i, j, l) : (R)g.at(i, j, l)) : nd));
            sx_check("blank", b->IsNoData(i, j) == !g.ok(i, j, l));
        }
    delete b;
}
template <typename T> void round(Grid<T> g, bool compact, int k);
template <typename T> void round(T (*cell)(const char*), std::vector<T> nodatas, int k) {
        int most = (int)sx_param("N");
        Grid<T> g = shape<T>(most, 2);
        if (g.n() * g.L > most) return;
        g.x = 3958422.5; g.y = -40.5; g.dx = 30;
        g.nd = nodatas[sx_pick("nodata", 0, (int)nodatas.size() - 1)];
        for (int i = 0; i < g.n() * g.L; i++) {
            if (sx_flag("blank")) { g.v.push_back(g.nd); continue; }
            T v = cell("cell");
            sx_assume(v != g.nd);
            if (k == 9 && sizeof(T) > 2 && !std::is_same<T, float>::value) { double d = (double)v; sx_assume((d >= -16777216 && d <= 16777216) || d > 5e9 || d < -5e9); }
            g.v.push_back(v);
        }
        bool compact = sx_flag("compact");
        if (compact) { sameCells(g); sx_assume(g.count() > 0); }
        round<T>(g, compact, k);
}
template <typename T> void round(Grid<T> g, bool compact, int k) {
    GDALAllRegister();
    uint64_t mark = sx_heap_mark();
    {
        STRING_MAP o;
        if (k) UpdateStrHeader(o, HEADER_RSOUT_DATATYPE, OUT[k]);
        clsRasterData<T>* r = build(g, o);
        if (compact) r->SetCalcPositions();
        int out = k ? k : (int)Of<T>::k;
        bool fit = true, kept = fits(g.nd, out);
        for (int i = 0; i < g.n() * g.L; i++) fit &= g.v[i] == g.nd || fits(g.v[i], out);
        S dir = S(fs_cwd()) + "/o";
        fs_mkdir("o");
        bool done = r->OutputToFile(dir + "/r.tif");
        if (fit && kept) sx_check("written", done);
        if (!fit) sx_check("refused", !done);
        if (done) {
            for (int l = 0; l < g.L; l++) {
                S f = dir + (g.two ? "/r_" + S(1, (char)('1' + l)) + ".tif" : S("/r.tif"));
                if (sizeof(T) < 8 || std::is_same<T, double>::value) same<T, double>(f, g, l, out);
                else if (out == 7) same<T, vuint64_t>(f, g, l, out);
                else if (out == 8) same<T, vint64_t>(f, g, l, out);
                else same<T, double>(f, g, l, out);
            }
            sx_reach("written");
        } else sx_reach("refused");
        sameEverywhere("source unchanged", r, g);
        delete r;
    }
    if (!sx_native()) sx_heap_check("released", mark);   // the real library keeps memory of its own
}
template <typename T> T bits(const char* n) { return (T)sx_bits(n, 8 * sizeof(T)); }
const int64_t L[] = {-9, -128, -129, 255, 256, -32768, 65535, 2147483647, 2147483648ll, -2147483649ll, 4294967295ll, 4294967296ll, INT64_MAX};
vint64_t someL(const char* n) { return L[sx_pick(n, 0, 12)]; }
vuint64_t someUL(const char* n) { int i = sx_pick(n, 0, 9); return L[i + 3] < 0 ? (vuint64_t)1 << 63 : (vuint64_t)L[i + 3]; }
const double D[] = {127, 128, -129, 65536, 2147483647., 2147483648., -2147483648., -2147483649., 4294967295., 4294967296., 9223372036854774784., 9223372036854775808., -9223372036854775808., -9223372036854777856., 18446744073709549568., 18446744073709551616., 3.4e38, 3.5e38, -3.5e38, 1e299};
double edgeD(const char* n) { return D[sx_pick(n, 0, 19)]; }
float edgeF(const char* n) { return (float)D[sx_pick(n, 0, 16)]; }
float someF(const char* n) { return (float)sx_ifp(n, -40000, 70000); }
double someD(const char* n) { return sx_ifp(n, -40000, 70000); }
}
//@unit C11 c11_large prof=gdal time=100/500 N=0/1 | grids of 4x3, 3x5 and 1x9 cells, flat or with three layers (thorough: up to 40 cells, up to five layers), blank cells in one of seven patterns, values 1 to 9 elsewhere and one arbitrary value in the middle or last (thorough: or first) cell, full or compact; bytes, 16-bit integers and doubles (thorough: every type) as output
extern "C" void c11_large() {
    bool compact = sx_flag("compact");
    static const int some[] = {1, 4, 10};
    bool all = sx_param("N") != 0;
    int k = all ? sx_pick("type", 0, 10) : some[sx_pick("type", 0, 2)];
    Grid<int> g = patterned<int>(sx_param("N") != 0, compact, -9999, GIVEN);
    g.x = 3958422.5; g.y = -40.5; g.dx = 30;
    int i = (all ? sx_pick("where", 0, 2) : 1 + sx_pick("where", 0, 1)) * (g.n() - 1) / 2, l = g.L - 1;
    int v = (int)sx_bits("cell", 32);
    sx_assume(v != g.nd && (k != 9 || (v >= -16777216 && v <= 16777216)));
    if (g.v[i * g.L] == g.nd) return;
    g.v[i * g.L + l] = v;
    round<int>(g, compact, k);
}
//@unit C11 c11_long prof=gdal time=100/500 N=1/2 | the same, 64-bit integers out of a few at the limits of the types, nodata -9999, the smallest or 0
extern "C" void c11_long() { round<vint64_t>(someL, {-9999, INT64_MIN, 0}, sx_pick("type", 0, 10)); }
//@unit C11 c11_ulong prof=gdal time=100/500 N=1/2 | the same, unsigned 64-bit integers, nodata the largest or 0
extern "C" void c11_ulong() { round<vuint64_t>(someUL, {UINT64_MAX, 0}, sx_pick("type", 0, 10)); }
//@unit C11 c11_limits prof=gdal time=100/500 N=1/2 | the same, doubles out of those at the limits of the types and beyond, nodata -9999, 1e300 or the default
extern "C" void c11_limits() { round<double>(edgeD, {-9999., 1e300, MISSINGFLOAT}, sx_pick("type", 0, 10)); }
//@unit C11 c11_flimits prof=gdal time=100/500 N=1/2 | the same, floats
extern "C" void c11_flimits() { round<float>(edgeF, {-9999.f, (float)MISSINGFLOAT}, sx_pick("type", 0, 10)); }
//@unit C11 c11_int prof=gdal time=100/500 N=1/2 | every raster of int of at most N values (flat or 1 to 2 layers), full or compact, arbitrary values, nodata -9999, 255, -2147483648 or 0; every output type
extern "C" void c11_int() { round<int>(bits<int>, {-9999, 255, INT32_MIN, 0}, sx_pick("type", 0, 10)); }
//@unit C11 c11_float prof=gdal time=100/500 N=1/2 | the same, whole floats between -40000 and 70000, nodata -9999, -3.4e38 or 0
extern "C" void c11_float() { round<float>(someF, {-9999.f, (float)MISSINGFLOAT, 0.f}, sx_pick("type", 0, 10)); }
//@unit C11 c11_double prof=gdal time=100/500 N=1/2 | the same, whole doubles between -40000 and 70000, nodata -9999, 1e300 or 0
extern "C" void c11_double() { round<double>(someD, {-9999., 1e300, 0.}, sx_pick("type", 0, 10)); }
//@unit C11 c11_byte prof=gdal time=100/500 N=2/3 | the same, bytes, nodata 255 or 0
extern "C" void c11_byte() { round<unsigned char>(bits<unsigned char>, {255, 0}, sx_pick("type", 0, 10)); }
//@unit C11 c11_sbyte prof=gdal time=100/500 N=1/2 | the same, signed bytes, nodata -128 or 0
extern "C" void c11_sbyte() { round<signed char>(bits<signed char>, {-128, 0}, sx_pick("type", 0, 10)); }
//@unit C11 c11_short prof=gdal time=100/500 N=1/2 | the same, 16-bit integers, nodata -9999 or 255
extern "C" void c11_short() { round<vint16_t>(bits<vint16_t>, {-9999, 255}, sx_pick("type", 0, 10)); }
//@unit C11 c11_ushort prof=gdal time=100/500 N=2/3 | the same, unsigned 16-bit integers, nodata 65535 or 0
//@unit C24 c11_ushort name=omp_tiff prof=gdal,omp time=100/400 N=2/3 args=--omp-threads,4 | export as GeoTIFF: the checks of c11_ushort
extern "C" void c11_ushort() { round<vuint16_t>(bits<vuint16_t>, {65535, 0}, sx_pick("type", 0, 10)); }
//@unit C11 c11_uint prof=gdal time=100/500 N=2/3 | the same, unsigned 32-bit integers, nodata 4294967295 or 0
extern "C" void c11_uint() { round<vuint32_t>(bits<vuint32_t>, {4294967295u, 0}, sx_pick("type", 0, 10)); }
#endif
