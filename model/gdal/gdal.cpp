// Behaviour of GDAL 3.8's GeoTIFF driver as far as the library uses it: single-band datasets kept in memory, beside a placeholder in the
// in-memory file system.  Checked against the real library by the native validations of the C11 units.
#include "gdal_priv.h"
#include "sxapi.h"
#include <cstring>
#include <cmath>
#include <string>
static const int MAXF = 6, MAXC = 16;
struct SxFile {
    bool used;
    char name[200];
    int w, h;
    GDALDataType t;
    char data[MAXC * 8];
    bool hasnd;
    double nd; int64_t ndi; uint64_t ndu;
    bool hasgt;
    double gt[6];
    char srs[200];
};
static SxFile files[MAXF];
static void key(const char* n, char* out) {
    std::string s(n);
    while (s.compare(0, 2, "./") == 0) s = s.substr(2);
    if (s.empty() || s[0] != '/') s = std::string(fs_cwd()) + "/" + s;
    if (s.size() > 199) sx_fail("path too long for the GDAL model");
    std::memcpy(out, s.c_str(), s.size() + 1);
}
static SxFile* find(const char* k) {
    for (int i = 0; i < MAXF; i++) if (files[i].used && !std::strcmp(files[i].name, k)) return &files[i];
    return nullptr;
}
static GDALDataset* open(SxFile* f, bool update) {
    GDALDataset* d = new GDALDataset();
    d->f = f; d->update = update; d->band.f = f;
    return d;
}
extern "C" {
void GDALAllRegister() {}
void* CPLMalloc(size_t n) { return n ? std::malloc(n) : nullptr; }
void* CPLCalloc(size_t n, size_t m) { void* p = CPLMalloc(n * m); if (p) std::memset(p, 0, n * m); return p; }
void CPLFree(void* p) { std::free(p); }
const char* CPLGetLastErrorMsg() { return "error"; }
char** CSLSetNameValue(char** l, const char* n, const char* v) { return CSLAddString(l, (std::string(n) + "=" + v).c_str()); }
char** CSLAddString(char** l, const char* v) {
    int n = 0; while (l && l[n]) n++;
    char** r = (char**)std::malloc((n + 2) * sizeof(char*));
    for (int i = 0; i < n; i++) r[i] = l[i];
    r[n] = (char*)std::malloc(std::strlen(v) + 1); std::strcpy(r[n], v);
    r[n + 1] = nullptr;
    std::free(l);
    return r;
}
void CSLDestroy(char** l) { if (!l) return; for (int i = 0; l[i]; i++) std::free(l[i]); std::free(l); }
int GDALGetDataTypeSizeBytes(GDALDataType t) {
    switch (t) {
    case GDT_Byte: case GDT_Int8: return 1;
    case GDT_UInt16: case GDT_Int16: return 2;
    case GDT_UInt32: case GDT_Int32: case GDT_Float32: return 4;
    default: return 8;
    }
}
}
GDALDatasetH GDALOpen(const char* name, GDALAccess a) {
    char k[200]; key(name, k);
    if (!fs_isfile(k)) return nullptr;
    SxFile* f = find(k);
    return f ? open(f, a == GA_Update) : nullptr;
}
CPLErr GDALClose(GDALDatasetH d) { delete (GDALDataset*)d; return CE_None; }
GDALDriverManager* GetGDALDriverManager() { static GDALDriverManager m; return &m; }
GDALDriver* GDALDriverManager::GetDriverByName(const char* n) { static GDALDriver d; return std::strcmp(n, "GTiff") ? nullptr : &d; }
GDALDataset* GDALDriver::Create(const char* name, int w, int h, int bands, GDALDataType t, char**) {
    char k[200]; key(name, k);
    if (w < 1 || h < 1 || bands != 1 || w * h > MAXC) return nullptr;
    std::string dir(k); dir = dir.substr(0, dir.rfind('/'));
    if (!fs_isdir(dir.empty() ? "/" : dir.c_str()) || fs_isdir(k)) return nullptr;
    SxFile* f = find(k);
    for (int i = 0; !f && i < MAXF; i++) if (!files[i].used) f = &files[i];
    if (!f) sx_fail("too many files for the GDAL model");
    std::memset(f, 0, sizeof *f);
    f->used = true; std::strcpy(f->name, k); f->w = w; f->h = h; f->t = t;
    fs_put(k, "TIFF", 4);
    return open(f, true);
}
int GDALRasterBand::GetXSize() { return f->w; }
int GDALRasterBand::GetYSize() { return f->h; }
GDALDataType GDALRasterBand::GetRasterDataType() { return f->t; }
// 64-bit bands keep the number that its text begins with (numbers from 1e18 on are written with an exponent)
static double lead(double v) { while (std::fabs(v) >= 10) v /= 10; return std::trunc(v); }
CPLErr GDALRasterBand::SetNoDataValue(double v) {
    f->hasnd = true;
    if (f->t == GDT_Int64 || f->t == GDT_UInt64) {
        if (!(std::fabs(v) < 1e18)) v = lead(v);
        f->ndi = (int64_t)v; f->ndu = (uint64_t)f->ndi;
        f->nd = f->t == GDT_Int64 ? (double)f->ndi : (double)f->ndu;
    } else f->nd = f->t == GDT_Float32 ? (double)(float)v : v;
    return CE_None;
}
CPLErr GDALRasterBand::SetNoDataValueAsInt64(int64_t v) { if (f->t != GDT_Int64) return CE_Failure; f->hasnd = true; f->ndi = v; f->nd = (double)v; return CE_None; }
CPLErr GDALRasterBand::SetNoDataValueAsUInt64(uint64_t v) { if (f->t != GDT_UInt64) return CE_Failure; f->hasnd = true; f->ndu = v; f->nd = (double)v; return CE_None; }
CPLErr GDALRasterBand::DeleteNoDataValue() { f->hasnd = false; return CE_None; }
double GDALRasterBand::GetNoDataValue(int* ok) { if (ok) *ok = f->hasnd; return f->hasnd ? f->nd : f->t == GDT_Int64 ? -9.223372036854775808e18 : f->t == GDT_UInt64 ? 18446744073709551615.0 : -1e10; }
int64_t GDALRasterBand::GetNoDataValueAsInt64(int* ok) { bool y = f->hasnd && f->t == GDT_Int64; if (ok) *ok = y; return y ? f->ndi : INT64_MIN; }
uint64_t GDALRasterBand::GetNoDataValueAsUInt64(int* ok) { bool y = f->hasnd && f->t == GDT_UInt64; if (ok) *ok = y; return y ? f->ndu : UINT64_MAX; }
// Conversions between cell types: rounded to the nearest and limited to the range of the target
template <typename D, typename S> struct Conv;
template <typename T> struct Kind { enum { fp = 0 }; };
template <> struct Kind<float> { enum { fp = 1 }; };
template <> struct Kind<double> { enum { fp = 1 }; };
template <typename T> static T low() { return (T)-1 < (T)0 ? (T)((uint64_t)1 << (sizeof(T) * 8 - 1)) : (T)0; }
template <typename T> static T high() { return (T)~low<T>(); }
template <typename D> static D fromInt(int64_t v) {
    if (Kind<D>::fp) return (D)v;
    if (v < 0 && !((D)-1 < (D)0)) return 0;
    if (sizeof(D) < 8) { if (v < (int64_t)low<D>()) return low<D>(); if (v > (int64_t)high<D>()) return high<D>(); }
    return (D)v;
}
template <typename D> static D fromUInt(uint64_t v) {
    if (Kind<D>::fp) return (D)v;
    if (v > (uint64_t)high<D>()) return high<D>();
    return (D)v;
}
template <typename D> static D fromFp(double v) {
    if (Kind<D>::fp) return (D)v;
    if (v != v) return 0;
    if (v <= (double)low<D>()) return low<D>();
    if (v >= (double)high<D>()) return high<D>();
    return (D)(v < 0 ? std::ceil(v - 0.5) : std::floor(v + 0.5));
}
template <> float fromInt<float>(int64_t v) { return (float)v; }
template <> double fromInt<double>(int64_t v) { return (double)v; }
template <> float fromUInt<float>(uint64_t v) { return (float)v; }
template <> double fromUInt<double>(uint64_t v) { return (double)v; }
template <> float fromFp<float>(double v) { return (float)v; }
template <> double fromFp<double>(double v) { return v; }
template <typename T> static T get(const char* p) { T v; std::memcpy(&v, p, sizeof v); return v; }
template <typename D> static void to(char* q, const char* p, GDALDataType s) {
    D d = 0;
    switch (s) {
    case GDT_Byte: d = fromInt<D>(get<unsigned char>(p)); break;
    case GDT_Int8: d = fromInt<D>(get<signed char>(p)); break;
    case GDT_UInt16: d = fromInt<D>(get<uint16_t>(p)); break;
    case GDT_Int16: d = fromInt<D>(get<int16_t>(p)); break;
    case GDT_UInt32: d = fromInt<D>(get<uint32_t>(p)); break;
    case GDT_Int32: d = fromInt<D>(get<int32_t>(p)); break;
    case GDT_Int64: d = fromInt<D>(get<int64_t>(p)); break;
    case GDT_UInt64: d = fromUInt<D>(get<uint64_t>(p)); break;
    case GDT_Float32: d = fromFp<D>(get<float>(p)); break;
    case GDT_Float64: d = fromFp<D>(get<double>(p)); break;
    default: break;
    }
    std::memcpy(q, &d, sizeof d);
}
static void conv(char* q, GDALDataType d, const char* p, GDALDataType s) {
    switch (d) {
    case GDT_Byte: to<unsigned char>(q, p, s); break;
    case GDT_Int8: to<signed char>(q, p, s); break;
    case GDT_UInt16: to<uint16_t>(q, p, s); break;
    case GDT_Int16: to<int16_t>(q, p, s); break;
    case GDT_UInt32: to<uint32_t>(q, p, s); break;
    case GDT_Int32: to<int32_t>(q, p, s); break;
    case GDT_Int64: to<int64_t>(q, p, s); break;
    case GDT_UInt64: to<uint64_t>(q, p, s); break;
    case GDT_Float32: to<float>(q, p, s); break;
    case GDT_Float64: to<double>(q, p, s); break;
    default: break;
    }
}
CPLErr GDALRasterBand::RasterIO(GDALRWFlag rw, int x, int y, int w, int h, void* data, int bw, int bh, GDALDataType t, GSpacing px, GSpacing ln, void*) {
    int fs = GDALGetDataTypeSizeBytes(f->t), bs = GDALGetDataTypeSizeBytes(t);
    if (x < 0 || y < 0 || w < 1 || h < 1 || w > f->w - x || h > f->h - y || !data || f->t == GDT_Unknown || t == GDT_Unknown) return CE_Failure;
    if (bw != w || bh != h) sx_fail("resampling is not part of the GDAL model");
    if (!px) px = bs;
    if (!ln) ln = px * bw;
    for (int j = 0; j < h; j++)
        for (int i = 0; i < w; i++) {
            char* in = f->data + ((y + j) * f->w + x + i) * fs;
            char* out = (char*)data + j * ln + i * px;
            if (t == f->t) { if (rw == GF_Read) std::memcpy(out, in, fs); else std::memcpy(in, out, fs); }
            else if (rw == GF_Read) conv(out, t, in, f->t);
            else conv(in, f->t, out, t);
        }
    return CE_None;
}
CPLErr GDALRasterBand::ComputeRasterMinMax(int, double* mm) {
    bool any = false;
    double lo = 0, hi = 0;
    for (int i = 0; i < f->w * f->h; i++) {
        double v = 0;
        conv((char*)&v, GDT_Float64, f->data + i * GDALGetDataTypeSizeBytes(f->t), f->t);
        if (v != v || (f->hasnd && v == f->nd)) continue;
        if (!any || v < lo) lo = v;
        if (!any || v > hi) hi = v;
        any = true;
    }
    mm[0] = lo; mm[1] = hi;
    return any ? CE_None : CE_Failure;
}
CPLErr GDALDataset::GetGeoTransform(double* g) {
    static const double unit[6] = {0, 1, 0, 0, 0, 1};
    for (int i = 0; i < 6; i++) g[i] = f->hasgt ? f->gt[i] : unit[i];
    return f->hasgt ? CE_None : CE_Failure;
}
CPLErr GDALDataset::SetGeoTransform(double* g) { f->hasgt = true; for (int i = 0; i < 6; i++) f->gt[i] = g[i]; return CE_None; }
const char* GDALDataset::GetProjectionRef() { return f->srs; }
CPLErr GDALDataset::SetProjection(const char* p) { if (std::strlen(p) > 199) sx_fail("projection too long for the GDAL model"); std::strcpy(f->srs, p); return CE_None; }
