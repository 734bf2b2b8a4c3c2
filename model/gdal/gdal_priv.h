#ifndef SX_GDAL_PRIV_H
#define SX_GDAL_PRIV_H
#include "gdal.h"
struct SxFile;
class GDALRasterBand {
public:
    SxFile* f;
    int GetXSize();
    int GetYSize();
    double GetNoDataValue(int* ok = nullptr);
    int64_t GetNoDataValueAsInt64(int* ok = nullptr);
    uint64_t GetNoDataValueAsUInt64(int* ok = nullptr);
    CPLErr SetNoDataValue(double v);
    CPLErr SetNoDataValueAsInt64(int64_t v);
    CPLErr SetNoDataValueAsUInt64(uint64_t v);
    CPLErr DeleteNoDataValue();
    GDALDataType GetRasterDataType();
    CPLErr ComputeRasterMinMax(int approx, double* mm);
    CPLErr RasterIO(GDALRWFlag rw, int x, int y, int w, int h, void* data, int bw, int bh, GDALDataType t, GSpacing px, GSpacing ln, void* extra = nullptr);
    CPLErr FlushCache(bool = false) { return CE_None; }
};
class GDALDataset {
public:
    SxFile* f;
    bool update;
    GDALRasterBand band;
    GDALRasterBand* GetRasterBand(int i) { return i == 1 ? &band : nullptr; }
    int GetRasterCount() { return 1; }
    int GetRasterXSize() { return band.GetXSize(); }
    int GetRasterYSize() { return band.GetYSize(); }
    CPLErr GetGeoTransform(double* g);
    CPLErr SetGeoTransform(double* g);
    const char* GetProjectionRef();
    CPLErr SetProjection(const char* p);
    CPLErr FlushCache(bool = false) { return CE_None; }
};
class GDALDriver {
public:
    GDALDataset* Create(const char* name, int w, int h, int bands, GDALDataType t, char** opts);
};
class GDALDriverManager {
public:
    GDALDriver* GetDriverByName(const char* n);
};
GDALDriverManager* GetGDALDriverManager();
#endif
