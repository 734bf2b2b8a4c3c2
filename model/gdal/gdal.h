// The part of GDAL 3.8 the library uses (stand-in for symbolic execution; natively the real library is used).
#ifndef SX_GDAL_H
#define SX_GDAL_H
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#define GDAL_VERSION_MAJOR 3
#define GDAL_VERSION_MINOR 8
#define GDAL_COMPUTE_VERSION(a, b, c) ((a) * 1000000 + (b) * 10000 + (c) * 100)
#define GDAL_VERSION_NUM GDAL_COMPUTE_VERSION(3, 8, 4)
enum GDALDataType { GDT_Unknown = 0, GDT_Byte = 1, GDT_UInt16 = 2, GDT_Int16 = 3, GDT_UInt32 = 4, GDT_Int32 = 5, GDT_Float32 = 6, GDT_Float64 = 7, GDT_UInt64 = 12, GDT_Int64 = 13, GDT_Int8 = 14, GDT_TypeCount = 15 };
enum GDALAccess { GA_ReadOnly = 0, GA_Update = 1 };
enum GDALRWFlag { GF_Read = 0, GF_Write = 1 };
enum CPLErr { CE_None = 0, CE_Debug = 1, CE_Warning = 2, CE_Failure = 3, CE_Fatal = 4 };
typedef void* GDALDatasetH;
typedef long long GIntBig;
typedef long long GSpacing;
typedef char** CSLConstList;
extern "C" {
void GDALAllRegister();
void* CPLMalloc(size_t n);
void* CPLCalloc(size_t n, size_t m);
void CPLFree(void* p);
#define VSIFree CPLFree
const char* CPLGetLastErrorMsg();
char** CSLSetNameValue(char** l, const char* n, const char* v);
char** CSLAddString(char** l, const char* v);
void CSLDestroy(char** l);
int GDALGetDataTypeSizeBytes(GDALDataType t);
}
GDALDatasetH GDALOpen(const char* name, GDALAccess a);
CPLErr GDALClose(GDALDatasetH d);
#endif
