# Planted bugs in GeoTIFF files (C11)
TF = dict(flags='-DUSE_GDAL -I/usr/include/gdal', libs='-lgdal')
TH = RH + '''#include "utils_array.h"
template <typename T> static clsRasterData<T>* grid(int n, std::vector<T> v, T nd, const char* type) { STRDBL_MAP h; h["NCOLS"] = n; h["NROWS"] = 1; h["XLLCENTER"] = 0.5; h["YLLCENTER"] = 0.5; h["CELLSIZE"] = 1; h["NODATA_VALUE"] = nd; h["LAYERS"] = 1; h["CELLSNUM"] = n;
 T* d = new T[n]; for (int i = 0; i < n; i++) d[i] = v[i]; STRING_MAP o; UpdateStrHeader(o, HEADER_RSOUT_DATATYPE, type); return new clsRasterData<T>(d, n, 1, nd, 1, 0.5, 0.5, o); }
'''
TB = ' { GDALAllRegister(); '
seed('c11-one', 'C11', [(R, '''                values_uint16[i] = static_cast<vuint16_t>(values[i]);
            }
            if (illegal_count > 0) convert_permit = false;''', '''                values_uint16[i] = static_cast<vuint16_t>(values[i]);
            }
            if (illegal_count > 1) convert_permit = false;''')],
     'exactly one cell that does not fit 16 unsigned bits', 'it is written as another number instead of refusing',
     TH + 'int main()' + TB + '''clsRasterData<int>* r = grid<int>(3, {1, 70000, 3}, -9, "UINT16"); EXPECT(!r->OutputToFile("./a.tif")); delete r; return fails; }
''', **TF)
seed('c11-wide', 'C11', [(R, '''values_int64[i] = static_cast<vint64_t>(values[i]);''', '''values_int64[i] = static_cast<vint64_t>(static_cast<float>(values[i]));''')],
     '64-bit output of a value of more than 24 significant bits', 'its last digits are lost',
     TH + 'int main()' + TB + '''clsRasterData<double>* r = grid<double>(2, {1, 123456789}, -9, "INT64"); EXPECT(r->OutputToFile("./a.tif")); delete r;
 clsRasterData<double>* b = clsRasterData<double>::Init("./a.tif", false); EXPECT(b && b->GetValue(0, 1) == 123456789); delete b; return fails; }
''', **TF)
seed('c11-u16', 'C11', [(R, '''        result = po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, uint16_data,
                                   n_cols, n_rows, GDT_UInt16, 0, 0);''', '''        result = po_band->RasterIO(GF_Read, 0, 0, n_cols, n_rows, uint16_data,
                                   n_cols, n_rows, GDT_Int16, 0, 0);''')],
     'a value from 32768 on in a file of unsigned 16-bit cells', 'it is read as 32767',
     TH + 'int main()' + TB + '''clsRasterData<int>* r = grid<int>(3, {1, 40000, 3}, 9, "UINT16"); EXPECT(r->OutputToFile("./a.tif")); delete r;
 clsRasterData<int>* b = clsRasterData<int>::Init("./a.tif", false); EXPECT(b && b->GetValue(0, 1) == 40000); delete b; return fails; }
''', **TF)
seed('c11-blank', 'C11', [(R, '''                    values_int16[i] = INT16_MIN;''', '''                    values_int16[i] = INT16_MIN + 1;''')],
     '16-bit output of a raster with nodata cells whose nodata value does not fit', 'nodata cells become values',
     TH + 'int main()' + TB + '''clsRasterData<int>* r = grid<int>(3, {1, -99999, 3}, -99999, "INT16"); EXPECT(r->OutputToFile("./a.tif")); delete r;
 clsRasterData<int>* b = clsRasterData<int>::Init("./a.tif", false); EXPECT(b && b->IsNoData(0, 1) && !b->IsNoData(0, 0)); delete b; return fails; }
''', **TF)
seed('c11-yll', 'C11', [(R, '''geo_trans[3] + (n_rows - 0.5) * geo_trans[5]''', '''geo_trans[3] + (n_rows - (n_rows > 1 && n_cols == 1 ? 1.5 : 0.5)) * geo_trans[5]''')],
     'a file of a single column and several rows', 'it is read one cell too far north',
     TH + 'int main()' + TB + '''STRDBL_MAP h; int* d = new int[2]; d[0] = 1; d[1] = 2; clsRasterData<int>* r = new clsRasterData<int>(d, 1, 2, -9, 1, 0.5, 0.5, STRING_MAP()); EXPECT(r->OutputToFile("./a.tif")); delete r;
 clsRasterData<int>* b = clsRasterData<int>::Init("./a.tif", false); EXPECT(b && b->GetYllCenter() == 0.5); delete b; return fails; }
''', **TF)
