# Planted bugs in the database parts (C31, C33); demonstrations use the stand-in of the driver and the real libbson
MF = dict(flags='-DUSE_MONGODB -I/usr/include/libmongoc-1.0 -I/usr/include/libbson-1.0 -I"$d"', libs='src/db_mongoc.cpp "$d/mongoc.cpp" -lbson-1.0',
          extra={'mongoc.cpp': open(os.path.join(V, 'model/mongo/mongoc.cpp')).read(), 'sxmongo.h': open(os.path.join(V, 'model/mongo/sxmongo.h')).read(), 'sxapi.h': '#pragma once\n#include <cstdio>\n#include <cstdlib>\nstatic inline void sx_fail(const char* m) { puts(m); abort(); }\n'})
M = 'src/db_mongoc.cpp'; MHH = 'src/db_mongoc.h'
MB = '''#include "db_mongoc.h"
#include "sxmongo.h"
using namespace ccgl; using namespace ccgl::db_mongoc;
int main() { bson_t b = BSON_INITIALIZER; '''
MR = RH + '''#include "sxmongo.h"
int main() { mongo_reset(); MongoClient* c = MongoClient::Init("127.0.0.1", 27017); MongoGridFs* g = c->GridFs("db", "S"); '''
seed('c33-wide', 'C33', [(MHH, 'numericvalue = static_cast<T>(vv->value.v_int64);', 'numericvalue = static_cast<T>(static_cast<vint32_t>(vv->value.v_int64));')],
     'a 64-bit integer beyond 32 bits', 'it is read as another number',
     MB + '''bson_append_int64(&b, "k", -1, 5000000000ll); double x = 0; EXPECT(GetNumericFromBson(&b, "k", x) && x == 5e9); return fails; }
''', **MF)
seed('c33-frac', 'C33', [(M, '                BSON_APPEND_DOUBLE(bson_opts, meta_field.c_str(), dbl_value);', '                BSON_APPEND_DOUBLE(bson_opts, meta_field.c_str(), CVT_FLT(dbl_value));')],
     'an option of a number that single precision can not hold', 'it is read back as another number',
     MB + '''STRING_MAP o; o["A"] = "0.1"; AppendStringOptionsToBson(&b, o); double x = 0; EXPECT(GetNumericFromBson(&b, "A", x) && x == 0.1); return fails; }
''', **MF)
seed('c33-short', 'C33', [(M, 'tmp_time_str.size() > 12', 'tmp_time_str.size() > 18')],
     'a time written without leading zeros', 'the time of day is lost',
     MB + '''bson_append_utf8(&b, "k", -1, "2010-1-2 3:4:5", -1); EXPECT(GetDatetimeFromBson(&b, "k") == 1262401445); return fails; }
''', **MF)
seed('c33-true', 'C33', [(M, 'return StringMatch(tmp.c_str(), "TRUE");', 'return StringMatch(tmp.substr(0, 4), "TRUE");')],
     'a text that merely begins with true', 'it counts as true',
     MB + '''bson_append_utf8(&b, "k", -1, "truely", -1); EXPECT(!GetBoolFromBson(&b, "k")); return fails; }
''', **MF)
seed('c31-row', 'C31', [(R, '''                int rowcol_index = pos[idx][0] * n_cols + pos[idx][1];
                for (int k = 0; k < n_lyrs_; k++) {
                    data_1d[''', '''                int rowcol_index = pos[idx][0] * n_rows + pos[idx][1];
                for (int k = 0; k < n_lyrs_; k++) {
                    data_1d[''')],
     'a layered raster that keeps its valid cells only, of more rows than one and not square', 'cells are stored at other places',
     MR + '''clsRasterData<int>* r = lay<int>(2, 3, 2, {1, 2, 3, 4, -9, -9, 5, 6, 7, 8, -9, -9}, -9); r->SetCalcPositions(); EXPECT(r->OutputToMongoDB(g, "r")); delete r;
 r = clsRasterData<int>::Init(g, "r"); EXPECT(r && r->GetValue(1, 0, 1) == 5 && r->IsNoData(0, 2)); delete r; return fails; }
''', **MF)
seed('c31-short', 'C31', [(R, '''        vint16_t* data_int16 = reinterpret_cast<vint16_t*>(buf);
        Initialize1DArray(value_count, data, data_int16);''', '''        vuint16_t* data_int16 = reinterpret_cast<vuint16_t*>(buf);
        Initialize1DArray(value_count, data, data_int16);''')],
     'a negative value stored with 16 bits and read into a wider type', 'it is read as a large number',
     MR + '''clsRasterData<short>* r = flat<short>(1, 2, {1, -7}, -9); EXPECT(r->OutputToMongoDB(g, "r")); delete r;
 clsRasterData<int>* q = clsRasterData<int>::Init(g, "r"); EXPECT(q && q->GetValue(0, 1) == -7); delete q; return fails; }
''', **MF)
seed('c31-blank', 'C31', [(R, '''            datalength = n_fullsize;
            Initialize1DArray(datalength, data_1d, no_data_value);''', '''            datalength = n_fullsize;
            Initialize1DArray(datalength, data_1d, static_cast<T>(DefaultNoDataByType(rs_type_)));''')],
     'a raster that keeps its valid cells only and has a nodata value of its own', 'its nodata cells are read back as values',
     MR + '''clsRasterData<int>* r = flat<int>(1, 3, {1, -5, 3}, -5); r->SetCalcPositions(); EXPECT(r->OutputToMongoDB(g, "r")); delete r;
 clsRasterData<int>* q = clsRasterData<int>::Init(g, "r"); EXPECT(q && q->IsNoData(0, 1)); delete q; return fails; }
''', **MF)
seed('c31-subset', 'C31', [('src/data_raster.cpp', 'else { data2d_[i][j] = dbdata[i * n_lyrs + j]; }', 'else { data2d_[i][j] = dbdata[j * n_cells + i]; }')],
     'values of two layers stored for the valid cells of a subset with gaps', 'they are given to other cells and layers',
     MR + '''clsRasterData<int>* r = flat<int>(1, 3, {1, 2, 1}, -9); r->BuildSubSet(); SubsetPositions* p = r->GetSubset().at(1); int a[] = {11, 12, 21, 22}; int* rows[] = {a, a + 2}; EXPECT(p->Set2DData(2, 2, rows)); SubsetPositions* o = r->GetSubset().at(2); EXPECT(o->Set2DData(1, 2, rows));
 EXPECT(r->OutputSubsetToMongoDB(g, "r", STRING_MAP(), false, false, false)); STRING_MAP f; f[HEADER_INC_NODATA] = "FALSE"; EXPECT(p->ReadFromMongoDB(g, "1_r", f) && p->data2d_[0][1] == 12 && p->data2d_[1][0] == 21); delete r; return fails; }
''', **MF)
seed('c31-retype', 'C31', [(R, '''    if (curopts.find(HEADER_RSOUT_DATATYPE) == curopts.end()) {
        UpdateStringMap(curopts, HEADER_RSOUT_DATATYPE, RasterDataTypeToString(temp_type));
    }''', '''    if (curopts.find(HEADER_RSOUT_DATATYPE) == curopts.end() || (temp_type == RDT_Double && datalength == 1)) {
        UpdateStringMap(curopts, HEADER_RSOUT_DATATYPE, RasterDataTypeToString(RDT_Float));
    }''')],
     'a single double that single precision can not hold', 'it is stored with single precision',
     MR + '''clsRasterData<double>* r = flat<double>(1, 1, {16777217.}, -9); EXPECT(r->OutputToMongoDB(g, "r")); delete r;
 clsRasterData<double>* q = clsRasterData<double>::Init(g, "r"); EXPECT(q && q->GetValue(0, 0) == 16777217.); delete q; return fails; }
''', **MF)
