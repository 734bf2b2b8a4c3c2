// Option and header maps (C16); raster type names and default nodata values (C30).
#include "sxapi.h"
#include "data_raster.hpp"
using namespace ccgl;
using namespace ccgl::utils_string;
using namespace ccgl::data_raster;
typedef std::vector<std::pair<std::string, std::string> > Assoc;
static void refSet(Assoc& a, const std::string& k, const std::string& v) {
    for (size_t i = 0; i < a.size(); i++) if (a[i].first == k) { a[i].second = v; return; }
    a.push_back(std::make_pair(k, v));
}
static bool sameS(const STRING_MAP& m, const Assoc& a) {
    if (m.size() != a.size()) return false;
    for (size_t i = 0; i < a.size(); i++) { STRING_MAP::const_iterator it = m.find(a[i].first); if (it == m.end() || it->second != a[i].second) return false; }
    return true;
}
static std::string key(const char* n) { std::string s = sx_string(n, sx_pick("klen", 0, 2)); return s; }

//@unit C16 c16_setstr time=60/300 N=3/5 | every sequence of up to N settings (UpdateStringMap or UpdateStrHeader) of keys of 0 to 2 arbitrary bytes to values of 0 or 1 byte: the map equals the list of last values
extern "C" void c16_setstr() {
    int n = sx_pick("n", 1, (int)sx_param("N"));
    STRING_MAP m; Assoc a;
    bool hdr = sx_flag("hdr");
    for (int i = 0; i < n; i++) {
        std::string k = i < 2 ? key("k") : sx_string("k", 1), v = sx_string("v", sx_pick("vlen", 0, 1));
        if (hdr) UpdateStrHeader(m, k, v); else UpdateStringMap(m, k, v);
        refSet(a, k, v);
    }
    sx_check("map", sameS(m, a));
    if ((int)a.size() < n) sx_reach("key set again"); else sx_reach("distinct keys");
}
//@unit C16 c16_merge time=60/300 N=3/4 | every pair of option maps with up to N entries each (keys of 1 byte, plus the empty key; values of 0 or 1 byte): CopyStringMap makes every key of the source hold its value and keeps the others; the source is unchanged
extern "C" void c16_merge() {
    int n = sx_pick("n", 0, (int)sx_param("N")), k = sx_pick("k", 0, (int)sx_param("N"));
    STRING_MAP src, dst; Assoc s, d;
    for (int i = 0; i < n; i++) { std::string kk = i ? sx_string("k", 1) : "", v = sx_string("v", i == 2 ? 1 : sx_pick("vlen", 0, 1)); src[kk] = v; refSet(s, kk, v); }
    for (int i = 0; i < k; i++) { std::string kk = i == 1 ? "" : sx_string("k", 1), v = sx_string("v", 1); dst[kk] = v; refSet(d, kk, v); }
    CopyStringMap(src, dst);
    for (size_t i = 0; i < s.size(); i++) refSet(d, s[i].first, s[i].second);
    sx_check("merged", sameS(dst, d));
    sx_check("source kept", sameS(src, s));
    if (n && k) sx_reach("both"); else sx_reach("one empty");
}
//@unit C16 c16_selfmerge time=20/60 | merging an option map of up to 3 entries into itself leaves it alone
extern "C" void c16_selfmerge() {
    int n = sx_pick("n", 0, 3);
    STRING_MAP m; Assoc a;
    for (int i = 0; i < n; i++) { std::string kk = sx_string("k", 1), v = sx_string("v", 1); m[kk] = v; refSet(a, kk, v); }
    CopyStringMap(m, m);
    sx_check("same", sameS(m, a));
    sx_reach("end");
}
//@unit C16 c16_header time=60/300 N=2/3 | every sequence of up to N header settings (symbolic 1-byte keys, or two of the raster header names; values int, float or double, integers to 2^24) followed by a CopyHeader into another symbolic header of up to N entries
extern "C" void c16_header() {
    int n = sx_pick("n", 0, (int)sx_param("N")), k = sx_pick("k", 0, 2);
    STRDBL_MAP src, dst;
    std::vector<std::pair<std::string, double> > s, d;
    static const char* names[4] = {HEADER_RS_NCOLS, HEADER_RS_NODATA, HEADER_RS_XLL, HEADER_RS_CELLSNUM};
    for (int i = 0; i < n; i++) {
        int nm = sx_pick("name", 0, 2);
        std::string kk = nm < 2 ? std::string(names[nm]) : sx_string("k", 1);
        double v;
        int ty = sx_pick("type", 0, 2);
        if (ty == 0) { int x = (int)sx_bits("i", 32); v = x; UpdateHeader(src, kk, x); }
        else if (ty == 1) { float x = (float)sx_ifp("f", -10000000, 10000000); v = x; UpdateHeader(src, kk, x); }
        else { v = sx_ifp("d", -10000000, 10000000); UpdateHeader(src, kk, v); }
        bool f = false;
        for (size_t j = 0; j < s.size(); j++) if (s[j].first == kk) { s[j].second = v; f = true; }
        if (!f) s.push_back(std::make_pair(kk, v));
    }
    sx_check("size", src.size() == s.size());
    for (size_t j = 0; j < s.size(); j++) sx_check("set", src.count(s[j].first) == 1 && src.at(s[j].first) == s[j].second);
    for (int i = 0; i < k; i++) { std::string kk = sx_string("k", 1); double v = 7 + i; dst[kk] = v; bool f = false; for (size_t j = 0; j < d.size(); j++) if (d[j].first == kk) { d[j].second = v; f = true; } if (!f) d.push_back(std::make_pair(kk, v)); }
    CopyHeader(src, dst);
    for (size_t i = 0; i < s.size(); i++) { bool f = false; for (size_t j = 0; j < d.size(); j++) if (d[j].first == s[i].first) { d[j].second = s[i].second; f = true; } if (!f) d.push_back(s[i]); }
    sx_check("copied size", dst.size() == d.size());
    for (size_t j = 0; j < d.size(); j++) sx_check("copied", dst.count(d[j].first) == 1 && dst.at(d[j].first) == d[j].second);
    sx_reach("end");
}
//@unit C16 c16_initial time=20/60 | the initial header holds exactly its eight names, the initial options their five, the initial statistics theirs; the requested output type is found in every option map whose entry names a type
extern "C" void c16_initial() {
    STRDBL_MAP h = InitialHeader();
    static const char* names[8] = {HEADER_RS_NCOLS, HEADER_RS_NROWS, HEADER_RS_XLL, HEADER_RS_YLL, HEADER_RS_CELLSIZE, HEADER_RS_NODATA, HEADER_RS_LAYERS, HEADER_RS_CELLSNUM};
    sx_check("header size", h.size() == 8);
    for (int i = 0; i < 8; i++) sx_check("header", h.count(names[i]) == 1 && h.at(names[i]) == NODATA_VALUE);
    STRING_MAP o = InitialStrHeader();
    static const char* on[5] = {HEADER_RS_SRS, HEADER_RS_DATATYPE, HEADER_RSOUT_DATATYPE, HEADER_INC_NODATA, HEADER_MASK_NAME};
    sx_check("options size", o.size() == 5);
    for (int i = 0; i < 5; i++) sx_check("options", o.count(on[i]) == 1 && o.at(on[i]).empty());
    int t = sx_pick("type", 0, 10);
    sx_check("type in options", RasterDataTypeInOptionals(o) == RDT_Unknown);
    UpdateStringMap(o, HEADER_RSOUT_DATATYPE, RasterDataTypeToString(t));
    sx_check("type in options", RasterDataTypeInOptionals(o) == t);
    STRING_MAP e;
    sx_check("no type", RasterDataTypeInOptionals(e) == RDT_Unknown);
    sx_reach("end");
}

// ------------------------------------------------------------------------------------------------- C30
//@unit C30 c30_roundtrip time=30/100 | every 32-bit type code: the name of each of the ten types, in every letter case, names that type again, and every other code has a name that is unknown
extern "C" void c30_roundtrip() {
    int t = (int)sx_bits("type", 32);
    if (t >= 1 && t <= 10) {
        t = (int)sx_fork(t);
        std::string s = RasterDataTypeToString(t), v = s;
        for (size_t i = 0; i < s.size(); i++) { bool lo = sx_bits("lower", 1) & (v[i] >= 'A') & (v[i] <= 'Z'); v[i] = lo ? v[i] + 32 : v[i]; }
        sx_check("name-and-back", StringToRasterDataType(s) == (RasterDataType)t);
        sx_check("any-case", StringToRasterDataType(v) == (RasterDataType)t);
        sx_reach("type");
    } else {
        sx_check("other-code", StringToRasterDataType(RasterDataTypeToString(t)) == RDT_Unknown);
        sx_reach("other");
    }
}
static const char* kNames[] = {"UCHAR", "UINT8", "GDT_BYTE", "CHAR", "INT8", "GDT_INT8", "UINT16", "GDT_UINT16", "INT16", "GDT_INT16", "UINT32", "GDT_UINT32", "INT32", "GDT_INT32",
                               "UINT64", "GDT_UINT64", "INT64", "GDT_INT64", "FLOAT", "GDT_FLOAT32", "DOUBLE", "GDT_FLOAT64"};
static const int kTypes[] = {RDT_UInt8, RDT_UInt8, RDT_UInt8, RDT_Int8, RDT_Int8, RDT_Int8, RDT_UInt16, RDT_UInt16, RDT_Int16, RDT_Int16, RDT_UInt32, RDT_UInt32, RDT_Int32, RDT_Int32,
                             RDT_UInt64, RDT_UInt64, RDT_Int64, RDT_Int64, RDT_Float, RDT_Float, RDT_Double, RDT_Double};
static char upc(char c) { return (c >= 'a') & (c <= 'z') ? (char)(c - 32) : c; }
//@unit C30 c30_names time=60/300 N=12/14 | every text of up to N arbitrary non-NUL bytes: it names a type exactly when it is one of the 22 documented names in any letter case, and then that type
extern "C" void c30_names() {
    int n = sx_pick("len", 0, (int)sx_param("N"));
    std::string s = sx_string("c", n);
    int want = RDT_Unknown;
    for (int k = 0; k < 22; k++) {
        std::string w = kNames[k];
        if ((int)w.size() != n) continue;
        bool eq = true;
        for (int i = 0; i < n; i++) eq &= upc(s[i]) == w[i];
        want = eq ? kTypes[k] : want;
    }
    sx_check("names", (int)StringToRasterDataType(s) == want);
    if (want == RDT_Unknown) sx_reach("unknown"); else sx_reach("known");
}
template <typename T> static void typed(RasterDataType t) {
    sx_check("type-of", TypeToRasterDataType(typeid(T)) == t);
    double d = DefaultNoDataByType(t);
    T v = static_cast<T>(d);
    sx_check("representable", static_cast<double>(v) == d);
}
//@unit C30 c30_nodata time=20/60 | every cell type of at most 32 bits or floating point, and the 64-bit signed one: its C++ type maps to it and its default nodata value is representable in it; unknown codes get the general nodata value
extern "C" void c30_nodata() {
    switch (sx_pick("type", 1, 9)) {
        case 1: typed<unsigned char>(RDT_UInt8); typed<vuint8_t>(RDT_UInt8); break;
        case 2: typed<vint8_t>(RDT_Int8); sx_check("type-of", TypeToRasterDataType(typeid(char)) == RDT_Int8); break;
        case 3: typed<vuint16_t>(RDT_UInt16); break;
        case 4: typed<vint16_t>(RDT_Int16); break;
        case 5: typed<vuint32_t>(RDT_UInt32); break;
        case 6: typed<vint32_t>(RDT_Int32); break;
        case 7: typed<vint64_t>(RDT_Int64); break;
        case 8: typed<float>(RDT_Float); break;
        case 9: typed<double>(RDT_Double); break;
    }
    int t = (int)sx_bits("code", 32);
    if (t < 1 || t > 10) { sx_check("unknown", DefaultNoDataByType((RasterDataType)t) == NODATA_VALUE); sx_reach("unknown"); }
    sx_check("type-of other", TypeToRasterDataType(typeid(long double)) == RDT_Unknown && TypeToRasterDataType(typeid(bool)) == RDT_Unknown);
    sx_reach("end");
}
//@unit C30 c30_nodata_u64 time=20/60 | the 64-bit unsigned type: its default nodata value is representable in it
extern "C" void c30_nodata_u64() {
    double d = DefaultNoDataByType(RDT_UInt64);
    sx_check("type-of", TypeToRasterDataType(typeid(vuint64_t)) == RDT_UInt64);
    sx_check("representable.uint64", d >= 0 && d < 18446744073709551616.0);
    sx_reach("end");
}
