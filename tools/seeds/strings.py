US = 'src/utils_string.cpp'
seed('c13-wide64', 'C13', [(US, 'swprintf(buffer, size - 1, L"%ld", value);', 'swprintf(buffer, size - 1, L"%d", static_cast<int>(value));')],
     'a wide 64-bit integer beyond 32 bits', 'wide text of 64-bit integers loses the upper half',
     '''#include "utils_string.h"
using namespace ccgl::utils_string;
int main() { bool ok = false; long long v = 5000000001LL; EXPECT(i64tow(v) == L"5000000001"); EXPECT(IsInt64(std::wstring(L"5000000001"), ok) == v && ok); return fails; }
''')
seed('c13-plus', 'C13', [(US, '''    vuint64_t result = _strtoui64(num_str.c_str(), &endptr, 10);
    success = endptr == num_str.c_str() + num_str.length() && u64toa(result) == num_str;''',
'''    vuint64_t result = _strtoui64(num_str.c_str(), &endptr, 10);
    success = endptr == num_str.c_str() + num_str.length() && u64toa(result).length() == num_str.length();''')],
     'a digit text one too large for 64 bits (it saturates to a number of the same length)', 'an overflowing text is accepted as a number with another value',
     '''#include "utils_string.h"
using namespace ccgl::utils_string;
int main() { bool ok = true; IsUInt64(std::string("18446744073709551616"), ok); EXPECT(!ok); IsUInt64(std::string("18446744073709551615"), ok); EXPECT(ok); return fails; }
''')
seed('c14-tabtrim', 'C14', [(US, '''return s.erase(s.find_last_not_of(" \\n\\r\\t") + 1);''', '''return s.erase(s.find_last_not_of(" \\n\\t") + 1);''')],
     'a text that ends with a carriage return', 'Trim leaves the carriage return of a Windows line in place',
     '''#include "utils_string.h"
using namespace ccgl::utils_string;
int main() { std::string s = " 12 7\\r", t = "a\\t \\n"; EXPECT(Trim(s) == "12 7"); EXPECT(Trim(t) == "a"); return fails; }
''')
seed('c14-emptyfields', 'C14', [(US, '''    while (getline(iss, field, delimiter)) {
        tokens.emplace_back(field);''', '''    while (getline(iss, field, delimiter)) {
        if (field.empty() && iss.peek() == delimiter) continue;
        tokens.emplace_back(field);''')],
     'two empty fields in a row', 'splitting drops an empty field that is followed by another one',
     '''#include "utils_string.h"
using namespace ccgl::utils_string;
int main() { std::vector<std::string> t = SplitString("a,,,b", ','); EXPECT(t.size() == 4 && t[0] == "a" && t[1] == "" && t[2] == "" && t[3] == "b"); t = SplitString("a,,b", ','); EXPECT(t.size() == 3); return fails; }
''')
seed('c15-zed', 'C15', [(US, 'str_tmp1[j] = CVT_CHAR(toupper(str_tmp1[j]));', '''if (str_tmp1[j] >= 'a') str_tmp1[j] = CVT_CHAR(str_tmp1[j] & ~0x20);''')],
     'a brace, bar or tilde in the text', 'characters after z are folded as if they were letters, so "{" matches "["',
     '''#include "utils_string.h"
using namespace ccgl::utils_string;
int main() { EXPECT(GetUpper("a{b}z") == "A{B}Z"); EXPECT(!StringMatch(std::string("{"), std::string("["))); EXPECT(StringMatch(std::string("aZ"), std::string("Az"))); return fails; }
''')
seed('c16-emptyvalue', 'C16', [(US, '''        if (out_opts.find(it->first) != out_opts.end()) {
            out_opts[it->first] = it->second;''', '''        if (out_opts.find(it->first) != out_opts.end()) {
            if (!it->second.empty()) out_opts[it->first] = it->second;''')],
     'merging an option whose value is the empty text over an existing one', 'the old value survives although the source sets the key to an empty text',
     '''#include "utils_string.h"
using namespace ccgl; using namespace ccgl::utils_string;
int main() { STRING_MAP a, b; a["k"] = ""; b["k"] = "old"; b["o"] = "x"; CopyStringMap(a, b); EXPECT(b["k"] == ""); EXPECT(b["o"] == "x" && b.size() == 2); return fails; }
''')
seed('c16-header0', 'C16', [('src/data_raster.hpp', '    else { header.at(key) = CVT_DBL(val); }', '    else if (CVT_DBL(val) != 0. || header.at(key) == NODATA_VALUE) { header.at(key) = CVT_DBL(val); }')],
     'setting a header entry that already has a value to zero', 'a corner coordinate or nodata value of zero does not replace an earlier one',
     '''#include "data_raster.hpp"
using namespace ccgl; using namespace ccgl::data_raster;
int main() { STRDBL_MAP h = InitialHeader(); UpdateHeader(h, HEADER_RS_XLL, 12.5); UpdateHeader(h, HEADER_RS_XLL, 0); EXPECT(h.at(HEADER_RS_XLL) == 0.); return fails; }
''')
seed('c18-last', 'C18', [('src/basic.cpp', 'tmp1 > 255 || tmp2 > 255 || tmp3 > 255 || tmp4 > 255', 'tmp1 > 255 || tmp2 > 255 || tmp4 > 255 || (tmp3 > 255 && tmp4 != 0)')],
     'a third group beyond 255 and a last group of zero', 'an address such as 10.0.300.0 is accepted',
     '''#include "basic.h"
using namespace ccgl;
int main() { EXPECT(!IsIpAddress("10.0.300.0")); EXPECT(IsIpAddress("10.0.255.255")); return fails; }
''')
seed('c30-case', 'C30', [('src/data_raster.cpp', 'if (StringMatch(stype, "FLOAT") || StringMatch(stype, "GDT_Float32"))', 'if (StringMatch(stype, "FLOAT") || stype == "GDT_Float32")')],
     'the GDAL name of the float type in another letter case', 'GDT_FLOAT32 is an unknown type',
     '''#include "data_raster.hpp"
using namespace ccgl; using namespace ccgl::data_raster;
int main() { EXPECT(StringToRasterDataType("gdt_float32") == RDT_Float); EXPECT(StringToRasterDataType("GDT_Float32") == RDT_Float); return fails; }
''')
