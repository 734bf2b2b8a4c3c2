A = 'src/utils_array.h'
MH = RH + '''#include <fstream>
#include "utils_array.h"
#include "utils_math.h"
static void put(const char* n, const char* t) { std::ofstream f(n); f << t; }
'''
seed('c01-corner', 'C01', [(R, '''                if (synthesis_idx > n_cells_ - 1) {''', '''                if (synthesis_idx >= n_cells_ - 1) {''')],
     'a mask larger than the raster, valid extent, full storage, and a value in the last cell of the extent', 'the value of the south-eastern cell is lost',
     MH + '''int main() { put("a.asc", "NCOLS 2\\nNROWS 1\\nXLLCENTER 1\\nYLLCENTER 0\\nCELLSIZE 1\\nNODATA_VALUE -9\\n3 4\\n");
 clsRasterData<int>* m = flat<int>(1, 3, {1, 1, 1}, -9, 1, 0, 0); clsRasterData<int>* r = clsRasterData<int>::Init("a.asc", false, m, false);
 EXPECT(r && r->GetCols() == 2); if (r) { EXPECT(r->GetValue(0, 0) == 3); EXPECT(r->GetValue(0, 1) == 4); } delete r; delete m; return fails; }
''')
seed('c01-south', 'C01', [(R, '''        headers_.at(HEADER_RS_YLL) += (mask_rows - max_row - 1) * mask_->GetCellWidth();''', '''        if (min_row > 0 || min_col > 0 || new_cols < mask_cols) { headers_.at(HEADER_RS_YLL) += (mask_rows - max_row - 1) * mask_->GetCellWidth(); }''')],
     'a mask of the width of the raster whose southern rows have no value while its first row has', 'the result is placed too far south',
     MH + '''int main() { put("a.asc", "NCOLS 1\\nNROWS 2\\nXLLCENTER 0\\nYLLCENTER 1\\nCELLSIZE 1\\nNODATA_VALUE -9\\n3\\n4\\n");
 clsRasterData<int>* m = flat<int>(3, 1, {1, 1, 1}, -9, 1, 0, 0); clsRasterData<int>* r = clsRasterData<int>::Init("a.asc", false, m, false);
 EXPECT(r && r->GetRows() == 2); if (r) { EXPECT(r->GetYllCenter() == 1); EXPECT(r->GetValue(1, 0) == 4); } delete r; delete m; return fails; }
''')
seed('c09-gap', 'C09', [(R, '''                    if (index < n_cells_ && (position[index][0] == i && position[index][1] == j)) {''', '''                    if (index < n_cells_ - (lyr > 1) && (position[index][0] == i && position[index][1] == j)) {''')],
     'a compact raster of three layers', 'the last valid cell of the third layer is written as nodata',
     MH + '''int main() { clsRasterData<int>* r = lay<int>(1, 2, 3, {1, 2, 3, 4, 5, 6}, -9, 1, 0, 0); r->SetCalcPositions(); EXPECT(r->OutputToFile("./o.asc"));
 clsRasterData<int>* b = clsRasterData<int>::Init("o_2.asc"); EXPECT(b); if (b) { EXPECT(b->GetValue(0, 0) == 3); EXPECT(b->GetValue(0, 1) == 6); } delete b; delete r; return fails; }
''')
seed('c10-corner', 'C10', [(R, '''    if (yllcorner) { yll += 0.5 * cellsize; }''', '''    if (xllcorner) { yll += 0.5 * cellsize; }''')],
     'a header that mixes XLLCORNER with YLLCENTER', 'the southern edge is shifted by half a cell',
     MH + '''int main() { put("a.asc", "NCOLS 1\\nNROWS 1\\nXLLCORNER 10\\nYLLCENTER 20\\nCELLSIZE 2\\nNODATA_VALUE -9\\n3\\n"); clsRasterData<int>* r = clsRasterData<int>::Init("a.asc");
 EXPECT(r); if (r) { EXPECT(r->GetXllCenter() == 11); EXPECT(r->GetYllCenter() == 20); } delete r; return fails; }
''')
seed('c10-number', 'C10', [(R, '''                double tmpv = IsDouble(*it_value, str2value);
                if (!str2value) {''', '''                double tmpv = IsDouble(*it_value, str2value);
                if (!str2value && (cell_values.empty() || it_value == tokens.begin())) {''')],
     'a word among the values that is not the first of its line', 'a word among the values becomes a number instead of being refused',
     MH + '''int main() { put("a.asc", "NCOLS 2\\nNROWS 1\\nXLLCENTER 10\\nYLLCENTER 20\\nCELLSIZE 2\\nNODATA_VALUE -9\\n3 x\\n"); clsRasterData<int>* r = clsRasterData<int>::Init("a.asc"); EXPECT(!r); delete r; return fails; }
''')
seed('c22-remove', 'C22', [(A, '''    for (auto iter = vec.begin(); iter != vec.end();) {
        if (*iter == val) {
            iter = vec.erase(iter);
        } else {
            ++iter;
        }
    }''', '''    for (auto iter = vec.begin(); iter != vec.end(); ++iter) {
        if (*iter == val) {
            iter = vec.erase(iter);
            if (iter == vec.end()) { break; }
        }
    }''')],
     'the value twice in a row', 'the second of two adjacent occurrences stays',
     MH + '''int main() { std::vector<int> v; v.push_back(1); v.push_back(2); v.push_back(2); v.push_back(3); ccgl::utils_array::RemoveValueInVector(2, v); EXPECT(v.size() == 2); return fails; }
''')
seed('c22-source', 'C22', [(A, '''    if (nullptr == init_data) {
        cout << "The input parameter init_data MUST NOT be nullptr!" << endl;
        return false;
    }
    data = new(nothrow) T[row];''', '''    data = new(nothrow) T[row];
    if (nullptr == init_data) {
        cout << "The input parameter init_data MUST NOT be nullptr!" << endl;
        return false;
    }''')],
     'no source array', 'a refused array is left allocated and uninitialised, and leaks',
     MH + '''int main() { int* a = nullptr; int* s = nullptr; EXPECT(!ccgl::utils_array::Initialize1DArray(3, a, s)); EXPECT(a == nullptr); delete[] a; return fails; }
''')
seed('c23-min', 'C23', [('src/utils_math.h', '''        if (a[i] < m) {
            m = a[i];''', '''        if (a[i] < m) {
            m = i + 1 < n || a[i] > a[0] - a[i - 1] ? a[i] : m;''')],
     'the smallest value at the end of the array and not larger than the first minus the last but one', 'the minimum at the end of an array is missed',
     MH + '''int main() { int a[2] = {1, -5}; EXPECT(ccgl::utils_math::MinInArray(a, 2) == -5); int b[3] = {4, 2, 1}; EXPECT(ccgl::utils_math::MinInArray(b, 3) == 1); return fails; }
''')
seed('c23-index', 'C23', [('src/utils_math.h', '''        int j = idx[i];
        tmp += data[j];''', '''        int j = idx[i];
        if (i > 0 && j == idx[i - 1]) { continue; }
        tmp += data[j];''')],
     'the same index twice in a row', 'a repeated index is summed once',
     MH + '''int main() { int d[2] = {1, 5}; int i[3] = {1, 1, 0}; int* p = i; EXPECT(ccgl::utils_math::Sum(3, p, d) == 11); return fails; }
''')
seed('c25-assign', 'C25', [(A, '''    Array2D& operator = (const Array2D& rhs) {
        if (&rhs != this) {''', '''    Array2D& operator = (const Array2D& rhs) {
        if (&rhs != this && data_ptr && m_rows * m_cols == rhs.m_rows * rhs.m_cols) { // no need to allocate again
            std::copy(rhs.data_ptr[0], rhs.data_ptr[0] + m_rows * m_cols, data_ptr[0]);
            m_rows = rhs.m_rows;
            m_cols = rhs.m_cols;
        } else if (&rhs != this) {''')],
     'assigning an array with as many elements but another shape', 'the rows of the assigned array point to wrong places',
     MH + '''int main() { ccgl::utils_array::Array2D<int> a(1, 2, 1), b(2, 1, 5); b[1][0] = 6; { ccgl::utils_array::Array2D<int> c(1, 4, 0), d(4, 1, 7); } a = b; EXPECT(a.get_rows() == 2 && a.get_cols() == 1 && a[0][0] == 5); EXPECT(a[1][0] == 6); return fails; }
''')
seed('c27-nodata', 'C27', [(R, '''        raster_2d_[cellidx][lyr] = FloatEqual(tmpvalue, tmpnodata) ? no_data_value_ : tmpvalue;''', '''        raster_2d_[cellidx][lyr] = lyr < 2 && FloatEqual(tmpvalue, tmpnodata) ? no_data_value_ : tmpvalue;''')],
     'a third file with another nodata value than the first', 'nodata cells of the third layer become values',
     MH + '''int main() { put("a_1.asc", "NCOLS 1\\nNROWS 1\\nXLLCENTER 0\\nYLLCENTER 0\\nCELLSIZE 1\\nNODATA_VALUE -9\\n3\\n"); put("a_2.asc", "NCOLS 1\\nNROWS 1\\nXLLCENTER 0\\nYLLCENTER 0\\nCELLSIZE 1\\nNODATA_VALUE -8\\n-8\\n"); put("a_3.asc", "NCOLS 1\\nNROWS 1\\nXLLCENTER 0\\nYLLCENTER 0\\nCELLSIZE 1\\nNODATA_VALUE -7\\n-7\\n");
 std::vector<std::string> f; f.push_back("a_1.asc"); f.push_back("a_2.asc"); f.push_back("a_3.asc"); clsRasterData<int>* r = clsRasterData<int>::Init(f); EXPECT(r); if (r) { EXPECT(r->IsNoData(0, 0, 2)); EXPECT(r->IsNoData(0, 0, 3)); } delete r; return fails; }
''')
