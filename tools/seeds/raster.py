R = 'src/data_raster.hpp'
RH = '''#include "data_raster.hpp"
using namespace ccgl; using namespace ccgl::data_raster;
template <typename T> static clsRasterData<T>* flat(int R, int C, const std::vector<T>& v, T nd, double dx = 2, double x = 100, double y = -40) {
    T* a = new T[R * C]; for (int i = 0; i < R * C; i++) a[i] = v[i];
    return new clsRasterData<T>(a, C, R, nd, dx, x, y);
}
template <typename T> static clsRasterData<T>* lay(int R, int C, int L, const std::vector<T>& v, T nd, double dx = 2, double x = 100, double y = -40) {
    T** a = new T*[R * C]; a[0] = new T[R * C * L]; for (int i = 1; i < R * C; i++) a[i] = a[0] + i * L; for (int i = 0; i < R * C * L; i++) a[0][i] = v[i];
    return new clsRasterData<T>(a, C, R, L, nd, dx, x, y);
}
'''
seed('c02-search', 'C02', [(R, '''    int right = n_cells_ - 1; // assumes pos_idx belongs to pos_idx_[left, right]
''', '''    int right = n_cells_ - 1; // assumes pos_idx belongs to pos_idx_[left, right]
    if (pos_idx < pos_idx_[left] && left == right) { return -2; }
''')],
     'compact storage, a single valid cell and a nodata cell before it', 'nodata cells before the only valid one are reported as outside',
     RH + '''int main() { clsRasterData<int>* r = flat<int>(1, 3, {-9, 2, -9}, -9); r->SetCalcPositions(); EXPECT(r->GetPosition(0, 0) == -1); EXPECT(r->GetPosition(0, 3) == -2); EXPECT(r->GetPosition(0, 1) == 0); delete r; return fails; }
''')
seed('c02-layer', 'C02', [(R, '''        if (lyr <= 0 || lyr > n_lyrs_) {''', '''        if (lyr < 0 || lyr > n_lyrs_ || (lyr == 0 && is_2draster)) {'''), (R, '''    if (is_2draster) { return raster_2d_[row * GetCols() + col][lyr - 1]; }
    return raster_[row * GetCols() + col];''', '''    if (is_2draster) { return raster_2d_[row * GetCols() + col][lyr - 1]; }
    return raster_[(row + lyr - 1) * GetCols() + col];''')],
     'layer 0 of a single-layer raster', 'the value of the row above, or memory before the raster, is returned for a layer that does not exist',
     RH + '''int main() { clsRasterData<int>* r = flat<int>(2, 1, {1, 2}, -9); EXPECT(r->GetValue(1, 0, 0) == -9); EXPECT(r->GetValue(1, 0) == 2); delete r; return fails; }
''')
seed('c02-all', 'C02', [(R, '''        if (valid_cell_index == -1) {
            for (int i = 0; i < n_lyrs_; i++) {''', '''        if (valid_cell_index == -1) {
            for (int i = 0; i < n_lyrs_ - (n_lyrs_ > 1 && row == 0); i++) {''')],
     'all layers of a nodata cell in the first row asked for at once, with an array that is reused', 'the last layer keeps what the caller had there before',
     RH + '''int main() { clsRasterData<int>* r = lay<int>(1, 2, 2, {-9, -9, 3, 4}, -9); r->SetCalcPositions(); int* a = nullptr; r->GetValue(0, 1, a); EXPECT(a[0] == 3 && a[1] == 4); r->GetValue(0, 0, a); EXPECT(a[0] == -9 && a[1] == -9); delete[] a; delete r; return fails; }
''')
seed('c03-columns', 'C03', [(R, '''        pos_data_[i][0] = pos_rows.at(i);
        pos_data_[i][1] = pos_cols.at(i);
        pos_idx_[i] = pos_rows.at(i) * ncols + pos_cols.at(i);''', '''        pos_data_[i][0] = pos_rows.at(i);
        pos_data_[i][1] = pos_cols.at(i);
        pos_idx_[i] = pos_rows.at(i) * ncols + pos_cols.at(i) - (pos_rows.at(0) > 0 && pos_rows.at(i) > pos_rows.at(0) ? ncols : 0);''')],
     'a first row without any valid cell and two rows with some', 'the index list does not fit the grid',
     RH + '''int main() { clsRasterData<int>* r = flat<int>(3, 1, {-9, 2, 3}, -9); r->SetCalcPositions(); EXPECT(r->GetValue(1, 0) == 2); EXPECT(r->GetValue(2, 0) == 3); delete r; return fails; }
''')
seed('c03-layers', 'C03', [(R, '''                    raster_2d_[i][lyr] = values_2d[i][lyr - 1];''', '''                    raster_2d_[i][lyr] = values_2d[i][n_cells_ > 1 ? lyr - 1 : 0];''')],
     'three layers and a single valid cell', 'the third layer takes over the value of the second',
     RH + '''int main() { clsRasterData<int>* r = lay<int>(1, 2, 3, {5, 6, 7, -9, -9, -9}, -9); r->SetCalcPositions(); EXPECT(r->GetValue(0, 0, 3) == 7); EXPECT(r->GetValue(0, 0, 2) == 6); delete r; return fails; }
''')
seed('c06-chain', 'C06', [(R, '''                raster_2d_[i][lyr] = recls.at(curv);
            } else''', '''                T newv = recls.at(curv);
                if (lyr > 0 && recls.count(CVT_INT(newv)) > 0) { newv = recls.at(CVT_INT(newv)); }
                raster_2d_[i][lyr] = newv;
            } else''')],
     'a further layer and a mapped value that is itself in the table', 'values of further layers are mapped twice',
     RH + '''int main() { clsRasterData<int>* r = lay<int>(1, 1, 2, {1, 1}, -9); std::map<int, int> m; m[1] = 2; m[2] = 3; r->Reclassify(m); EXPECT(r->GetValue(0, 0, 1) == 2); EXPECT(r->GetValue(0, 0, 2) == 2); delete r; return fails; }
''')
seed('c06-byte', 'C06', [(R, '''            T curv = is_2draster && nullptr != raster_2d_
                         ? CVT_INT(raster_2d_[i][lyr])
                         : CVT_INT(raster_[i]);''', '''            signed char curb = is_2draster && nullptr != raster_2d_ ? raster_2d_[i][lyr] : raster_[i];
            int curv = is_2draster && nullptr != raster_2d_
                         ? CVT_INT(raster_2d_[i][lyr])
                         : CVT_INT(raster_[i]);
            if (sizeof(T) == 1) { curv = curb; }''')],
     'a byte raster with values above 127', 'values above 127 are looked up as negative numbers and become nodata',
     RH + '''int main() { clsRasterData<unsigned char>* r = flat<unsigned char>(1, 2, {200, 3}, 255); std::map<int, unsigned char> m; m[200] = 7; m[3] = 4; r->Reclassify(m); EXPECT(r->GetValue(0, 0) == 7); EXPECT(r->GetValue(0, 1) == 4); delete r; return fails; }
''')
seed('c07-layers', 'C07', [(R, '''            if (!flag) { continue; }
            if (is_2draster && nullptr != raster_2d_) {
                raster_2d_[i][lyr] = replacedv;''', '''            if (!flag) { if (calc_pos_ && lyr == 0) { break; } continue; }
            if (is_2draster && nullptr != raster_2d_) {
                raster_2d_[i][lyr] = replacedv;''')],
     'compact storage, a cell valid in the first layer and blank in a further one', 'the blank cells of further layers keep the old nodata value and count as valid',
     RH + '''int main() { clsRasterData<int>* r = lay<int>(1, 2, 2, {5, -9, 3, 4}, -9); r->SetCalcPositions(); r->ReplaceNoData(-1); EXPECT(r->GetValue(0, 0, 2) == -1); EXPECT(r->IsNoData(0, 0, 2)); EXPECT(r->GetValue(0, 0) == 5); delete r; return fails; }
''')
seed('c29-neg', 'C29', [(R, '''    headers_[HEADER_RS_YLL] = yll;''', '''    headers_[HEADER_RS_YLL] = nlayers > 1 && yll < 0 ? -yll : yll;''')],
     'several layers and a southern latitude', 'a layered raster of the southern hemisphere is moved to the northern one',
     RH + '''int main() { clsRasterData<int>* r = lay<int>(1, 1, 2, {1, 1}, -9, 2, 10, -40); EXPECT(r->GetYllCenter() == -40); delete r; return fails; }
''')
seed('c29-mask', 'C29', [(R, '''    CopyHeader(mask_->GetRasterHeader(), headers_);
    no_data_value_ = static_cast<T>(mask_->GetNoDataValue());
    UpdateHeader(headers_, HEADER_RS_LAYERS, n_lyrs_);''', '''    CopyHeader(mask_->GetRasterHeader(), headers_);
    no_data_value_ = static_cast<T>(mask_->GetNoDataValue());
    for (int i = 0; i < n_cells_; i++) {
        for (int j = 1; j < n_lyrs_; j++) {
            if (FloatEqual(raster_2d_[i][0], no_data_value_)) { raster_2d_[i][j] = no_data_value_; }
        }
    }
    UpdateHeader(headers_, HEADER_RS_LAYERS, n_lyrs_);''')],
     'several layers on a mask and a first-layer value equal to nodata', 'the values of the further layers at such a cell are lost',
     RH + '''int main() { clsRasterData<int>* m = flat<int>(1, 2, {1, 2}, -9); int a[2] = {-9, 4}, b[2] = {5, 6}; int* v[2] = {a, b}; clsRasterData<int>* r = new clsRasterData<int>(m, v, 2, 2); EXPECT(r->GetValue(0, 0, 2) == 4); EXPECT(r->GetValue(0, 1, 1) == 5); delete r; delete m; return fails; }
''')
seed('c08-leak', 'C08', [(R, "    if (is_2draster && nullptr != raster_2d_ && n_cells_ > 0) {", "    if (is_2draster && nullptr != raster_2d_ && n_cells_ > 1) {")],
     'copying over a layered raster of a single stored cell', 'its layers are never released',
     RH + '''int main() { clsRasterData<int>* a = lay<int>(1, 1, 2, {1, 2}, -9); clsRasterData<int>* b = lay<int>(1, 2, 2, {1, 2, 3, 4}, -9); a->Copy(b); EXPECT(a->GetValue(0, 1, 2) == 4); delete a; delete b; return fails; }
''')
seed('c08-onelayer', 'C08', [('src/data_raster.cpp', '''        if (nullptr != src->data2d_) {
            Initialize2DArray(n_cells, n_lyrs, data2d_, src->data2d_);
        }
    }
    else {''', '''        if (nullptr != src->data2d_) {
            if (n_lyrs > 1) { Initialize2DArray(n_cells, n_lyrs, data2d_, src->data2d_); }
            else if (nullptr == data_) { Initialize2DArray(n_cells, n_lyrs, data2d_, 0.); }
        }
    }
    else {''')],
     'a subset with layered values of one layer', 'the copy holds zeros instead of the values',
     RH + '''int main() { clsRasterData<int>* a = flat<int>(1, 2, {1, 1}, -9); a->BuildSubSet(); double** d = nullptr; utils_array::Initialize2DArray(2, 1, d, 7.); a->GetSubset().at(1)->Set2DData(2, 1, d); clsRasterData<int> b(a); SubsetPositions* s = b.GetSubset().at(1); EXPECT(s->data2d_ && s->data2d_[1][0] == 7); utils_array::Release2DArray(d); delete a; return fails; }
''')
M = 'src/utils_math.h'
seed('c12-below', 'C12', [(M, '''    for (int i = 0; i < num; i++) {
        if (FloatEqual(values[i], exclude)) continue;
''', '''    for (int i = 0; i < num; i++) {
        if (exclude == 0 ? values[i] <= exclude : FloatEqual(values[i], exclude)) continue;
''')],
     'a flat raster with nodata zero and negative values', 'the negative values are not counted',
     RH + '''int main() { clsRasterData<double>* a = flat<double>(1, 3, {-5, 0, 3}, 0); EXPECT(a->GetValidNumber() == 2); EXPECT(a->GetMinimum() == -5); delete a; return fails; }
''')
seed('c12-range', 'C12', [(M, "        tmpstats[5][j] = tmpstats[2][j] - tmpstats[3][j];", "        tmpstats[5][j] = fabs(tmpstats[2][j]) - (j > 0 ? fabs(tmpstats[3][j]) : tmpstats[3][j]);")],
     'negative values', 'the range of layers with negative values is wrong',
     RH + '''int main() { clsRasterData<double>* a = lay<double>(1, 2, 2, {-5, -6, 3, 4}, -9); EXPECT(a->GetRange(1) == 8); EXPECT(a->GetRange(2) == 10); delete a; return fails; }
''')
seed('c12-std', 'C12', [(M, '''            if (!FloatEqual(values[i][j], exclude)) {
                tmpstd +=''', '''            if (!FloatEqual(values[i][j], exclude) && (j < 2 || !FloatEqual(values[i][0], exclude))) {
                tmpstd +=''')],
     'three layers and a cell blank in the first layer and valid in the third', 'the deviation of the third layer leaves that cell out',
     RH + '''int main() { clsRasterData<double>* a = lay<double>(1, 2, 3, {-9, 1, 4, 3, 1, 8}, -9); EXPECT(a->GetStd(3) == 2); EXPECT(a->GetValidNumber(3) == 2); delete a; return fails; }
''')
seed('c04-header', 'C04', [(R, '''    double dx = (*header).at(HEADER_RS_CELLSIZE);
    double dy = dx;''', '''    double dx = (*header).at(HEADER_RS_CELLSIZE);
    double dy = headers_.at(HEADER_RS_CELLSIZE);''')],
     'a header with another cell size than the raster', 'rows are counted with the wrong cell size',
     RH + '''int main() { clsRasterData<int>* a = flat<int>(1, 2, {1, 2}, -9, 30); STRDBL_MAP h; h[HEADER_RS_XLL] = 5; h[HEADER_RS_YLL] = 5; h[HEADER_RS_CELLSIZE] = 10; h[HEADER_RS_NROWS] = 4; h[HEADER_RS_NCOLS] = 4; ROW_COL p = a->GetPositionByCoordinate(5, 15, &h); EXPECT(p.first == 2 && p.second == 0); delete a; return fails; }
''')
