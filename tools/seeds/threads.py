# Planted bugs in parallel loops (C24); the demonstrations run under ThreadSanitizer with a small OpenMP runtime on plain threads
GOMP = open(os.path.join(V, 'native', 'gomp.cpp')).read()
TS = dict(flags='-fopenmp -DSUPPORT_OMP -fsanitize=thread')
MATH = 'src/utils_math.h'
seed('c24-flag', 'C24', [(R, '''#pragma omp parallel for
    for (int i = 0; i < n_cells_; i++) {
        for (int lyr = 0; lyr < n_lyrs_; lyr++) {
            bool flag = is_2draster && nullptr != raster_2d_''', '''    bool flag = false;
#pragma omp parallel for
    for (int i = 0; i < n_cells_; i++) {
        for (int lyr = 0; lyr < n_lyrs_; lyr++) {
            flag = is_2draster && nullptr != raster_2d_''')],
     'two threads replacing nodata at the same time', 'the threads share the flag whether a cell has a value',
     GOMP + MH + '''int main() { clsRasterData<int>* r = flat<int>(4, 1, {1, -9, 2, -9}, -9, 1, 0, 0); r->ReplaceNoData(-7); EXPECT(r->GetValue(1, 0) == -7 && r->GetValue(2, 0) == 2); delete r; return fails; }
''', **TS)
seed('c24-lyr', 'C24', [('src/utils_array.h', '''#pragma omp parallel for
    for (int i = 0; i < row; i++) {
        for (int j = 0; j < col; j++) {
            data[i][j] = static_cast<T>(init_data[i][j]);''', '''    int j = 0;
#pragma omp parallel for
    for (int i = 0; i < row; i++) {
        for (j = 0; j < col; j++) {
            data[i][j] = static_cast<T>(init_data[i][j]);''')],
     'two threads copying rows at the same time', 'the threads share the column counter: cells of a copied array stay unset',
     GOMP + MH + '''int main() { int a[4][2] = {{1, 2}, {3, 4}, {5, 6}, {7, 8}}; int* p[4] = {a[0], a[1], a[2], a[3]}; int** d = 0; EXPECT(ccgl::utils_array::Initialize2DArray(4, 2, d, p)); EXPECT(d[3][1] == 8); ccgl::utils_array::Release2DArray(d); return fails; }
''', **TS)
