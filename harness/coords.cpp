// Coordinates and positions (C04).
#include "rastergen.h"
static double cellSize(int k) { static const double d[] = {2, 0.5, 30, 0.25, 90, 1000}; return d[k]; }
static Grid<int> placed(int n, int sizes) {
    Grid<int> g;
    g.R = sx_pick("rows", 1, n); g.C = sx_pick("cols", 1, n); g.L = 1; g.two = false; g.nd = -9;
    g.dx = cellSize(sx_pick("size", 0, sizes));
    g.x = sx_real("xll"); g.y = sx_real("yll");
    sx_assume(g.x > -9000 && g.x < 1000000 && g.y > -9000 && g.y < 5000000);
    for (int i = 0; i < g.n(); i++) g.v.push_back(i + 1);
    return g;
}
//@unit C04 c04_centre time=60/300 N=3/4 S=1/5 args=--real | every shape of up to N rows and columns, cell size 2 or 0.5 (thorough: also 0.25, 30, 90, 1000), any real corner between -9000 and 1e6 (5e6 northwards), exact arithmetic: the centre of every cell
extern "C" void c04_centre() {
    Grid<int> g = placed((int)sx_param("N"), (int)sx_param("S"));
    clsRasterData<int>* r = build(g);
    for (int i = 0; i < g.R; i++)
        for (int j = 0; j < g.C; j++) {
            XY_COOR c = r->GetCoordinateByRowCol(i, j);
            sx_check("centre", c.first == g.x + j * g.dx && c.second == g.y + (g.R - 1 - i) * g.dx);
            ROW_COL p = r->GetPositionByCoordinate(c.first, c.second);
            sx_check("back", p.first == i && p.second == j);
            sx_check("position", r->GetPosition(c.first, c.second) == i * g.C + j);
        }
    sx_reach("end");
    delete r;
}
//@unit C04 c04_point time=90/400 N=3/4 S=1/5 args=--real | as c04_centre, any real point: inside, the cell returned contains it; outside, it is reported as outside (edges may go to either side)
extern "C" void c04_point() {
    Grid<int> g = placed((int)sx_param("N"), (int)sx_param("S"));
    bool compact = sx_flag("compact");
    int hole = -1;
    if (compact) { hole = sx_pick("hole", 0, g.n() - 1); g.v[hole] = g.nd; if (g.n() == 1) return; }
    clsRasterData<int>* r = build(g);
    if (compact) r->SetCalcPositions();
    double x = sx_real("x"), y = sx_real("y");
    double x0 = g.x - g.dx / 2, y0 = g.y - g.dx / 2, x1 = x0 + g.dx * g.C, y1 = y0 + g.dx * g.R;
    bool inside = x > x0 && x < x1 && y > y0 && y < y1, outside = x < x0 || x > x1 || y < y0 || y > y1;
    ROW_COL p = r->GetPositionByCoordinate(x, y);
    int row = (int)sx_fork((uint64_t)(int64_t)p.first), col = (int)sx_fork((uint64_t)(int64_t)p.second);
    if (outside) { sx_check("outside", row == -1 && col == -1); sx_reach("outside"); }
    else if (row == -1 && col == -1) sx_check("inside", !inside);
    else {
        sx_check("a cell", row >= 0 && row < g.R && col >= 0 && col < g.C);
        double cx = x0 + g.dx * col, cy = y0 + g.dx * (g.R - 1 - row);
        sx_check("the cell", cx <= x && x <= cx + g.dx && cy <= y && y <= cy + g.dx);
        sx_reach("inside");
    }
    int q = (int)sx_fork((uint64_t)(int64_t)r->GetPosition(x, y));
    if (outside) sx_check("position outside", q == -2);
    else if (inside) {
        int cell = row * g.C + col;
        sx_check("position", q == (hole < 0 ? cell : cell == hole ? -1 : cell < hole ? cell : cell - 1));
    } else sx_check("position on the edge", q >= -2 && q < g.n());
    delete r;
}
// The header handed in, not the raster's own, decides
//@unit C04 c04_header time=60/300 N=2/3 S=1/2 args=--real | positions with respect to another header: up to N rows and columns, any real corner, centres of its cells
extern "C" void c04_header() {
    Grid<int> own; own.R = own.C = 1; own.L = 1; own.two = false; own.nd = -9; own.dx = 7; own.x = 3; own.y = 4; own.v.push_back(1);
    clsRasterData<int>* r = build(own);
    Grid<int> g = placed((int)sx_param("N"), (int)sx_param("S"));
    STRDBL_MAP h;
    h[HEADER_RS_XLL] = g.x; h[HEADER_RS_YLL] = g.y; h[HEADER_RS_CELLSIZE] = g.dx; h[HEADER_RS_NROWS] = g.R; h[HEADER_RS_NCOLS] = g.C;
    for (int i = 0; i < g.R; i++)
        for (int j = 0; j < g.C; j++) {
            ROW_COL p = r->GetPositionByCoordinate(g.x + j * g.dx, g.y + (g.R - 1 - i) * g.dx, &h);
            sx_check("position", p.first == i && p.second == j);
        }
    sx_reach("end");
    delete r;
}
// With the rounding of real machine arithmetic
//@unit C04 c04_rounding time=100/800 S=0/3 | IEEE arithmetic: one row of three cells of size 0.1 (thorough: also 0.3, 30, 1/3) at concrete corners, every double x: a column is only ever one of the grid
extern "C" void c04_rounding() {
    static const double d[] = {0.1, 0.3, 30, 1.0 / 3}, xs[] = {0.05, 100.15, -45, 1e5};
    int k = sx_pick("size", 0, (int)sx_param("S"));
    Grid<int> g; g.R = 1; g.C = 3; g.L = 1; g.two = false; g.nd = -9; g.dx = d[k]; g.x = xs[k]; g.y = 0;
    for (int i = 0; i < 3; i++) g.v.push_back(i);
    clsRasterData<int>* r = build(g);
    uint64_t b = sx_bits("x", 64); double x; __builtin_memcpy(&x, &b, 8);
    sx_assume(x >= g.x - 2 * g.dx && x <= g.x + 5 * g.dx);
    ROW_COL p = r->GetPositionByCoordinate(x, 0);
    sx_check("column of the grid", (p.first == -1 && p.second == -1) || (p.first == 0 && p.second >= 0 && p.second < 3));
    sx_reach("end");
    delete r;
}
