// Source files and masks on a lattice of quarter units, and what reading one under the other has to give.
#pragma once
#include "rastergen.h"
typedef std::string S;
static S num(int v) { S s; bool neg = v < 0; unsigned m = neg ? 0u - (unsigned)v : (unsigned)v; do { s.insert(s.begin(), (char)('0' + m % 10)); m /= 10; } while (m); return neg ? "-" + s : s; }
// All lengths in quarters of the unit; the place of a grid is the centre of its lower left cell
static S quarters(int q) { static const char* f[4] = {"", ".25", ".5", ".75"}; int w = q >= 0 ? q / 4 : -((3 - q) / 4), r = q - 4 * w; if (w < 0 && r) { w++; r = 4 - r; return (w == 0 ? "-0" : num(w)) + f[r]; } return num(w) + f[r]; }
struct Src {
    int R, C, q, x, y;          // cell size and place in quarters
    int nd;
    std::vector<int> v;         // nd or a digit 1..9
    bool ok(int i) const { return v[i] != nd; }
    // the cell at a point; -1 outside; -2 on the border between two cells
    int at(int px, int py) const {
        int dx = 2 * (px - x) + q, dy = 2 * (py - y) + q;   // twice the distance from the lower left corner
        if (dx < 0 || dy < 0 || dx > 2 * q * C || dy > 2 * q * R) return -1;
        if (dx % (2 * q) == 0 || dy % (2 * q) == 0) return -2;
        return (R - 1 - dy / (2 * q)) * C + dx / (2 * q);
    }
};
static void dims(int k, int& R, int& C) { static const int d[12][2] = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}, {2, 3}, {4, 3}, {3, 5}, {1, 9}, {9, 1}, {6, 5}}; R = d[k][0]; C = d[k][1]; }
static int stripes(int p, int k) { int R, C, b = 0; dims(k, R, C); for (int i = 0; i < R * C; i++) if (blankAt(p, i / C, i % C, R, C)) b |= 1 << i; return b; }
// pattern: bit i set means cell i is blank
static Src file(const char* name, int k, int pattern, int q, int x, int y, int nd = -9) {
    Src s; dims(k, s.R, s.C); s.q = q; s.x = x; s.y = y; s.nd = nd;
    S t = "NCOLS " + num(s.C) + "\nNROWS " + num(s.R) + "\nXLLCENTER " + quarters(x) + "\nYLLCENTER " + quarters(y) + "\nCELLSIZE " + quarters(q) + "\nNODATA_VALUE " + num(nd) + "\n";
    for (int i = 0; i < s.R * s.C; i++) {
        if (pattern >> i & 1) { s.v.push_back(nd); t += num(nd); }
        else { char c = (char)('1' + sx_int("digit", 0, 8)); s.v.push_back(c - '0'); t += c; }
        t += i % s.C == s.C - 1 ? "\n" : " ";
    }
    fs_put(name, t.data(), t.size());
    return s;
}
struct Mask { int R, C, q, x, y, pattern; bool ok(int i) const { return !(pattern >> i & 1); } };
template <typename M> static clsRasterData<M>* mask(const Mask& m) {
    M* a = new M[m.R * m.C];
    for (int i = 0; i < m.R * m.C; i++) a[i] = m.ok(i) ? (M)(i + 1) : (M)0;
    return new clsRasterData<M>(a, m.C, m.R, (M)0, m.q / 4., m.x / 4., m.y / 4.);
}
// What reading s under m has to give.  dflt: the default value or the nodata value when there is none
struct Want { int R, C, x, y; std::vector<int> v, other; int matched, inside; };
static bool expected(const Src& s, const Mask& m, bool ext, int dflt, Want& w) {
    std::vector<int> full(m.R * m.C, s.nd);
    int r0 = m.R, r1 = -1, c0 = m.C, c1 = -1;
    w.matched = w.inside = 0;
    for (int i = 0; i < m.R * m.C; i++) {
        if (!m.ok(i)) continue;
        int r = i / m.C, c = i % m.C, p = s.at(m.x + c * m.q, m.y + (m.R - 1 - r) * m.q);
        if (p == -2) return false;
        if (p >= 0) w.inside++;
        full[i] = p >= 0 && s.ok(p) ? s.v[p] : dflt;
        if (p >= 0 && s.ok(p)) {
            w.matched++;
            if (r < r0) r0 = r; if (r > r1) r1 = r; if (c < c0) c0 = c; if (c > c1) c1 = c;
        }
    }
    if (ext) { r0 = c0 = 0; r1 = m.R - 1; c1 = m.C - 1; }
    w.R = r1 - r0 + 1; w.C = c1 - c0 + 1; w.x = m.x + c0 * m.q; w.y = m.y + (m.R - 1 - r1) * m.q;
    w.v.clear();
    for (int r = r0; r <= r1; r++) for (int c = c0; c <= c1; c++) w.v.push_back(full[r * m.C + c]);
    return true;
}
template <typename T, typename M> static void compare(clsRasterData<T, M>* r, const Want& w, int q, int nd, int lyr = 1) {
    sx_check("size", r->GetRows() == w.R && r->GetCols() == w.C);
    sx_check("place", r->GetXllCenter() == w.x / 4. && r->GetYllCenter() == w.y / 4. && r->GetCellWidth() == q / 4. && r->GetNoDataValue() == (T)nd);
    int valid = 0;
    for (int i = 0; i < w.R * w.C; i++) {
        sx_check("cell", r->GetValue(i / w.C, i % w.C, lyr) == (T)w.v[i]);
        sx_check("nodata", r->IsNoData(i / w.C, i % w.C, lyr) == (w.v[i] == nd));
        if (w.v[i] != nd) valid++;
    }
    sx_check("outside", r->GetValue(w.R, 0, lyr) == (T)nd && r->GetValue(0, w.C, lyr) == (T)nd && r->GetValue(-1, 0, lyr) == (T)nd);
    sx_check("stored", r->GetCellNumber() >= valid && r->GetCellNumber() <= w.R * w.C && r->GetRasterHeader().at(HEADER_RS_CELLSNUM) >= valid);
}
static Mask shaped(int k, int pattern, int q = 4) { Mask m; dims(k, m.R, m.C); m.q = q; m.x = 400; m.y = -160; m.pattern = pattern; return m; }
