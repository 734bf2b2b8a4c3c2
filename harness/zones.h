// Rasters of two zones and values given to their subsets.
#pragma once
#include "maskgen.h"
typedef clsRasterData<int> Ras;
typedef std::map<int, SubsetPositions*> Subs;
static const int NONE = -12345;
struct Zoned { Grid<int> g; std::vector<int> z; bool has[3]; };
static bool zoned(Zoned& k, int most, int layers) {
    k.g = shape<int>(most, layers);
    Grid<int>& g = k.g;
    if (g.n() * g.L > most) return false;
    g.nd = -9; k.has[1] = k.has[2] = false;
    for (int i = 0; i < g.n(); i++) {
        int z = sx_pick("zone", 0, 2);
        k.z.push_back(z ? z : NONE); k.has[z] = true;
        g.v.push_back(z ? z : -9);
        for (int l = 1; l < g.L; l++) g.v.push_back(z ? sx_int("cell", 1, 9) : -9);
    }
    return k.has[1] || k.has[2];
}
// Values given to the subsets: lyr layers, one per cell of the full grid
struct Vals { int L; std::vector<int> v; };
static void give(Ras* r, const Zoned& k, int zone, const Vals& d, bool one) {
    SubsetPositions* p = r->GetSubset().at(zone);
    std::vector<int> a; std::vector<int*> rows;
    for (int i = 0; i < k.g.n(); i++) if (k.z[i] == zone) for (int l = 0; l < d.L; l++) a.push_back(d.v[i * d.L + l]);
    for (int i = 0; i < p->n_cells; i++) rows.push_back(&a[i * d.L]);
    sx_check("values taken", one ? p->SetData(p->n_cells, a.data()) : p->Set2DData(p->n_cells, d.L, rows.data()));
    sx_check("wrong number refused", !p->SetData(p->n_cells + 1, a.data()) && !p->Set2DData(p->n_cells - 1, d.L, rows.data()));
}
static Ras* zonedRaster(Zoned& k, const char* n) {
    Ras* r = build(k.g);
    if (sx_flag(n)) r->SetCalcPositions();
    sx_check("built", r->BuildSubSet());
    return r;
}
static Vals some(const Zoned& k, int L) { Vals d; d.L = L; for (int i = 0; i < k.g.n() * L; i++) d.v.push_back(sx_int("value", 1, 9)); return d; }
