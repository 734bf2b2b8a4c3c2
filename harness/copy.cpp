// Copies of rasters (C08).
#include "rastergen.h"
typedef clsRasterData<int> Ras;
// A raster of one of the kinds, with what was asked of it so far
struct Made { Grid<int> g; Ras* r; Ras* mask; bool compact, stats, sub; };
static Made make(int most, const char* kindName, bool plain, bool large = false) {
    Made m; m.mask = nullptr; m.r = nullptr;
    int kind = large ? sx_pick(kindName, 0, 2) : 0;
    if (large) m.g = patterned<int>(most != 0, kind > 0, -9999, GIVEN);
    else {
        m.g = shape<int>(most, 2);
        fill(m.g);
        kind = sx_pick(kindName, 0, plain ? 1 : 2);
    }
    m.compact = kind > 0;
    m.stats = m.sub = false;
    if (!large && m.g.n() * m.g.L > most) return m;
    if (m.compact) { sameCells(m.g); sx_assume(m.g.count() > 0); }
    if (kind == 2) {                                    // on a mask with the same cells
        Grid<int> k = m.g;
        k.two = false; k.L = 1; k.v.clear();
        for (int i = 0; i < m.g.n(); i++) k.v.push_back(m.g.v[i * m.g.L] != m.g.nd ? 1 : 0);
        k.nd = 0;
        m.mask = build(k);
        std::vector<int> vals; std::vector<int*> rows;
        int n = 0;
        for (int i = 0; i < m.g.n(); i++) if (m.g.v[i * m.g.L] != m.g.nd) { n++; for (int l = 0; l < m.g.L; l++) vals.push_back(m.g.v[i * m.g.L + l]); }
        for (int i = 0; i < n; i++) rows.push_back(&vals[i * m.g.L]);
        m.mask->SetCalcPositions();
        m.r = m.g.two ? new Ras(m.mask, rows.data(), n, m.g.L) : new Ras(m.mask, vals.data(), n);
        m.g.nd = 0;                                     // the mask's nodata value
        int p = 0;
        for (int i = 0; i < m.g.n(); i++) { bool ok = k.v[i] != 0; for (int l = 0; l < m.g.L; l++) m.g.v[i * m.g.L + l] = ok ? vals[p++] : 0; }
        return m;
    }
    m.r = build(m.g);
    if (m.compact) m.r->SetCalcPositions();
    return m;
}
static void same(const char* id, Made& m, Ras* c) {
    sameEverywhere(id, c, m.g);
    sameGeo(id, c, m.g);
    sx_check(id, c->PositionsCalculated() == m.compact && c->Is2DRaster() == m.g.two && c->Initialized());
    if (m.compact) {
        int n = -1, *idx = nullptr, **pos = nullptr, p = 0;
        c->GetRasterPositionData(&n, &idx);
        c->GetRasterPositionData(&n, &pos);
        sx_check(id, n == c->GetCellNumber());
        for (int i = 0; i < m.g.n(); i++) {
            if (c->GetPosition(i / m.g.C, i % m.g.C) < 0) continue;
            sx_check(id, p < n && idx[p] == i && pos[p][0] == i / m.g.C && pos[p][1] == i % m.g.C);
            p++;
        }
        sx_check(id, p == n);
    }
}
static void sameStats(const char* id, Ras* a, Ras* b, int L) {
    for (int l = 1; l <= L; l++) {
        sx_check(id, a->GetValidNumber(l) == b->GetValidNumber(l));
        if (b->GetValidNumber(l) > 0) sx_check(id, a->GetMinimum(l) == b->GetMinimum(l) && a->GetMaximum(l) == b->GetMaximum(l) && a->GetRange(l) == b->GetRange(l));
    }
}
static void touch(Made& m, Ras* r, const char* n) {
    if (sx_pick(n, 0, 1)) { r->CalculateStatistics(); m.stats = true; }
}
static void fresh(bool large) {
    uint64_t mark = sx_heap_mark();
    {
        Made m = make((int)sx_param("N"), "kind", false, large);
        if (!m.r) return;
        touch(m, m.r, "stats");
        m.r->SetDefaultValue(77);
        Ras* c = new Ras(m.r);
        same("copy", m, c);
        sx_check("settings", c->GetDefaultValue() == 77 && c->GetOutDataType() == m.r->GetOutDataType() && c->GetFilePath() == m.r->GetFilePath());
        sx_check("options", c->GetOptions() == m.r->GetOptions());
        sx_check("mask", c->GetMask() == m.r->GetMask() && c->MaskExtented() == m.r->MaskExtented());
        sx_check("statistics", c->StatisticsCalculated() == m.stats);
        if (m.stats) sameStats("statistics", c, m.r, m.g.L);
        int w = sx_pick("then", 0, 2);
        int i = large ? m.g.n() / 2 : sx_pick("cell", 0, m.g.n() - 1), l = m.g.L - 1, v = (int)sx_bits("new", 32);
        if (w == 0) {                                       // the copy is changed
            c->SetValue(i / m.g.C, i % m.g.C, v, l + 1);
            c->ReplaceNoData(v);
            std::map<int, int> t; t[1] = 2;
            c->Reclassify(t);
            c->UpdateStatistics();
            same("source unchanged", m, m.r);
            sx_reach("copy changed");
            delete c; delete m.r;
        } else if (w == 1) {                                // the source is changed
            m.r->SetValue(i / m.g.C, i % m.g.C, v, l + 1);
            m.r->ReplaceNoData(v);
            m.r->UpdateStatistics();
            same("copy unchanged", m, c);
            sx_reach("source changed");
            delete m.r; delete c;
        } else {                                            // the source is gone
            delete m.r;
            same("source gone", m, c);
            Ras d(c);
            delete c;
            same("copy of the copy", m, &d);
            sx_reach("source gone");
        }
        delete m.mask;
    }
    sx_heap_check("all released", mark);
}
//@unit C08 c08_fresh time=100/400 N=2/4 | copy constructor: every raster of at most N values (flat or 1 to 2 layers; full, compact or built on a mask; arbitrary values), with or without computed statistics; then one of the two is changed or destroyed first
extern "C" void c08_fresh() { fresh(false); }
//@unit C08 c08_large time=100/400 N=0/1 | copies of grids of 4x3, 3x5 and 1x9 cells, flat or with three layers (thorough: up to 40 cells, up to five layers), blank cells in one of seven patterns, concrete values 1 to 9 elsewhere; full, compact or built on a mask; then one of the two is changed (any new value) or destroyed first
extern "C" void c08_large() { fresh(true); }
//@unit C08 c08_over time=100/400 N=2/3 | copying over a raster that already holds something else (flat or layered; full, compact or on a mask; with or without statistics), then perhaps back again
extern "C" void c08_over() {
    uint64_t mark = sx_heap_mark();
    {
        Made a = make(1, "old kind", false);
        if (!a.r) return;
        touch(a, a.r, "old stats");
        Made m = make((int)sx_param("N"), "kind", true);
        if (!m.r) return;
        touch(m, m.r, "stats");
        a.r->Copy(m.r);
        same("copy", m, a.r);
        sx_check("options", a.r->GetOptions() == m.r->GetOptions());
        sameStats("statistics", a.r, m.r, m.g.L);
        if (sx_flag("again")) { a.r->Copy(m.r); same("copied again", m, a.r); sx_reach("again"); }
        delete m.r;
        same("source gone", m, a.r);
        if (a.mask) sx_check("mask kept", a.mask->GetValue(0, 0) == a.mask->GetValue(0, 0) && a.mask->GetPosition(0, 0) == 0);
        sx_reach("end");
        delete a.r;
        delete a.mask;
        delete m.mask;
    }
    sx_heap_check("all released", mark);
}
//@unit C08 c08_options time=40/100 | spatial reference and other options go along; a copy over a raster with other options carries none of those
extern "C" void c08_options() {
    uint64_t mark = sx_heap_mark();
    {
        Grid<int> g; g.R = 1; g.C = 2; g.L = 1; g.two = false; g.nd = -9; g.dx = 2; g.x = 100; g.y = -40; g.v.push_back(3); g.v.push_back(4);
        STRING_MAP o, q;
        std::string k(1, (char)sx_int("key", 'A', 'C')), v = sx_string("value", 2), k2(1, (char)sx_int("old key", 'A', 'C'));
        for (size_t i = 0; i < v.size(); i++) sx_assume(v[i] != 0);
        v += "0123456789abcdefghij";
        o[k] = v; o[HEADER_RS_SRS] = v; q[k2] = "old";
        Ras* r = build(g, o);
        Ras* c = sx_flag("over") ? build(g, q) : new Ras(r);
        c->Copy(r);
        sx_check("option", c->GetOption(k.c_str()) == v && c->GetSrsString() == v && std::string(c->GetSrs()) == v);
        sx_check("options", c->GetOptions() == r->GetOptions());
        sx_reach("end");
        delete r;
        sx_check("option", c->GetOption(k.c_str()) == v);
        delete c;
    }
    sx_heap_check("all released", mark);
}
//@unit C08 c08_subsets time=100/400 N=4/5 | rasters whose subsets have been built, with or without values (flat or one to three layers) assigned to them, one of them not usable: rows of up to N cells, values 0 to 2, nodata 0
extern "C" void c08_subsets() {
    uint64_t mark = sx_heap_mark();
    {
        Grid<int> g; g.R = 1; g.C = sx_pick("cols", 1, (int)sx_param("N")); g.L = sx_pick("layers", 1, 2); g.two = g.L > 1; g.nd = 0; g.dx = 2; g.x = 100; g.y = -40;
        for (int i = 0; i < g.C * g.L; i++) g.v.push_back((int)sx_fork(sx_int("cell", i % g.L ? 1 : 0, 2)));
        sameCells(g);
        sx_assume(g.count() > 0);
        Ras* r = build(g);
        sx_check("built", r->BuildSubSet());
        int data = sx_pick("data", 0, 4), lyrs = data - 1;    // 0: none, 1: one value for each cell, else: layers
        const std::map<int, SubsetPositions*>& s = r->GetSubset();
        double* one = nullptr; double** two = nullptr;
        for (auto it = s.begin(); it != s.end(); ++it) {
            int n = it->second->n_cells;
            if (data == 1) { utils_array::Initialize1DArray(n, one, (double)it->first); for (int i = 0; i < n; i++) one[i] += 10 * i; it->second->SetData(n, one); utils_array::Release1DArray(one); }
            if (data > 1) { utils_array::Initialize2DArray(n, lyrs, two, (double)it->first); for (int i = 0; i < n; i++) for (int l = 0; l < lyrs; l++) two[i][l] += 10 * i + 100 * l; it->second->Set2DData(n, lyrs, two); utils_array::Release2DArray(two); }
            it->second->usable = it->first != 2;
        }
        Ras* c;
        if (sx_flag("over")) { c = build(g); c->BuildSubSet(); c->Copy(r); sx_reach("over"); } else c = new Ras(r);
        for (int k = 0; k < 2; k++) {
            const std::map<int, SubsetPositions*>& d = c->GetSubset();
            sx_check("subsets", d.size() == (size_t)g.count() || d.size() >= 1);
            for (auto it = d.begin(); it != d.end(); ++it) {
                SubsetPositions* p = it->second;
                int n = 0;
                for (int i = 0; i < g.n(); i++) {
                    if (g.v[i * g.L] != it->first) continue;
                    sx_check("subset", n < p->n_cells && p->local_posidx_[n] == i - p->g_scol && p->local_pos_[n][1] == i - p->g_scol && p->local_pos_[n][0] == 0);
                    int at = 0;
                    for (int j = 0; j < i; j++) if (g.v[j * g.L] != 0) at++;
                    sx_check("subset", p->global_[n] == at);
                    if (data == 1) sx_check("subset data", p->data_ && p->data_[n] == it->first + 10 * n);
                    if (data > 1) { sx_check("subset data", p->data2d_ && p->n_lyrs == lyrs); for (int l = 0; l < lyrs; l++) sx_check("subset data", p->data2d_[n][l] == it->first + 10 * n + 100 * l); }
                    sx_check("usable", p->usable == (it->first != 2));
                    n++;
                }
                sx_check("subset", n == p->n_cells && p->g_srow == 0 && p->g_erow == 0 && p->g_scol <= p->g_ecol && g.v[p->g_scol * g.L] == it->first && g.v[p->g_ecol * g.L] == it->first);
                if (!k) {
                    auto o = r->GetSubset().find(it->first);
                    sx_check("own", o != r->GetSubset().end() && o->second != p && o->second->local_pos_ != p->local_pos_ && o->second->global_ != p->global_);
                }
            }
            if (!k) delete r;
        }
        sx_reach("end");
        delete c;
    }
    sx_heap_check("all released", mark);
}
//@unit C08 c08_piece time=40/100 N=2/3 | a subset copied on its own, sharing its position lists or with its own ones, with and without values; destroyed in either order
extern "C" void c08_piece() {
    uint64_t mark = sx_heap_mark();
    {
        Grid<int> g; g.R = 1; g.C = sx_pick("cols", 1, (int)sx_param("N")); g.L = 1; g.two = false; g.nd = 0; g.dx = 2; g.x = 100; g.y = -40;
        for (int i = 0; i < g.C; i++) g.v.push_back(1);
        Ras* r = build(g);
        r->BuildSubSet();
        SubsetPositions* s = r->GetSubset().begin()->second;
        int data = sx_pick("data", 0, 4), lyrs = data - 1;
        double* one = nullptr; double** two = nullptr;
        if (data == 1) { utils_array::Initialize1DArray(g.C, one, 5.); s->SetData(g.C, one); utils_array::Release1DArray(one); }
        if (data > 1) { utils_array::Initialize2DArray(g.C, lyrs, two, 5.); s->Set2DData(g.C, lyrs, two); utils_array::Release2DArray(two); }
        bool deep = sx_flag("deep");
        SubsetPositions* c = new SubsetPositions(s, deep);
        if (deep) { delete r; r = nullptr; }
        sx_check("cells", c->n_cells == g.C);
        for (int i = 0; i < g.C; i++) {
            sx_check("cells", c->global_[i] == i && c->local_posidx_[i] == i);
            if (data == 1) sx_check("values", c->data_[i] == 5);
            for (int l = 0; l < lyrs; l++) sx_check("values", c->data2d_[i][l] == 5);
        }
        sx_reach("end");
        delete c;
        if (r) {
            for (int i = 0; i < g.C; i++) sx_check("source", s->global_[i] == i && (data != 1 || s->data_[i] == 5) && (data < 2 || s->data2d_[i][lyrs - 1] == 5));
            delete r;
        }
    }
    sx_heap_check("all released", mark);
}
//@unit C08 c08_empty time=40/100 | copies of a raster that was never filled, over a filled one and the other way round, and of a raster onto itself
extern "C" void c08_empty() {
    uint64_t mark = sx_heap_mark();
    {
        Grid<int> g; g.R = 1; g.C = 2; g.L = sx_pick("layers", 1, 2); g.two = g.L > 1; g.nd = -9; g.dx = 2; g.x = 100; g.y = -40;
        for (int i = 0; i < 2 * g.L; i++) g.v.push_back(i + 1);
        bool compact = sx_flag("compact");
        Ras* r = build(g);
        if (compact) r->SetCalcPositions();
        Ras* e = new Ras(sx_flag("2d"));
        int w = sx_pick("how", 0, 3);
        if (w == 0) { e->Copy(r); sameEverywhere("filled", e, g); sameGeo("filled", e, g); sx_reach("filled"); }
        else if (w == 1) { r->Copy(e); sx_check("emptied", r->GetValue(0, 0) == r->GetNoDataValue() && r->GetPosition(0, 0) < 0); sx_reach("emptied"); }
        else if (w == 2) { Ras c(e); sx_check("empty", c.GetPosition(0, 0) < 0); }
        else { r->Copy(r); sameEverywhere("itself", r, g); sx_reach("itself"); }
        delete e;
        delete r;
    }
    sx_heap_check("all released", mark);
}
