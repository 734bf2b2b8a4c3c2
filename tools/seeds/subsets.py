# Subsets and their output (C05, C28, C32), the application (C26)
A = 'apps/mask_rasterio.cpp'
MH = RH + '''#include <fstream>
static void put(const char* n, const char* t) { std::ofstream f(n); f << t; }
static double cell(const char* n, int r, int c) { clsRasterData<double>* a = clsRasterData<double>::Init(n); double v = a ? a->GetValue(r, c) : -1e9; delete a; return v; }
'''
AH = MH + '''#define main app_main
#include "mask_rasterio.cpp"
#undef main
static int run(std::vector<const char*> a) { a.insert(a.begin(), "mask_rasterio"); return app_main((int)a.size(), &a[0]); }
'''
seed('c05-chain', 'C05', [(R, '''            groupv = groups.at(groupv); // original raster value --> specified group ID
''', '''            groupv = groups.at(groupv); // original raster value --> specified group ID
            if (groupv != CVT_INT(curv) && groups.count(groupv) > 0) { groupv = groups.at(groupv); }
''')],
     'groups where the group assigned to one value is itself a value with a group', 'cells end up in the group of the group',
     MH + '''int main() { clsRasterData<int>* r = flat<int>(1, 3, {1, 2, 3}, -9); std::map<int, int> g; g[1] = 2; g[2] = 5; EXPECT(r->BuildSubSet(g)); EXPECT(r->GetSubset().count(2) == 1); EXPECT(r->GetSubset().count(5) == 1 && r->GetSubset().at(5)->n_cells == 1); delete r; return fails; }
''')
seed('c05-below', 'C05', [(R, '''            if (!FloatEqual(no_data_value_, default_value)) {
                use_defaultv_directly = true;''', '''            if (default_value > no_data_value_) {
                use_defaultv_directly = true;''')],
     'a subset that is not usable and a default value below the nodata value', 'its cells become nodata instead of the default value',
     MH + '''int main() { clsRasterData<int>* r = flat<int>(1, 2, {1, 2}, -9, 1, 0, 0); r->BuildSubSet(); r->SetDefaultValue(-50); int v = 4; r->GetSubset().at(1)->SetData(1, &v); r->GetSubset().at(2)->usable = false;
 EXPECT(r->OutputSubsetToFile(false, true, "./o.asc")); EXPECT(cell("0_o.asc", 0, 0) == 4); EXPECT(cell("0_o.asc", 0, 1) == -50); delete r; return fails; }
''')
seed('c05-row', 'C05', [(R, '''                if (tmppos.first > erow) { erow = tmppos.first; }
                if (tmppos.second < scol) { scol = tmppos.second; }
                if (tmppos.second > ecol) { ecol = tmppos.second; }''', '''                if (tmppos.first > erow) { erow = tmppos.first; }
                if (tmppos.second < scol) { scol = tmppos.second; if (ecol < 0) { ecol = tmppos.second; } }
                else if (tmppos.second > ecol && tmppos.first == srow) { ecol = tmppos.second; }''')],
     'a raster read under a split mask with the extent of its valid cells, and a zone that reaches further east below its first row', 'the rectangle of the zone is too narrow',
     MH + '''int main() { put("a.asc", "NCOLS 2\\nNROWS 2\\nXLLCENTER 1\\nYLLCENTER 0\\nCELLSIZE 1\\nNODATA_VALUE -9\\n3 4\\n5 6\\n");
 clsRasterData<int>* m = flat<int>(2, 3, {1, 1, 2, 1, 1, 1}, -9, 1, 0, 0); m->BuildSubSet(); clsRasterData<int>* r = clsRasterData<int>::Init("a.asc", true, m, false); EXPECT(r);
 if (r) { SubsetPositions* p = r->GetSubset().at(1); EXPECT(p->n_cells == 3 && p->g_scol == 0 && p->g_ecol == 1); } delete r; delete m; return fails; }
''')
seed('c28-planes', 'C28', [(R, '''            tmpdata1d[gi] = fullsizedata[gi * datalyrs + ilyr];''', '''            tmpdata1d[gi] = fullsizedata[(gi * datalyrs + ilyr) % (fsize * datalyrs - 1 + (ilyr < 1 || fsize < 2))];''')],
     'two or more layers and a value in the last cell', 'the last cell of the further layers gets the value of the first cell',
     MH + '''int main() { clsRasterData<int>* r = lay<int>(1, 2, 2, {1, 3, 2, 4}, -9, 1, 0, 0); r->BuildSubSet(); std::map<vint, std::vector<double> > t; t[1].push_back(11); t[1].push_back(12); t[2].push_back(13); t[2].push_back(14);
 EXPECT(r->OutputSubsetToFile(false, true, "./o.asc", t)); EXPECT(cell("0_o_1.asc", 0, 1) == 13); EXPECT(cell("0_o_2.asc", 0, 0) == 12); EXPECT(cell("0_o_2.asc", 0, 1) == 14); delete r; return fails; }
''')
seed('c28-gap', 'C28', [(R, '''    int data_length = gncells * lyrs;
    Initialize1DArray(data_length, data1d, no_data_value_);
    for (auto it = subset_.begin()''', '''    int data_length = gncells * lyrs;
    Initialize1DArray(data_length, data1d, lyrs > 1 ? static_cast<T>(default_value) : no_data_value_);
    for (auto it = subset_.begin()''')],
     'values of two layers, a default value and a cell that is in no subset', 'cells without value become the default value',
     MH + '''int main() { clsRasterData<int>* r = flat<int>(1, 2, {1, -9}, -9, 1, 0, 0); r->BuildSubSet(); r->SetDefaultValue(77); int v[2] = {4, 5}; int* p = v; r->GetSubset().at(1)->Set2DData(1, 2, &p);
 EXPECT(r->OutputSubsetToFile(false, true, "./o.asc")); EXPECT(cell("0_o_2.asc", 0, 0) == 5); EXPECT(cell("0_o_2.asc", 0, 1) == -9); delete r; return fails; }
''')
seed('c32-north', 'C32', [('src/data_raster.cpp', '''(gnrows - g_erow - 1) * cellsize + gyll''', '''(gnrows - (g_scol > 0 ? g_erow : g_erow - g_srow) - 1) * cellsize + gyll''')],
     'a zone that starts in the first column but not in the first row', 'the file of the zone is placed too far north',
     MH + '''int main() { clsRasterData<int>* r = flat<int>(3, 1, {2, 1, 2}, -9, 1, 0, 0); r->BuildSubSet(); EXPECT(r->OutputSubsetToFile(true, false, "./o.asc")); clsRasterData<int>* a = clsRasterData<int>::Init("1_o.asc"); EXPECT(a && a->GetYllCenter() == 1 && a->GetRows() == 1); delete a; delete r; return fails; }
''')
seed('c32-column', 'C32', [(R, '''            it->second->local_posidx_[gidx] = local_row * local_ncols + local_col;
        }''', '''            it->second->local_posidx_[gidx] = nrows > local_ncols + 1 ? local_col * nrows + local_row : local_row * local_ncols + local_col;
        }''')],
     'a zone whose rectangle has at least two rows more than columns and more than one column', 'its values are written in the wrong order',
     MH + '''int main() { clsRasterData<int>* r = flat<int>(4, 2, {1, 1, 1, 1, 1, 1, 1, 1}, -9, 1, 0, 0); r->BuildSubSet(); double v[8] = {1, 2, 3, 4, 5, 6, 7, 8}; r->GetSubset().at(1)->SetData(8, v); EXPECT(r->OutputSubsetToFile(false, false, "./o.asc"));
 for (int i = 0; i < 8; i++) EXPECT(cell("1_o.asc", i / 2, i % 2) == i + 1); delete r; return fails; }
''')
seed('c32-lists', 'C32', [(R, '''                if (recls.count(recls_key) > 0 && recls.at(recls_key).size() > ilyr) {
                    uniqe_value = recls.at(recls_key).at(ilyr);
                }
                data1d[j * lyrs + ilyr] = static_cast<T>(uniqe_value);''', '''                if (recls.count(recls_key) > 0 && recls.at(recls_key).size() > ilyr) {
                    uniqe_value = recls.at(recls_key).at(out_origin && ilyr > 0 ? 0 : ilyr);
                }
                data1d[j * lyrs + ilyr] = static_cast<T>(uniqe_value);''')],
     'single subsets written in original mode with lists of two layers', 'the second layer gets the values of the first',
     MH + '''int main() { clsRasterData<int>* r = flat<int>(1, 1, {1}, -9, 1, 0, 0); r->BuildSubSet(); std::map<vint, std::vector<double> > t; t[1].push_back(11); t[1].push_back(12);
 EXPECT(r->OutputSubsetToFile(true, false, "./o.asc", t)); EXPECT(cell("1_o_1.asc", 0, 0) == 11); EXPECT(cell("1_o_2.asc", 0, 0) == 12); delete r; return fails; }
''')
seed('c26-nodata', 'C26', [(A, '''            else { upd_nodata = true; }''', '''            else { upd_nodata = tmp_defv != NODATA_VALUE || tmp_nodata > 0; }''')],
     'a configuration file with a negative new nodata value and no default value', 'the new nodata value is ignored',
     AH + '''int main() { put("a.asc", "NCOLS 2\\nNROWS 1\\nXLLCENTER 0\\nYLLCENTER 0\\nCELLSIZE 1\\nNODATA_VALUE -9\\n3 -9\\n"); put("m.asc", "NCOLS 2\\nNROWS 1\\nXLLCENTER 0\\nYLLCENTER 0\\nCELLSIZE 1\\nNODATA_VALUE -9\\n1 1\\n");
 put("c.txt", "-mask\\tfile\\tm.asc\\na.asc;./o.asc;;-5\\n"); EXPECT(run({"-configfile", "c.txt"}) == 0); clsRasterData<double>* r = clsRasterData<double>::Init("o.asc"); EXPECT(r && r->GetNoDataValue() == -5); delete r; return fails; }
''')
seed('c26-list', 'C26', [(A, '''        if (tmpkv.size() != 2) { continue; }''', '''        if (tmpkv.size() < 2) { continue; }''')],
     'a reclassification list with an item of three parts', 'the malformed item is taken as a pair',
     AH + '''int main() { std::map<vint, std::vector<double> > kv; std::string s = "1:2:3,4:5"; EXPECT(parse_key_values(s, kv)); EXPECT(kv.count(4) == 1 && kv.size() == 1); return fails; }
''')
