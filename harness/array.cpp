// Array helpers (C22) and the owning two-dimensional array (C25).
#include "sxapi.h"
#include <cmath>
#include <cstdlib>
#include <iostream>
#include <map>
#include <algorithm>
#include <stdexcept>
#include <vector>
#include "utils_array.h"
using namespace ccgl::utils_array;
typedef std::string S;
static S text(const char* n) { char b[64]; size_t k = fs_read(n, b, sizeof b); return S(b, k); }
static S num(int v) { S s; bool neg = v < 0; unsigned m = neg ? 0u - (unsigned)v : (unsigned)v; do { s.insert(s.begin(), (char)('0' + m % 10)); m /= 10; } while (m); return neg ? "-" + s : s; }
template <typename T> static T val(const char* n) { return (T)sx_int(n, -100, 100); }
template <> float val<float>(const char* n) { return (float)sx_ifp(n, -1000, 1000); }
template <> double val<double>(const char* n) { return sx_ifp(n, -1000000, 1000000); }
template <> int val<int>(const char* n) { return (int)sx_bits(n, 32); }
template <> unsigned char val<unsigned char>(const char* n) { return (unsigned char)sx_bits(n, 8); }

template <typename T, typename I> static void one() {
    uint64_t mark = sx_heap_mark();
    {
        int n = sx_pick("length", -2, (int)sx_param("N")), how = sx_pick("how", 0, 2);   // from a value, from an array, from no array
        int fail = sx_pick("failing allocation", -1, 1);
        std::vector<I> src;
        for (int i = 0; i < n; i++) src.push_back(val<I>("x"));
        I x = val<I>("init");
        I* from = how == 1 && n > 0 ? src.data() : how == 1 ? &x : nullptr;
        T* d = nullptr;
        sx_alloc_fail(fail);
        bool ok = how ? Initialize1DArray(n, d, from) : Initialize1DArray(n, d, x);
        sx_alloc_fail(-1);
        bool want = n > 0 && how != 2 && fail != 0;
        sx_check("accepted", ok == want);
        sx_check("given", (d != nullptr) == want);
        if (ok) {
            for (int i = 0; i < n; i++) sx_check("element", d[i] == (T)(how ? src[i] : x));
            T* same = d;
            sx_check("not over an array", !(how ? Initialize1DArray(n + 1, d, from) : Initialize1DArray(n + 1, d, x)) && d == same);
            for (int i = 0; i < n; i++) { sx_check("element kept", d[i] == (T)(how ? src[i] : x)); d[i] = (T)1; }
            if (how) for (int i = 0; i < n; i++) sx_check("source kept", (T)src[i] == (T)(src[i] + (I)0));
            sx_reach("created");
        } else sx_reach("refused");
        if (sx_flag("batch")) {
            T* e = nullptr;
            Initialize1DArray(1, e, x);
            BatchRelease1DArray(d, e, nullptr);
        } else { Release1DArray(d); sx_check("pointer cleared", d == nullptr); Release1DArray(d); }
        sx_check("nothing left", d == nullptr);
    }
    sx_heap_check("released", mark);
}
//@unit C22 c22_one_int time=40/200 N=6/10 | one-dimensional arrays of int with -2 to N elements from any int or from any array of ints; the first or no allocation fails
//@unit C24 c22_one_int name=omp_one prof=omp time=60/300 N=3/6 args=--omp-threads,6 | one-dimensional arrays made in parallel: the checks of c22_one_int, and no two of up to six threads conflict
extern "C" void c22_one_int() { one<int, int>(); }
//@unit C22 c22_one_mix time=40/200 N=4/8 | the same with doubles made from floats and whole values
//@unit C24 c22_one_mix name=omp_one_mix prof=omp time=60/300 N=3/6 args=--omp-threads,6,--omp-reverse | the same with the checks of c22_one_mix, threads in reverse order
extern "C" void c22_one_mix() { one<double, float>(); }
//@unit C22 c22_one_byte time=40/200 N=4/8 | the same with bytes made from ints
extern "C" void c22_one_byte() { one<unsigned char, int>(); }
//@unit C22 c22_one_narrow time=40/200 N=3/6 | the same with ints made from whole doubles
extern "C" void c22_one_narrow() { one<int, double>(); }

template <typename T, typename I> static void two() {
    uint64_t mark = sx_heap_mark();
    {
        int m = (int)sx_param("N");
        int r = sx_pick("rows", -1, m), c = sx_pick("cols", -1, m), how = sx_pick("how", 0, 2), fail = sx_pick("failing allocation", -1, 2);
        std::vector<std::vector<I> > src(r > 0 ? r : 1);
        std::vector<I*> rows;
        for (size_t i = 0; i < src.size(); i++) { for (int j = 0; j < (c > 0 ? c : 1); j++) src[i].push_back(val<I>("x")); rows.push_back(src[i].data()); }
        I x = val<I>("init");
        I** from = how == 1 ? rows.data() : nullptr;
        T** d = nullptr;
        sx_alloc_fail(fail);
        bool ok = how ? Initialize2DArray(r, c, d, from) : Initialize2DArray(r, c, d, x);
        sx_alloc_fail(-1);
        bool want = r > 0 && c > 0 && how != 2 && fail != 0 && fail != 1;
        sx_check("accepted", ok == want);
        sx_check("given", (d != nullptr) == want);
        if (ok) {
            for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) sx_check("element", d[i][j] == (T)(how ? src[i][j] : x));
            T** same = d;
            sx_check("not over an array", !(how ? Initialize2DArray(r, c, d, from) : Initialize2DArray(r, c, d, x)) && d == same);
            int k = 0;
            for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) d[i][j] = (T)k++;
            k = 0;
            for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) sx_check("distinct elements", d[i][j] == (T)k++);
            sx_reach("created");
        } else sx_reach("refused");
        if (sx_flag("batch")) {
            T** e = nullptr;
            Initialize2DArray(1, 2, e, x);
            BatchRelease2DArray(r, d, e, nullptr);
        } else { Release2DArray(d); sx_check("pointer cleared", d == nullptr); Release2DArray(d); }
    }
    sx_heap_check("released", mark);
}
//@unit C22 c22_two_int time=60/300 N=4/5 | two-dimensional arrays of int, -1 to N rows and columns, from any int or from any array of rows; the first, second, third or no allocation fails
//@unit C24 c22_two_int name=omp_two prof=omp time=60/300 N=2/3 args=--omp-threads,9 | two-dimensional arrays made in parallel: the checks of c22_two_int, up to nine threads
extern "C" void c22_two_int() { two<int, int>(); }
//@unit C22 c22_two_float time=60/300 N=4/5 | the same with floats from whole doubles
//@unit C24 c22_two_float name=omp_two_float prof=omp time=60/300 N=2/3 args=--omp-threads,9,--omp-reverse | the same with the checks of c22_two_float, reverse order
extern "C" void c22_two_float() { two<float, double>(); }
//@unit C22 c22_two_byte time=60/300 N=2/4 | the same with doubles from bytes
extern "C" void c22_two_byte() { two<double, unsigned char>(); }

template <typename A, typename T> static void list() {
    uint64_t mark = sx_heap_mark();
    {
        int m = (int)sx_param("N");
        int r = sx_pick("rows", -1, m), fail = sx_pick("failing allocation", -1, 2), most = -1;
        std::vector<A> flat(1, (A)r);
        std::vector<int> cols;
        bool good = r > 0;
        for (int i = 0; i < r; i++) {
            int c = sx_pick("cols", sx_param("N") > 2 ? 0 : -1, 2);
            cols.push_back(c);
            flat.push_back((A)c);
            if (c < 0) good = false;
            if (c > most) most = c;
            for (int j = 0; j < c; j++) flat.push_back(val<A>("x"));
        }
        if (!good) flat.resize(flat.size() + 8);
        T** d = nullptr;
        int rows = 7, maxc = 7;
        sx_alloc_fail(fail);
        bool ok = Initialize2DArray(flat.data(), rows, maxc, d);
        sx_alloc_fail(-1);
        bool want = good && fail != 0 && fail != 1;
        sx_check("accepted", ok == want);
        sx_check("given", (d != nullptr) == want);
        if (ok) {
            sx_check("rows", rows == r);
            sx_check("columns", maxc == most);
            size_t at = 1;
            for (int i = 0; i < r; i++) for (int j = 0; j <= cols[i]; j++) { sx_check("element", d[i][j] == (T)flat[at]); at++; }
            sx_reach("created");
        } else sx_reach("refused");
        Release2DArray(d);
        sx_check("pointer cleared", d == nullptr);
    }
    sx_heap_check("released", mark);
}
//@unit C22 c22_list_int time=60/300 N=2/2 | irregular arrays from every list of -1 to N rows with -1 to 2 columns each; the first, second, third or no allocation fails
extern "C" void c22_list_int() { list<int, int>(); }
//@unit C22 c22_list_float time=60/300 N=3/4 | the same, floats, 0 to 2 columns
extern "C" void c22_list_float() { list<float, float>(); }

//@unit C22 c22_huge time=40/100 | sizes up to 2147483647 whose product is at least 2^29 and leaves the range of int or not: refused, or all of it really there
extern "C" void c22_huge() {
    static const int big[] = {65536, 65537, 46341, 1 << 30, 2147483647, 32768, 3, 1};
    int r = big[sx_pick("rows", 0, 5)], c = big[sx_pick("cols", 0, 7)];
    if ((int64_t)r * c < (1 << 29) || r > 70000) return;
    uint64_t mark = sx_heap_mark();
    {
        double** d = nullptr;
        bool ok = Initialize2DArray(r, c, d, 1);
        if (ok) { d[r - 1][c - 1] = 2; sx_check("last element", d[r - 1][c - 1] == 2 && d[0][0] == 1); }
        else sx_check("nothing given", d == nullptr);
        Release2DArray(d);
        sx_reach("end");
    }
    sx_heap_check("released", mark);
}
//@unit C22 c22_vector time=40/200 N=6/8 | membership and removal for every vector of up to N ints of a small range and every value
extern "C" void c22_vector() {
    int n = sx_pick("size", 0, (int)sx_param("N"));
    std::vector<int> v;
    for (int i = 0; i < n; i++) v.push_back(sx_int("x", -2, 2));
    int x = sx_int("value", -2, 2);
    bool in = false;
    std::vector<int> rest;
    for (int i = 0; i < n; i++) { if (v[i] == x) in = true; else rest.push_back(v[i]); }
    sx_check("member", ValueInVector(x, v) == in);
    RemoveValueInVector(x, v);
    sx_check("rest", v == rest);
    sx_reach("end");
}
//@unit C22 c22_output time=40/200 N=2/2 | one- and two-dimensional arrays of up to N rows and columns of whole numbers -9..99 written to a file
extern "C" void c22_output() {
    int m = (int)sx_param("N");
    bool flat = sx_flag("flat");
    int r = sx_pick("rows", flat ? 0 : 1, flat ? 3 : m), c = flat ? 1 : sx_pick("cols", 1, m);
    S want;
    std::vector<float> v;
    std::vector<const float*> rows;
    for (int i = 0; i < r * c; i++) {
        int x = (int)sx_fork((uint64_t)(int64_t)sx_int("x", -1, 1)) * 33;
        v.push_back((float)x);
        want += num(x) + (flat ? "\n" : "\t");
        if (!flat && i % c == c - 1) want += "\n";
    }
    for (int i = 0; i < r; i++) rows.push_back(v.data() + i * c);
    if (flat) Output1DArrayToTxtFile(r, v.data(), "o.txt"); else Output2DArrayToTxtFile(r, c, rows.data(), "o.txt");
    sx_check("text", text("o.txt") == want);
    sx_reach("end");
}

// ---- the owning array (C25)
template <typename T> struct Model { int r, c; std::vector<T> v; Model() : r(0), c(0) {} };
template <typename T> static void same(const char* what, Array2D<T>& a, const Model<T>& m) {
    sx_check(what, (int)a.get_rows() == m.r && (int)a.get_cols() == m.c && (a.data() != nullptr) == (m.r > 0));
    const Array2D<T>& ca = a;
    for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) sx_check(what, a[i][j] == m.v[i * m.c + j] && ca[i][j] == m.v[i * m.c + j] && a.data()[i] == a[i]);
}
template <typename T> static void owning() {
    typedef Array2D<T> A;
    uint64_t mark = sx_heap_mark();
    {
        const int K = 2;
        A* a[K]; Model<T> m[K];
        for (int k = 0; k < K; k++) a[k] = new A();
        int steps = (int)sx_param("N");
        for (int s = 0; s < steps; s++) {
            int op = s == 0 ? 0 : sx_pick("operation", 0, 8), p = s == 0 ? 0 : sx_pick("on", 0, K - 1), q = op >= 2 && op <= 5 ? sx_pick("from", 0, K - 1) : 1 - p;
            switch (op) {
            case 0: {       // create, which may fail
                int r = sx_pick("rows", 1, 2), c = sx_pick("cols", 1, 2);
                bool dflt = s > 0 && sx_flag("default value");
                T x = dflt ? T() : val<T>("x");
                int fail = s == 0 ? -1 : sx_pick("failing allocation", -1, 1);
                bool thrown = false;
                sx_alloc_fail(fail);
                try { if (dflt) a[p]->create(r, c); else a[p]->create(r, c, x); } catch (std::bad_alloc&) { thrown = true; }
                sx_alloc_fail(-1);
                sx_check("memory shortage reported", thrown == (fail >= 0));
                if (!thrown) { m[p].r = r; m[p].c = c; m[p].v.assign(r * c, x); }
                break;
            }
            case 1: {       // write an element
                if (!m[p].r) break;
                int i = sx_pick("i", 0, m[p].r - 1), j = sx_pick("j", 0, m[p].c - 1);
                T x = val<T>("y");
                (*a[p])[i][j] = x; m[p].v[i * m[p].c + j] = x;
                break;
            }
            case 2: *a[p] = *a[q]; m[p] = m[q]; break;          // also from itself
            case 3: {       // move, also from itself; what was moved from may hold anything valid
                *a[p] = std::move(*a[q]);
                if (p != q) {
                    m[p] = m[q];
                    Model<T> n; A& o = *a[q];
                    n.r = (int)sx_fork(o.get_rows()); n.c = (int)sx_fork(o.get_cols());
                    for (int i = 0; i < n.r; i++) for (int j = 0; j < n.c; j++) n.v.push_back(o[i][j]);
                    m[q] = n;
                }
                break;
            }
            case 4: {       // destroy and make anew as a copy of the other
                if (p == q) break;
                delete a[p];
                a[p] = new A(*a[q]); m[p] = m[q];
                break;
            }
            case 5: {       // destroy and make anew by moving
                if (p == q) break;
                delete a[p];
                a[p] = new A(std::move(*a[q])); m[p] = m[q];
                m[q] = Model<T>();
                break;
            }
            case 6: a[p]->swap(*a[p], *a[q]); std::swap(m[p], m[q]); break;
            case 7: {       // destroy and make anew
                delete a[p];
                a[p] = sx_flag("sized") ? new A(2, 1, T(3)) : new A();
                m[p] = Model<T>();
                if (a[p]->data()) { m[p].r = 2; m[p].c = 1; m[p].v.assign(2, T(3)); }
                break;
            }
            case 8: {       // sizes of nothing
                bool thrown = false;
                bool r = sx_flag("no rows");
                try { A b(r ? 0 : 2, r ? 2 : 0); } catch (std::invalid_argument&) { thrown = true; }
                sx_check("refused", thrown);
                break;
            }
            }
            for (int k = 0; k < K; k++) same("contents", *a[k], m[k]);
        }
        for (int k = 0; k < K; k++) delete a[k];
        sx_reach("end");
    }
    sx_heap_check("released", mark);
}
//@unit C25 c25_int time=90/600 N=3/4 | every sequence of N operations (create, write, copy, move, copy and move construction, swap, renewal, invalid sizes) on two arrays of int of up to 2 x 2 elements, with allocation failures
extern "C" void c25_int() { owning<int>(); }
//@unit C25 c25_double time=90/600 N=3/4 | the same, whole doubles
extern "C" void c25_double() { owning<double>(); }
//@unit C25 c25_huge time=20/60 | sizes whose product leaves 32 bits are refused or really there
extern "C" void c25_huge() {
    static const unsigned big[] = {65536, 65537, 131072, 46341, 1u << 20};
    unsigned r = big[sx_pick("rows", 0, 3)], c = big[sx_pick("cols", 0, 4)];
    uint64_t mark = sx_heap_mark();
    {
        bool thrown = false;
        try {
            Array2D<double> a(r, c, 1);
            a[r - 1][c - 1] = 2;
            sx_check("last element", a[r - 1][c - 1] == 2);
        } catch (std::bad_alloc&) { thrown = true; }
        sx_check("refused", thrown);
        sx_reach("end");
    }
    sx_heap_check("released", mark);
}
