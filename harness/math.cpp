// Numeric helpers (C23).
#include "sxapi.h"
#include <cmath>
#include <cstring>
#include <vector>
#include "utils_math.h"
using namespace ccgl::utils_math;
template <typename T> static T val(const char* n) { return (T)sx_bits(n, 8 * sizeof(T)); }
template <> float val<float>(const char* n) { unsigned b = (unsigned)sx_bits(n, 32); float f; memcpy(&f, &b, 4); sx_assume((b & 0x7f800000u) != 0x7f800000u); return f; }
template <> double val<double>(const char* n) { uint64_t b = sx_bits(n, 64); double f; memcpy(&f, &b, 8); sx_assume((b & 0x7ff0000000000000ull) != 0x7ff0000000000000ull); return f; }

template <typename T> static void extremes() {
    int n = sx_pick("size", 1, (int)sx_param("N"));
    std::vector<T> v;
    for (int i = 0; i < n; i++) v.push_back(val<T>("x"));
    const std::vector<T> w = v;
    T hi = MaxInArray(v.data(), n), lo = MinInArray(v.data(), n);
    bool h = false, l = false, most = true, least = true;
    for (int i = 0; i < n; i++) { h |= hi == w[i]; l |= lo == w[i]; most &= hi >= w[i]; least &= lo <= w[i]; }
    sx_check("maximum", h & most);
    sx_check("minimum", l & least);
    sx_reach("end");
}
//@unit C23 c23_extremes_int time=60/300 N=5/8 | maximum and minimum of every array of 1 to N ints
extern "C" void c23_extremes_int() { extremes<int>(); }
//@unit C23 c23_extremes_byte time=60/300 N=5/8 | of bytes
extern "C" void c23_extremes_byte() { extremes<unsigned char>(); }
//@unit C23 c23_extremes_float time=60/300 N=4/6 | of finite floats
extern "C" void c23_extremes_float() { extremes<float>(); }
//@unit C23 c23_extremes_double time=60/300 N=4/6 | of finite doubles
extern "C" void c23_extremes_double() { extremes<double>(); }

//@unit C23 c23_sum_int time=60/300 N=6/9 | sums of every array of 0 to N ints (-100000000..100000000), also through every index list of the same length
//@unit C24 c23_sum_int name=omp_sum prof=omp time=60/300 N=5/8 args=--omp-threads,8 | parallel sums: the checks of c23_sum_int, up to eight threads
extern "C" void c23_sum_int() {
    int n = sx_pick("size", 0, (int)sx_param("N"));
    std::vector<int> v(1, 7), ix;
    int64_t want = 0, part = 0;
    v.clear(); v.reserve(n + 1);
    for (int i = 0; i < n; i++) { v.push_back(sx_int("x", -100000000, 100000000)); want += v[i]; }
    sx_check("sum", Sum(n, (const int*)v.data()) == (int)want);
    int k = n > 3 ? 3 : n;
    for (int i = 0; i < k; i++) { int q = sx_pick("index", 0, n - 1); ix.push_back(q); part += v[q]; }
    int* p = ix.data();
    sx_check("sum of the chosen", Sum(k, p, (const int*)v.data()) == (int)part && p == ix.data());
    sx_reach("end");
}
template <typename T> static void sums() {
    int n = sx_pick("size", 0, (int)sx_param("N"));
    std::vector<T> v;
    std::vector<int> ix;
    v.reserve(n + 1);
    T want = 0, part = 0;
    for (int i = 0; i < n; i++) { v.push_back((T)sx_ifp("x", -100000, 100000)); want += v[i]; }
    sx_check("sum", Sum(n, (const T*)v.data()) == want);
    for (int i = 0; i < n; i++) if (sx_flag("chosen")) { ix.push_back(i); part += v[i]; }
    int* p = ix.data();
    sx_check("sum of the chosen", Sum((int)ix.size(), p, (const T*)v.data()) == part);
    sx_reach("end");
}
//@unit C23 c23_sum_float time=60/300 N=4/8 | sums of every array of 0 to N whole floats -100000..100000 and of every part of it
//@unit C24 c23_sum_float name=omp_sum_float prof=omp time=60/300 N=4/6 args=--omp-threads,6,--omp-reverse | the same, whole floats, reverse order
extern "C" void c23_sum_float() { sums<float>(); }
//@unit C23 c23_sum_double time=60/300 N=4/8 | the same, doubles
extern "C" void c23_sum_double() { sums<double>(); }

//@unit C23 c23_equal_int time=60/200 | equality of every two ints, of every int and whole double or float, of every two floats (finite)
extern "C" void c23_equal_int() {
    switch (sx_pick("kinds", 0, 3)) {
    case 0: { int a = val<int>("a"), b = val<int>("b"); sx_check("ints", FloatEqual(a, b) == (a == b) && FloatEqual(b, a) == (a == b)); break; }
    case 1: { int a = val<int>("a"); double b = sx_ifp("b", -1000000000000, 1000000000000); sx_check("int and double", FloatEqual(a, b) == ((double)a == b) && FloatEqual(b, a) == ((double)a == b)); break; }
    case 2: { unsigned char a = val<unsigned char>("a"); float b = (float)sx_ifp("b", -1000000, 1000000); sx_check("byte and float", FloatEqual(a, b) == ((float)a == b) && FloatEqual(b, a) == ((float)a == b)); break; }
    case 3: { double a = sx_ifp("a", -4000000000000, 4000000000000), b = sx_ifp("b", -4000000000000, 4000000000000); sx_check("whole doubles", FloatEqual(a, b) == (a == b)); break; }
    }
    sx_reach("end");
}
//@unit C23 c23_equal_real time=60/200 args=--real | equality of every two real numbers at exactly the tolerance, symmetrically (exact real arithmetic)
extern "C" void c23_equal_real() {
    double a = sx_real("a"), b = sx_real("b"), d = a - b;
    bool near = d < 1e-32 && d > -1e-32;
    sx_check("tolerance", FloatEqual(a, b) == near);
    sx_check("symmetric", FloatEqual(a, b) == FloatEqual(b, a));
    sx_check("reflexive", FloatEqual(a, a));
    sx_reach("end");
}
//@unit C23 c23_macros time=60/200 | Max, Min and Abs of every two ints, longs, finite floats and doubles
extern "C" void c23_macros() {
    switch (sx_pick("kind", 0, 3)) {
    case 0: { int a = val<int>("a"), b = val<int>("b"); sx_check("ints", Max(a, b) == (a > b ? a : b) && Min(a, b) == (a < b ? a : b)); sx_assume(a != INT32_MIN); sx_check("abs", Abs(a) >= 0 && (Abs(a) == a || Abs(a) == -a)); break; }
    case 1: { int64_t a = val<int64_t>("a"), b = val<int64_t>("b"); sx_check("longs", Max(a, b) == (a > b ? a : b) && Min(a, b) == (a < b ? a : b)); sx_assume(a != INT64_MIN); sx_check("abs", Abs(a) >= 0 && (Abs(a) == a || Abs(a) == -a)); break; }
    case 2: { float a = val<float>("a"), b = val<float>("b"); sx_check("floats", Max(a, b) == (a > b ? a : b) && Min(a, b) == (a < b ? a : b) && Abs(a) >= 0 && (Abs(a) == a || Abs(a) == -a)); break; }
    case 3: { double a = val<double>("a"), b = val<double>("b"); sx_check("doubles", Max(a, b) == (a > b ? a : b) && Min(a, b) == (a < b ? a : b) && Abs(a) >= 0 && (Abs(a) == a || Abs(a) == -a)); break; }
    }
    sx_reach("end");
}
// the same up to rounding
static bool close(float a, float b) { float d = a > b ? a - b : b - a, m = b < 0 ? -b : b; return a == b || (a != a && b != b) || d <= m * 1e-5f; }
//@unit C23 c23_expo time=60/200 | the bounded exponential of every finite float and every pair of bounds is the exponential of the nearest number within the bounds (exp itself uninterpreted)
extern "C" void c23_expo() {
    float x = val<float>("x"), up = val<float>("upper"), lo = val<float>("lower");
    sx_assume(lo <= up);
    float in = x; if (in > up) in = up; if (in < lo) in = lo;
    if (sx_flag("default bounds")) { in = x; if (in > 20.f) in = 20.f; if (in < -20.f) in = -20.f; float r = Expo(x), w = (float)std::exp((double)in); sx_check("default bounds", close(r, w)); }
    else { float r = Expo(x, up, lo), w = (float)std::exp((double)in); sx_check("bounds", close(r, w)); }
    sx_reach("end");
}
//@unit C23 c23_power time=60/200 | the power of every finite float to every finite float has the sign of the base and the magnitude of the power of its magnitude (pow itself uninterpreted)
extern "C" void c23_power() {
    float a = val<float>("a"), n = val<float>("n");
    float r = Power(a, n), m = a >= 0 ? (float)std::pow((double)a, (double)n) : -(float)std::pow(-(double)a, (double)n);
    sx_check("power", close(r, m));
    sx_reach("end");
}
// e^-y for 0 <= y <= ln 2 between two partial sums of its series
static double below(double y) { double t = 1, s = 1; for (int i = 1; i <= 7; i++) { t = t * -y / i; s = s + t; } return s; }
static double above(double y) { double t = 1, s = 1; for (int i = 1; i <= 8; i++) { t = t * -y / i; s = s + t; } return s; }
//@unit C23 c23_exp_core time=60/300 args=--real | the polynomial behind the approximate exponential is within 3e-5 of e^-x for every real x from 0 to ln 2 (exact real arithmetic)
extern "C" void c23_exp_core() {
    double y = sx_real("y");
    sx_assume(y >= 0 && y <= 0.693147180559945);
    double r = __p_exp_ln2(y);          // 1 / polynomial
    sx_check("positive", r > 0.9);
    sx_check("not below", r * (below(y) - 3.1e-5) <= 1);
    sx_check("not above", r * (above(y) + 3.1e-5) >= 1);
    sx_reach("end");
}
//@unit C23 c23_exp time=60/300 N=70/130 args=--realfork | the approximate exponential of every real k ln 2 + y, k from 0 to N and 0 <= y < ln 2, and of its negative is 2^k e^y within 3e-5 of the factor e^-y (exact real arithmetic)
extern "C" void c23_exp() {
    int k = sx_pick("k", 0, (int)sx_param("N"));
    double y = sx_real("y");
    sx_assume(y >= 1e-9 && y <= 0.69314717);
    bool neg = sx_flag("negative");
    double x = k * 0.69314718055994529 + y;
    double r = ApprExp(neg ? -x : x);
    double two = 1; for (int i = 0; i < k; i++) two *= 2;
    double e = neg ? r * two : two / r;     // e^-y approximated
    sx_check("within the error", e <= above(y) + 3.1e-5 && e >= below(y) - 3.1e-5);
    sx_reach("end");
}
//@unit C23 c23_lookup time=60/300 | the power table is never read outside for any exponent and logarithm (finite floats)
extern "C" void c23_lookup() {
    float a = val<float>("exponent"), b = val<float>("logarithm");
    float r = pow_lookup(a, b);
    unsigned u; memcpy(&u, &r, 4);
    sx_observe("bits", 0);
    sx_check("a number", (u & 0xff) != 0x100);
    sx_reach("end");
}
