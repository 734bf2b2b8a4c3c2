// Calendar arithmetic (C17).  UTC only.
#include "sxapi.h"
#include "utils_time.h"
#include <ctime>
using namespace ccgl;
using namespace ccgl::utils_time;
static const int kCum[13] = {0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
static const int kLen[13] = {0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
static bool leap(int y) { return ((y % 4 == 0) & (y % 100 != 0)) | (y % 400 == 0); }
// Year as 400 a + 100 b + 4 c + d: the Gregorian rule is then a matter of which parts are zero.
struct Year { int a, b, c, d, y; bool lp; };
static Year symYear(int amax) {
    Year r;
    r.a = sx_int("y400", 0, amax); r.b = sx_int("y100", 0, 3); r.c = sx_int("y4", 0, 24); r.d = sx_int("y1", 0, 3);
    r.y = 400 * r.a + 100 * r.b + 4 * r.c + r.d;
    r.lp = (r.d == 0) & ((r.c != 0) | (r.b == 0));
    return r;
}
//@unit C17 c17_leap time=40/200 | every year 0 .. 102399 (and negative years by the 400-year period, to -102400): IsLeapYear is the Gregorian rule
extern "C" void c17_leap() {
    Year y = symYear(255);
    sx_check("leap", IsLeapYear(y.y) == y.lp);
    sx_check("leap.negative", IsLeapYear(y.y - 102400) == y.lp);
    sx_observe("year", y.y);
    sx_reach("end");
}
//@unit C17 c17_julian time=60/300 N=24/255 | every day of every year 1 .. 400*(N+1): JulianDay advances by one to the next calendar day (across months, years, centuries), counts 2451545 for 2000-01-01, and DayOfYear counts from one
extern "C" void c17_julian() {
    int amax = (int)sx_param("N");
    Year y = symYear(amax);
    sx_assume(y.y >= 1);
    int m = sx_pick("month", 1, 12), len = kLen[m] + (m == 2 && y.lp), d = sx_int("day", 1, 31);
    sx_assume(d <= len);
    int j = JulianDay(y.y, m, d);
    bool last = d == len;
    int d2 = last ? 1 : d + 1, m2 = (int)sx_fork(last ? m % 12 + 1 : m), y2 = y.y + ((m == 12) & last);
    sx_check("next day", JulianDay(y2, m2, d2) == j + 1);
    sx_check("anchor", JulianDay(2000, 1, 1) == 2451545 && JulianDay(1970, 1, 1) == 2440588 && JulianDay(1, 1, 1) == 1721426);
    sx_check("day of year", DayOfYear(y.y, m, d) == kCum[m] + d + (m > 2 && y.lp));
    sx_observe("j", j);
    sx_reach("end");
}
static int64_t refDays(int y, int m, int d) {   // days since 1970-01-01, by adding year lengths
    int64_t n = 0;
    for (int k = 1970; k < y; k++) n += leap(k) ? 366 : 365;
    for (int k = 1970; k > y; k--) n -= leap(k - 1) ? 366 : 365;
    return n + kCum[m] + (m > 2 && leap(y)) + d - 1;
}
static bool pickDate(int& y, int& m, int& d) {
    static const int years[] = {2000, 2023, 1900, 1969, 1970, 2024, 2038, 2100, 1904, 2400, 1999, 2001};
    y = years[sx_pick("year", 0, (int)sx_param("N") - 1)]; m = sx_pick("month", 1, 12);
    d = sx_int("day", 1, kLen[m] + (m == 2 && leap(y)));
    return true;
}
//@unit C17 c17_convert time=60/400 N=4/12 | every day of the first N of the years 2000 2023 1900 1969 1970 2024 2038 2100 1904 2400 1999 2001: ConvertYMDToTime gives the midnight of that day, the getters give the day back, its Julian day is that of the date and its day of the year counts from one
extern "C" void c17_convert() {
    int y, m, d;
    pickDate(y, m, d);
    int64_t days = refDays(y, m, 1) + (d - 1);
    int yy = y, mm = m, dd = d;
    bool utc = sx_flag("utc");
    time_t t = ConvertYMDToTime(yy, mm, dd, utc);
    sx_check("to time", t == days * 86400);
    sx_check("arguments kept", yy == y && mm == m && dd == d);
    sx_check("GetYear", GetYear(t, utc) == y);
    sx_check("GetMonth", GetMonth(t, utc) == m);
    sx_check("GetDay", GetDay(t, utc) == d);
    sx_check("DayOfYear", DayOfYear(t, utc) == kCum[m] + d + (m > 2 && leap(y)));
    sx_check("JulianDay", JulianDay(t, utc) == 2440588 + days);
    int a = 0, b = 0, c = 0;
    GetDateInfoFromTimet(t, &a, &b, &c, utc);
    sx_check("GetDateInfoFromTimet", a == y && b == m && c == d);
    sx_observe("t", t);
    sx_reach("end");
}
static time_t moment(int y, int m, int d, int h, int mi, int s) {
    struct tm x;
    memset(&x, 0, sizeof x);
    x.tm_year = y - 1900; x.tm_mon = m - 1; x.tm_mday = d; x.tm_hour = h; x.tm_min = mi; x.tm_sec = s;
    return timegm(&x);
}
// One field of the moment is symbolic, the others come from a few representative values; f = which field.
struct Moment { int y, m, d, h, mi, s; time_t t; };
static Moment symMoment() {
    static const int years[] = {2000, 1969, 2023, 1900, 2038, 2100, 2024, 1999};
    Moment r;
    r.y = years[sx_pick("year", 0, (int)sx_param("N") - 1)]; r.m = sx_pick("month", 1, 12);
    int f = sx_pick("field", 0, 3), rest = sx_flag("late");
    int len = kLen[r.m] + (r.m == 2 && leap(r.y));
    r.d = rest ? len : 1; r.h = rest ? 23 : 0; r.mi = rest ? 59 : 0; r.s = rest ? 59 : 7;
    if (f == 0) r.d = sx_int("day", 1, len);
    if (f == 1) r.h = sx_int("h", 0, 23);
    if (f == 2) r.mi = sx_int("m", 0, 59);
    if (f == 3) r.s = sx_int("s", 0, 59);
    r.t = moment(r.y, r.m, r.d, r.h, r.mi, r.s);
    return r;
}
//@unit C17 c17_moment time=60/400 N=2/8 | moments of the first N of the years 2000 1969 2023 1900 2038 2100 2024 1999, any month, with any one of day, hour, minute and second arbitrary and the others at their first or last value: GetDateTime, the getters and the date list agree with the calendar
extern "C" void c17_moment() {
    Moment a = symMoment();
    bool utc = sx_flag("utc");
    struct tm x;
    GetDateTime(a.t, &x, utc);
    sx_check("fields", x.tm_year == a.y - 1900 && x.tm_mon == a.m - 1 && x.tm_mday == a.d && x.tm_hour == a.h && x.tm_min == a.mi && x.tm_sec == a.s);
    sx_check("getters", GetYear(a.t, utc) == a.y && GetMonth(a.t, utc) == a.m && GetDay(a.t, utc) == a.d);
    int p = 0, q = 0, r = 0;
    GetDateInfoFromTimet(a.t, &p, &q, &r, utc);
    sx_check("list", p == a.y && q == a.m && r == a.d);
    sx_check("DayOfYear", DayOfYear(a.t, utc) == kCum[a.m] + a.d + (a.m > 2 && leap(a.y)));
    sx_check("JulianDay", JulianDay(a.t, utc) == 2440588 + refDays(a.y, a.m, 1) + a.d - 1);
    struct tm u, v;
    UTCTime(a.t, &u); LocalTime(a.t, &v);
    sx_check("utc", u.tm_hour == a.h && v.tm_hour == a.h && u.tm_mday == a.d && v.tm_mday == a.d);
    sx_observe("t", a.t);
    sx_reach("end");
}
//@unit C17 c17_text time=60/400 N=2/8 | the same moments: the three text forms are exactly the printed fields and parse back to the same moment (the date form: to its midnight)
extern "C" void c17_text() {
    Moment a = symMoment();
    bool utc = sx_flag("utc");
    int which = sx_pick("form", 0, 2);
    static const int at1[6] = {0, 5, 8, 11, 14, 17}, at3[6] = {0, 5, 8, 11, 13, 15};
    const int val[6] = {a.y, a.m, a.d, a.h, a.mi, a.s};
    std::string f = which == 0 ? ConvertToString(a.t, utc) : which == 1 ? ConvertToString2(a.t, utc) : ConvertToString3(a.t, utc);
    sx_check("length", f.size() == (which == 0 ? 10 : which == 1 ? 19 : 17));
    for (int i = 0; i < (which == 0 ? 3 : 6); i++) {
        int p = which == 2 ? at3[i] : at1[i], w = i ? 2 : 4, v = 0;
        for (int k = 0; k < w; k++) { int c = f[p + k]; sx_check("digit", (c >= '0') & (c <= '9')); v = v * 10 + (c - '0'); }
        sx_check("printed field", v == val[i]);
        if (p) sx_check("separator", (which == 2 && i > 3) || f[p - 1] == (which == 2 ? '_' : i < 3 ? '-' : i == 3 ? ' ' : ':'));
    }
    if (which == 0) sx_check("back.date", ConvertToTime(f, "%4d-%2d-%2d", false, utc) == a.t - (a.h * 3600 + a.mi * 60 + a.s));
    else if (which == 1) sx_check("back", ConvertToTime(f, "%4d-%2d-%2d %2d:%2d:%2d", true, utc) == a.t);
    else sx_check("back3", ConvertToTime(f, "%4d_%2d_%2d_%2d%2d%2d", true, utc) == a.t);
    sx_observe_s("text", f);
    sx_reach("end");
}
//@unit C17 c17_datetime time=60/400 N=2/6 | DateTime for moments of the first N of the years 2000 2023 1971 2038 2100 2024, any month, one of day, hour, minute, second, millisecond arbitrary and the others first or last: the fields, FromDateTime and FromFileTime agree with the calendar and invert each other, moving by any number of milliseconds below 2^30 is exact and undone by the opposite move, conversion to local time and back keeps the moment, and nothing leaks
extern "C" void c17_datetime() {
    static const int years[] = {2000, 2023, 1971, 2038, 2100, 2024};
    int y = years[sx_pick("year", 0, (int)sx_param("N") - 1)], m = sx_pick("month", 1, 12), len = kLen[m] + (m == 2 && leap(y));
    int f = sx_pick("field", 0, 4), late = sx_flag("late");
    int d = late ? len : 1, h = late ? 23 : 0, mi = late ? 59 : 0, s = late ? 59 : 7, ms = late ? 999 : 0;
    if (f == 0) d = sx_int("day", 1, len);
    if (f == 1) h = sx_int("h", 0, 23);
    if (f == 2) mi = sx_int("m", 0, 59);
    if (f == 3) s = sx_int("s", 0, 59);
    if (f == 4) ms = sx_int("ms", 0, 999);
    int64_t ref = (int64_t)moment(y, m, d, h, mi, s) * 1000 + ms;
    DateTime a = DateTime::FromDateTime(y, m, d, h, mi, s, ms);
    sx_check("fields", a.year == y && a.month == m && a.day == d && a.hour == h && a.minute == mi && a.second == s && a.milliseconds == ms);
    sx_check("filetime", (int64_t)a.filetime == ref && (int64_t)a.total_milliseconds == ref);
    sx_check("day of year", a.day_of_year == kCum[m] + d + (m > 2 && leap(y)) - 1);
    sx_check("day of week", a.day_of_week == (refDays(y, m, 1) + d - 1 + 4) % 7);
    int w = sx_pick("op", 0, 2);
    if (w == 0) {
        DateTime b = DateTime::FromFileTime(a.filetime);
        sx_check("back", b == a && b.year == y && b.month == m && b.day == d && b.hour == h && b.minute == mi && b.second == s && b.milliseconds == ms);
        sx_reach("filetime");
    } else {
        uint64_t mark = sx_heap_mark();
        {
            DateTime b = a.ToUTCTime();
            sx_check("utc", b == a && b.hour == h && b.milliseconds == ms && b.minute == mi);
            DateTime l = a.ToLocalTime();
            sx_check("local", l == a && l.day == d && l.hour == h);
            DateTime c = l.ToUTCTime();
            sx_check("and back", c == a && c.second == s);
        }
        sx_heap_check("leak", mark);
        sx_reach("local");
    }
}
//@unit C17 c17_move time=120/400 N=4/9 | moving a DateTime forward or backward by j * u milliseconds, j any number below 2^N, u one of 1, 997, 86399 and 4194301, from the first or last moment of any month of 2000: exact, ordered, undone by the opposite move
extern "C" void c17_move() {
    int m = sx_pick("month", 1, 12), late = sx_flag("late");
    DateTime a = late ? DateTime::FromDateTime(2000, m, kLen[m], 23, 59, 59, 999) : DateTime::FromDateTime(2000, m, 1);
    int64_t ref = (int64_t)a.filetime;
    static const int unit[] = {1, 997, 86399, 4194301};
    int k = unit[sx_pick("unit", 0, 3)] * sx_int("by", 0, (1 << (int)sx_param("N")) - 1);
    bool back = sx_flag("back");
    DateTime b = back ? a.Backward(k) : a.Forward(k);
    sx_check("moved", (int64_t)b.filetime == (back ? ref - k : ref + k));
    sx_check("order", (k == 0) == (b == a) && (k != 0) == (a != b) && (b < a) == (back && k > 0) && (a < b) == (!back && k > 0) && (b <= a) == (back || k == 0) && (b >= a) == (!back || k == 0) && (b > a) == (!back && k > 0));
    sx_check("milliseconds", b.milliseconds == (back ? ref - k : ref + k) % 1000);
    DateTime c = back ? b.Forward(k) : b.Backward(k);
    sx_check("undone", c == a);
    sx_reach("end");
}
//@unit C17 c17_leaks time=20/60 | the conversions release what they allocate
extern "C" void c17_leaks() {
    uint64_t mark = sx_heap_mark();
    {
        time_t t = 86400 * 200;
        bool utc = sx_flag("utc");
        int a = 2001, b = 2, c = 3;
        std::string s = ConvertToString(t, utc) + ConvertToString2(t, utc) + ConvertToString3(t, utc);
        ConvertToTime("2001-02-03", "%4d-%2d-%2d", false, utc);
        ConvertYMDToTime(a, b, c, utc);
        GetDateInfoFromTimet(t, &a, &b, &c, utc);
        GetYear(t, utc); GetMonth(t, utc); GetDay(t, utc); DayOfYear(t, utc); JulianDay(t, utc);
        DateTime::LocalTime(); DateTime::UTCTime();
        DateTime d = DateTime::FromDateTime(2001, 2, 3);
        d.Forward(1); d.Backward(1); DateTime::FromFileTime(5);
    }
    sx_heap_check("leak", mark);
    sx_reach("end");
}
