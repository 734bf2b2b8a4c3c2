UT = 'src/utils_time.cpp'
seed('c17-leap3200', 'C17', [('src/utils_time.h', '(yr % 100 || !(yr % 400))', '(yr % 100 || (!(yr % 400) && yr % 3200))')],
     'a year divisible by 3200', 'the year 3200 is no leap year (an unofficial refinement of the rule)',
     '''#include "utils_time.h"
using namespace ccgl::utils_time;
int main() { EXPECT(IsLeapYear(3200)); EXPECT(IsLeapYear(2000)); EXPECT(!IsLeapYear(2100)); return fails; }
''')
seed('c17-midnight', 'C17', [(UT, '''    strftime(date_string, 30, "%Y-%m-%d %X", date_info);
    string s(date_string);''', '''    strftime(date_string, 30, "%Y-%m-%d %I:%M:%S", date_info);
    if (date_info->tm_hour > 12) strftime(date_string, 30, "%Y-%m-%d %H:%M:%S", date_info);
    string s(date_string);''')],
     'a moment in the first hour of a day', 'the hour after midnight is printed as 12',
     '''#include "utils_time.h"
using namespace ccgl::utils_time;
int main() { for (time_t t = 951782300; t < 951782300 + 90000; t += 600) EXPECT(ConvertToTime(ConvertToString2(t), "%4d-%2d-%2d %2d:%2d:%2d", true) == t); return fails; }
''')
seed('c17-ms', 'C17', [(UT, '''    DateTime dt = ConvertTMToDateTime(time_info, ifiletime % 1000);
    delete time_info;
    return dt;
#endif
}

DateTime::DateTime() :''', '''    DateTime dt = ConvertTMToDateTime(time_info, (ifiletime - 1) % 1000 + (ifiletime % 1000 == 0));
    if (dt.milliseconds != 1) { dt.milliseconds = ifiletime % 1000; dt.filetime = ifiletime; dt.total_milliseconds = ifiletime; }
    delete time_info;
    return dt;
#endif
}

DateTime::DateTime() :''')],
     'a file time whose milliseconds are 2', 'the moment read back from such a file time is one millisecond early',
     '''#include "utils_time.h"
using namespace ccgl::utils_time;
int main() { for (int ms = 0; ms < 1000; ms++) { DateTime a = DateTime::FromDateTime(2020, 2, 29, 23, 59, 59, ms), b = DateTime::FromFileTime(a.filetime); EXPECT(a == b && b.milliseconds == ms); } return fails; }
''')
seed('c17-doy', 'C17', [(UT, '''    int doy = date_info->tm_yday + 1;''', '''    int doy = DayOfYear(2001, date_info->tm_mon + 1, date_info->tm_mday) + (date_info->tm_mon > 1 && IsLeapYear(date_info->tm_year));''')],
     'a date after February in a year where the leap rule differs from that of the year counted since 1900 (1900, 2000, 2100, 2300)', 'the day of the year is one too small after February 2000',
     '''#include "utils_time.h"
using namespace ccgl::utils_time;
int main() { int y = 2000, m = 12, d = 31; EXPECT(DayOfYear(ConvertYMDToTime(y, m, d)) == 366); y = 2024; EXPECT(DayOfYear(ConvertYMDToTime(y, m, d)) == 366); y = 2023; EXPECT(DayOfYear(ConvertYMDToTime(y, m, d)) == 365); return fails; }
''')
