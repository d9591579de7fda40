#include "pbt.hpp"
#include <fsdyn/date.h>
#include <limits.h>
#include <time.h>
using namespace pbt;

namespace {

const int64_t DAY = 86400;

bool leap(int64_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }

int days_in(int64_t y, int m)
{
    static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    return d[m] + (m == 1 && leap(y));
}

int64_t floor_div(int64_t a, int64_t b) { return a / b - (a % b < 0); }

// days from 1970-01-01 to January 1 of year y
int64_t year_start(int64_t y)
{
    int64_t p = y - 1;
    return 365 * (y - 1970) + (floor_div(p, 4) - 492) - (floor_div(p, 100) - 19) + (floor_div(p, 400) - 4);
}

struct Civil {
    int64_t year;
    int mon, mday, wday, hour, min, sec;
};

// the proleptic Gregorian calendar from its definition
Civil civil(int64_t t)
{
    int64_t day = floor_div(t, DAY);
    int64_t sec = t - day * DAY;
    Civil c;
    c.hour = (int) (sec / 3600);
    c.min = (int) (sec / 60 % 60);
    c.sec = (int) (sec % 60);
    c.wday = (int) (day - floor_div(day, 7) * 7 + 4) % 7;
    int64_t y = 1970 + floor_div(day * 400, 146097);
    while (year_start(y) > day)
        y--;
    while (year_start(y + 1) <= day)
        y++;
    int rest = (int) (day - year_start(y));
    int m = 0;
    while (rest >= days_in(y, m))
        rest -= days_in(y, m++);
    c.year = y;
    c.mon = m;
    c.mday = rest + 1;
    return c;
}

const int64_t YMIN = (int64_t) INT_MIN + 1900, YMAX = (int64_t) INT_MAX + 1900;

void check_instant(int64_t t, unsigned fill)
{
    Civil c = civil(t);
    struct tm tm;
    memset(&tm, (int) fill, sizeof tm);
    struct tm *r = epoch_to_utc((time_t) t, &tm);
    REQUIRE(r == &tm, "epoch_to_utc(%lld) does not return its argument", (long long) t);
    REQUIRE(tm.tm_year + (int64_t) 1900 == c.year && tm.tm_mon == c.mon && tm.tm_mday == c.mday &&
                tm.tm_hour == c.hour && tm.tm_min == c.min && tm.tm_sec == c.sec && tm.tm_wday == c.wday &&
                tm.tm_isdst == 0,
            "epoch_to_utc(%lld) gives %lld-%02d-%02d %02d:%02d:%02d weekday %d dst %d, expected "
            "%lld-%02d-%02d %02d:%02d:%02d weekday %d",
            (long long) t, tm.tm_year + 1900LL, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec,
            tm.tm_wday, tm.tm_isdst, (long long) c.year, c.mon + 1, c.mday, c.hour, c.min, c.sec, c.wday);
    // the reference itself against the C library
    struct tm g;
    time_t tt = (time_t) t;
    if (gmtime_r(&tt, &g))
        REQUIRE(g.tm_year == tm.tm_year && g.tm_mon == tm.tm_mon && g.tm_mday == tm.tm_mday &&
                    g.tm_hour == tm.tm_hour && g.tm_min == tm.tm_min && g.tm_sec == tm.tm_sec &&
                    g.tm_wday == tm.tm_wday,
                "epoch_to_utc(%lld) differs from gmtime_r", (long long) t);
}

// every day of 8 Gregorian cycles around 1970: first, last and one more second
void every_day(Src &s)
{
    uint64_t i = s.upto(8 * 146097 / 32);
    int64_t base = -4 * 146097 + (int64_t) i * 32;
    s.note("days %lld..%lld from 1970-01-01", (long long) base, (long long) base + 31);
    for (int64_t d = base; d < base + 32; d++) {
        check_instant(d * DAY, 0x55);
        check_instant(d * DAY - 1, 0xff);
        check_instant(d * DAY + (int64_t) ((uint64_t) d * 7919 % DAY), 0);
    }
    s.nontrivial();
}

// every second of a few days
void every_second(Src &s)
{
    static const int64_t day[] = {0, -1, 11016, -25508, 19782, 2932896};
    uint64_t i = s.upto(6 * 1440 - 1);
    int64_t t = day[i / 1440] * DAY + (int64_t) (i % 1440) * 60;
    s.note("the minute from %lld", (long long) t);
    for (int k = 0; k < 60; k++)
        check_instant(t + k, 0x11);
    s.nontrivial();
}

void instants(Src &s)
{
    const int64_t lo = year_start(YMIN) * DAY, hi = year_start(YMAX + 1) * DAY - 1;
    int64_t t;
    switch (s.below(7)) {
        case 0: // a day around the start of some month of some year
        case 1: {
            int64_t y;
            switch (s.below(4)) {
                case 0:
                    y = 1970 + s.range(-300, 600);
                    break;
                case 1: // century and era boundaries
                    y = 100 * s.range(-2000, 2000) + s.range(-1, 4);
                    break;
                case 2:
                    y = s.range(YMIN + 1, YMAX - 1);
                    break;
                default: {
                    static const int64_t edge[] = {YMIN + 1, YMAX - 1, 0, 1, -1, -400, 1600, 1900, 2038, 2106, 1901, 292277026};
                    y = s.pick(edge) + s.range(-1, 1);
                }
            }
            int64_t d = year_start(y);
            int m = (int) s.below(12);
            for (int k = 0; k < m; k++)
                d += days_in(y, k);
            d += s.range(-2, 2);
            t = d * DAY + s.range(-2, 2);
            if (s.flip())
                t += s.range(0, DAY - 1);
            break;
        }
        case 2:
            t = s.range(-5000000000LL, 5000000000LL);
            break;
        case 3: // powers of two
        {
            int sh = (int) s.below(56);
            t = ((int64_t) 1 << sh) + s.range(-2, 2);
            if (s.flip())
                t = -t;
            break;
        }
        case 4:
            t = lo + (int64_t) s.size(1000000000);
            break;
        case 5:
            t = hi - (int64_t) s.size(1000000000);
            break;
        default:
            t = s.range(lo, hi);
    }
    if (t < lo)
        t = lo;
    if (t > hi)
        t = hi;
    s.note("time %lld", (long long) t);
    check_instant(t, s.byte());
    // the neighbouring instants
    if (t > lo)
        check_instant(t - 1, 0);
    if (t < hi)
        check_instant(t + 1, 0);
    if (t - DAY >= lo)
        check_instant(t - DAY, 0);
    if (t + DAY <= hi)
        check_instant(t + DAY, 0);
    if (t < 0)
        s.label("before 1970");
    if (t > 32503680000LL || t < -62135596800LL)
        s.label("beyond the years 1..3000");
    s.nontrivial();
}

PROPERTY(C22,
         "A case is a block of 32 consecutive days within eight 400-year cycles around 1970 (first, last and "
         "one more second of each), a full minute, or an instant anywhere in the range of struct tm biased "
         "to month, year, century and range boundaries, with its neighbours; all are non-trivial.",
         {{"every_day", every_day, F_PROD | F_ENUM, 8 * 146097 / 32, 8 * 146097 / 32, 1, 0},
          {"every_second", every_second, F_PROD | F_ENUM, 6 * 1440, 6 * 1440, 1, 0},
          {"instants", instants, F_PROD | F_ASAN | F_FUZZ, 16000000, 200000000, 20, 240000}});
} // namespace
