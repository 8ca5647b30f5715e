// Reference calendar: plain day counting, no closed-form tricks shared with the library.
#pragma once
#include "engine.h"
namespace mc {
inline int64_t fdiv(int64_t a, int64_t b) { int64_t q = a / b; if (a % b != 0 && (a < 0) != (b < 0)) q--; return q; }
inline bool greg_leap(int64_t y) { int64_t r4 = y - 4 * fdiv(y, 4), r100 = y - 100 * fdiv(y, 100), r400 = y - 400 * fdiv(y, 400); return r4 == 0 && (r100 != 0 || r400 == 0); }
inline int greg_mdays(int64_t y, int m) { static const int d[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && greg_leap(y) ? 29 : d[m - 1]; }
// days from 0000-01-01 (proleptic Gregorian) to y-01-01
inline int64_t greg_year_start(int64_t y) { int64_t p = y - 1; return 365 * y + fdiv(p, 4) - fdiv(p, 100) + fdiv(p, 400) + 1; }
inline int64_t greg_mjd(int64_t y, int m, int64_t d) {
    static const int64_t ref = [] { int64_t n = greg_year_start(1858); for (int k = 1; k < 11; k++) n += greg_mdays(1858, k); return n + 16; }(); // 1858-11-17
    int64_t n = greg_year_start(y); for (int k = 1; k < m; k++) n += greg_mdays(y, k);
    return n + d - 1 - ref;
}
struct YMD { int64_t y; int m, d; };
inline YMD greg_from_mjd(int64_t mjd) {
    int64_t y = 1858 + fdiv(mjd, 366);
    while (greg_mjd(y + 1, 1, 1) <= mjd) { int64_t s = (mjd - greg_mjd(y + 1, 1, 1)) / 366; y += s + 1; }
    while (greg_mjd(y, 1, 1) > mjd) y--;
    int m = 1; while (m < 12 && greg_mjd(y, m + 1, 1) <= mjd) m++;
    return {y, m, int(mjd - greg_mjd(y, m, 1) + 1)};
}
inline void next_day(YMD& a) { if (++a.d > greg_mdays(a.y, a.m)) { a.d = 1; if (++a.m > 12) { a.m = 1; a.y++; } } }
// Julian calendar aligned with the Gregorian one on 1901-01-01
inline bool jul_leap(int64_t y) { return y - 4 * fdiv(y, 4) == 0; }
inline int64_t jul_year_start_mjd(int64_t y) { int64_t p = y - 1, q = 1900; return greg_mjd(1901, 1, 1) + 365 * (y - 1901) + fdiv(p, 4) - fdiv(q, 4); }
inline void jul_from_mjd(int64_t mjd, int64_t& y, int& doy) {
    y = 1901 + fdiv(4 * (mjd - greg_mjd(1901, 1, 1)), 1461) - 2;
    while (jul_year_start_mjd(y + 1) <= mjd) y++;
    doy = int(mjd - jul_year_start_mjd(y) + 1);
}
}
