// TAI-UTC, TT-UTC and the historical ET-UT estimate.
#include "alpha.h"
#include "cal.h"
#include "slalib.h"
using namespace mc;
static const bool full_depth = (g_deep = true);
struct Leap { int y, m; L base; L ref; L rate; };
static const Leap T[] = { // published history of TAI-UTC
    {1961, 1, 1.4228180L, 37300, 0.001296L}, {1961, 8, 1.3728180L, 37300, 0.001296L}, {1962, 1, 1.8458580L, 37665, 0.0011232L}, {1963, 11, 1.9458580L, 37665, 0.0011232L},
    {1964, 1, 3.2401300L, 38761, 0.001296L}, {1964, 4, 3.3401300L, 38761, 0.001296L}, {1964, 9, 3.4401300L, 38761, 0.001296L}, {1965, 1, 3.5401300L, 38761, 0.001296L},
    {1965, 3, 3.6401300L, 38761, 0.001296L}, {1965, 7, 3.7401300L, 38761, 0.001296L}, {1965, 9, 3.8401300L, 38761, 0.001296L}, {1966, 1, 4.3131700L, 39126, 0.002592L}, {1968, 2, 4.2131700L, 39126, 0.002592L},
    {1972, 1, 10, 0, 0}, {1972, 7, 11, 0, 0}, {1973, 1, 12, 0, 0}, {1974, 1, 13, 0, 0}, {1975, 1, 14, 0, 0}, {1976, 1, 15, 0, 0}, {1977, 1, 16, 0, 0}, {1978, 1, 17, 0, 0}, {1979, 1, 18, 0, 0}, {1980, 1, 19, 0, 0},
    {1981, 7, 20, 0, 0}, {1982, 7, 21, 0, 0}, {1983, 7, 22, 0, 0}, {1985, 7, 23, 0, 0}, {1988, 1, 24, 0, 0}, {1990, 1, 25, 0, 0}, {1991, 1, 26, 0, 0}, {1992, 7, 27, 0, 0}, {1993, 7, 28, 0, 0}, {1994, 7, 29, 0, 0},
    {1996, 1, 30, 0, 0}, {1997, 7, 31, 0, 0}, {1999, 1, 32, 0, 0}, {2006, 1, 33, 0, 0}, {2009, 1, 34, 0, 0}, {2012, 7, 35, 0, 0}, {2015, 7, 36, 0, 0}, {2017, 1, 37, 0, 0}};
static const int NT = sizeof T / sizeof T[0];
static L tai_utc(double utc) {
    for (int k = NT - 1; k >= 0; k--) if (utc >= double(greg_mjd(T[k].y, T[k].m, 1))) return T[k].base + (utc - T[k].ref) * T[k].rate;
    return 1.417818L + (utc - 37300.0L) * 0.001296L; // the year 1960 expression, also before
}
static void one(double utc, Ctx& c) {
    c.say("dat/dtt(%.17g)", utc);
    double a = sla::dat(utc), t = sla::dtt(utc); N(2);
    L e = tai_utc(utc);
    L tol = utc >= 41317.0 ? 0 : 1e-12L + absL(utc) * 1e-17L;
    CHECK(near(a, e, tol), "TAI-UTC at MJD %.17g is %.17g, expected %.17Lg", utc, a, e);
    if (utc >= 41317.0) CHECK(near(t, e + 32.184L, 3e-14L), "TT-UTC at MJD %.17g is %.17g, expected %.17Lg", utc, t, e + 32.184L);
}
static L dt_ref(L e) {
    L t = (e - 1800) / 100;
    if (e >= 1708.185161980887L) { L w = t - 0.19L; return 5.156L + 13.3066L * w * w; }
    if (e >= 979.0258204760233L) return 25.5L * t * t;
    return 1360 + (320 + 44.3L * t) * t;
}
static void onedt(double e, Ctx& c) {
    c.say("dt(%.17g)", e);
    double v = sla::dt(e); N(1); L r = dt_ref(e);
    // the three models agree at the break points to ~1e-12, so a value near a break point may come from either
    CHECK(near(v, r, 1e-9L + absL(r) * 2e-15L), "dynamical time offset at epoch %.17g is %.17g, expected %.17Lg", e, v, r);
}
void mc::define() {
    static VD tod = uniq(VD{0.0, 1e-9, 0.5, 0.25, 0.9, 0.99998842592592592, 0.9999999} + generic(0, 1, 40));
    domain("all-days", "every MJD 0..120000 (1858..2187) x times of day, incl. the last second", 120001 * tod.size(), [](u64 i, Ctx& c) { Dec q(i); double f = q.pick(tod); one(double(q.i) + f, c); });
    static VD bs; for (int k = 0; k < NT; k++) bs.push_back(double(greg_mjd(T[k].y, T[k].m, 1)));
    static VD xs = uniq(around(bs, {1e-10, 1e-8, 1.1574e-5, 1e-3, 0.1, 0.5, 1}) + litset({"dat.cc", "dtt.cc"}, -1e7, 1e7, 1, 20000) + generic(36934, 60000, 400000) + VD{-1e6, -1e5, -0.0, 1e5, 1e6, 1e7, 1e9, 1e15, 36934.0, 36933.9, 36934.5});
    domain("steps", "both sides of every step to 2 ulp, constants of the sources, remote dates", xs.size(), [](u64 i, Ctx& c) { one(xs[i], c); });
    static VD es = uniq(around({1708.185161980887, 979.0258204760233, 1800, 1819, 1600, 1650, 948, 0, -390}, {1e-9, 1e-6, 1e-3, 0.1, 1, 10}) + litset({"dt.cc"}, -1e5, 1e5) + grid(-5000, 5000, 2000001) + VD{1e5, -1e5, 1e6});
    domain("historical", "epochs -5000..5000 every 0.005 year, both sides of the model boundaries, constants of the sources", es.size(), [](u64 i, Ctx& c) { onedt(es[i], c); });
}
