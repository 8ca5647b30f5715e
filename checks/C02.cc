// Modified Julian Date -> Gregorian date (full precision and rounded for display).
#include "alpha.h"
#include "cal.h"
#include "slalib.h"
using namespace mc;

static const double LO = -2395520.0, HI = 1.0e9;

static void one_cl(double mjd, const YMD* hint, Ctx& c) {
    sla::Date dt; memset(&dt, 0x5a, sizeof dt); dt.d_fraction = -3.5e77; dt.d_year = 123456789; dt.d_month = -77; dt.d_day = -78; dt.d_ifraction = -79;
    bool bad = sla::djcl(mjd, dt); N(1);
    if (!(mjd > LO && mjd < HI)) {
        CHECK(bad, "MJD %.17g is outside the accepted range but was converted", mjd);
        CHECK(dt.d_year == 123456789 && dt.d_month == -77 && dt.d_day == -78 && dt.d_fraction == -3.5e77, "MJD %.17g rejected but output written", mjd);
        return;
    }
    CHECK(!bad, "MJD %.17g rejected", mjd);
    double f = dt.d_fraction;
    int64_t fl = int64_t(std::floor(mjd));
    YMD e = hint ? *hint : greg_from_mjd(fl);
    L ef = L(mjd) - fl;
    if (dt.d_year == e.y && dt.d_month == e.m && dt.d_day == e.d) {
        CHECK(f >= 0.0 && f <= 1.0 && near(f, ef, 2.3e-16L), "MJD %.17g: fraction %.17g, expected %.17Lg", mjd, f, ef);
        CHECK(f < 1.0 || ef > 1 - 2.3e-16L, "MJD %.17g: fraction %.17g", mjd, f);
        return;
    }
    // the only freedom: a value within rounding of the next midnight may be that midnight
    next_day(e);
    CHECK(ef > 1 - 2.3e-16L && f == 0.0 && dt.d_year == e.y && dt.d_month == e.m && dt.d_day == e.d,
        "MJD %.17g: got %d-%d-%d f=%.17g, expected day %lld", mjd, dt.d_year, dt.d_month, dt.d_day, f, (long long) fl);
}

static void one_cal(int ndp, double mjd, Ctx& c) {
    sla::Date dt; memset(&dt, 0x5a, sizeof dt); dt.d_year = 123456789; dt.d_month = -77; dt.d_day = -78; dt.d_ifraction = -79;
    bool bad = sla::djcal(ndp, mjd, dt); N(1);
    if (!(mjd > LO && mjd < HI)) {
        CHECK(bad, "MJD %.17g is outside the accepted range but was converted", mjd);
        CHECK(dt.d_year == 123456789 && dt.d_month == -77 && dt.d_day == -78 && dt.d_ifraction == -79, "MJD %.17g rejected but output written", mjd);
        return;
    }
    CHECK(!bad, "MJD %.17g rejected", mjd);
    int p = ndp < 0 ? 0 : ndp; int64_t u = 1; for (int k = 0; k < p; k++) u *= 10;
    CHECK(dt.d_ifraction >= 0 && dt.d_ifraction < u, "ndp %d MJD %.17g: fraction field %d", ndp, mjd, dt.d_ifraction);
    CHECK(dt.d_month >= 1 && dt.d_month <= 12 && dt.d_day >= 1 && dt.d_day <= greg_mdays(dt.d_year, dt.d_month), "ndp %d MJD %.17g: no such date %d-%d-%d", ndp, mjd, dt.d_year, dt.d_month, dt.d_day);
    L x = L(mjd) * u; int64_t day = greg_mjd(dt.d_year, dt.d_month, dt.d_day);
    L got = L(day) * u + dt.d_ifraction;
    CHECK(near(got, x, 0.5L + absL(x) * 4.5e-16L), "ndp %d MJD %.17g: got %d-%d-%d.%d which is %.3Lf units of the last place away", ndp, mjd, dt.d_year, dt.d_month, dt.d_day, dt.d_ifraction, got - x);
    double pr = mjd * double(u); // an exact half rounds away from zero
    if (std::fma(mjd, double(u), -pr) == 0 && pr - std::floor(pr) == 0.5) CHECK(absL(got) > absL(x), "ndp %d MJD %.17g: got %d-%d-%d.%d, an exact half not rounded away from zero", ndp, mjd, dt.d_year, dt.d_month, dt.d_day, dt.d_ifraction);
}

void mc::define() {
    static const u64 B = 4096;
    // every whole day of the accepted range
    const int64_t first = -2395519, last = 999999999;
    const int64_t ndays = last - first + 1;
    domain("all-days", "every whole MJD from -2395519 to 999999999, at 0h and at one other time of day (blocks of 4096 days)", (ndays + B - 1) / B, [=](u64 i, Ctx& c) {
        int64_t a = first + int64_t(i * B), b = std::min<int64_t>(a + B, last + 1);
        c.say("djcl over MJD %lld..%lld", (long long) a, (long long) b - 1);
        YMD e = greg_from_mjd(a);
        for (int64_t k = a; k < b && !c.failed; k++, next_day(e)) {
            sla::Date dt; dt.d_year = 0; dt.d_month = dt.d_day = 0; dt.d_fraction = -1;
            bool bad = sla::djcl(double(k), dt); N(1);
            CHECK(!bad && dt.d_year == e.y && dt.d_month == e.m && dt.d_day == e.d && dt.d_fraction == 0.0,
                "MJD %lld: got %d-%d-%d f=%.17g status %d, expected %lld-%d-%d", (long long) k, dt.d_year, dt.d_month, dt.d_day, dt.d_fraction, bad, (long long) e.y, e.m, e.d);
            if ((i & 15) == 0 || k < 4000000) one_cl(double(k) + 0.59765625, &e, c);
            if ((i & 15) == 0 || k < 4000000) { sla::Date d2; d2.d_ifraction = -1; bad = sla::djcal(0, double(k), d2); N(1);
                CHECK(!bad && d2.d_year == e.y && d2.d_month == e.m && d2.d_day == e.d && d2.d_ifraction == 0, "djcal(0, %lld): got %d-%d-%d.%d", (long long) k, d2.d_year, d2.d_month, d2.d_day, d2.d_ifraction); }
        }
    });
    // fractions x days x ndp
    static VD fr = uniq(VD{0.0, 0.5, 0.25, 0.75, 1.0 / 3} + around({0.0, 0.5, 1.0}, {1e-16, 1e-15, 1e-12, 1e-10, 5e-10, 1e-8, 5e-8, 1e-6, 5e-6, 1e-5, 5e-5, 1e-4, 5e-4, 1e-3, 5e-3, 1e-2, 5e-2, 0.1, 0.45}) + generic(0, 1, 40) + litset({"djcl.cc", "djcal.cc"}, 0, 1));
    static std::vector<int64_t> days;
    {
        std::set<int64_t> s;
        for (int64_t y = -4700; y <= 4000; y += (y >= 1890 && y < 2110) ? 1 : 50) if (y > -4699) for (int m: {1, 2, 3, 12}) for (int d: {1, 28, 29, 30, 31}) s.insert(greg_mjd(y, m, d));
        for (int64_t k = -2395521; k < -2395400; k++) s.insert(k);
        for (int64_t k = 999999990; k <= 1000000003; k++) s.insert(k);
        for (int64_t k = -500; k <= 500; k++) s.insert(k);
        for (int p = 12; p < 30; p++) for (int o = -3; o <= 3; o++) { s.insert((1 << p) + o); s.insert(-(1 << p) + o); s.insert((1ll << p) + o - 2400001); }
        for (double v: lits({"djcl.cc", "djcal.cc"})) if (v < 2e9) for (int o = -3; o <= 3; o++) { s.insert(int64_t(v) + o); s.insert(-int64_t(v) + o); s.insert(int64_t(v) - 2400001 + o); }
        for (int64_t k = 40000; k < 70000; k += 37) s.insert(k);
        days.assign(s.begin(), s.end());
    }
    domain("fractions", "time-of-day alphabet x boundary days (year/month ends, range limits, powers of two, constants of the sources)", fr.size() * days.size(), [](u64 i, Ctx& c) {
        Dec q(i); double f = q.pick(fr); int64_t d = q.pick(days); c.say("djcl %.17g", double(d) + f);
        one_cl(double(d) + f, nullptr, c); if (!c.failed && d != 0) one_cl(-(double(d) + f), nullptr, c); });
    static VI ndps; for (int k = -3; k <= 9; k++) ndps.push_back(k); ndps.push_back(-1000);
    domain("rounded", "decimal places -3..9 x time-of-day alphabet x boundary days", fr.size() * days.size() * ndps.size(), [](u64 i, Ctx& c) {
        Dec q(i); int n = q.pick(ndps); double f = q.pick(fr); int64_t d = q.pick(days); c.say("djcal ndp=%d %.17g", n, double(d) + f); one_cal(n, double(d) + f, c); });
    // every tie and near-tie of the display rounding for low ndp near carry points
    domain("carry", "ndp 0..4 x last/first units of days around every year end 1600..2600", 5 * 1001 * 41, [](u64 i, Ctx& c) {
        Dec q(i); int n = int(q.take(5)); int k = int(q.take(41)) - 20; int y = 1600 + int(q.i);
        double mjd = double(greg_mjd(y, 1, 1)) + k * 0.25 / std::pow(10.0, n); c.say("djcal ndp=%d %.17g", n, mjd); one_cal(n, mjd, c); });
    static VD bad = {-2395520.0, up(-2395520.0), dn(-2395520.0), 1e9, dn(1e9), up(1e9), 1e10, -1e10, 1e18, -1e18, 1e300, -1e300, INFINITY, -INFINITY, 2.2e9, -2.2e9, 4.3e9, -4.3e9};
    domain("range", "out-of-range and boundary arguments x ndp", bad.size() * ndps.size(), [](u64 i, Ctx& c) {
        Dec q(i); double m = q.pick(bad); int n = q.pick(ndps); one_cl(m, nullptr, c); if (!c.failed) one_cal(n, m, c); });
}
