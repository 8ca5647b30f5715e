// Gregorian date -> Modified Julian Date: value and status, with and without century defaults.
#include "alpha.h"
#include "cal.h"
#include "slalib.h"
using namespace mc;
static const bool full_depth = (g_deep = true);

static void one(int y, int m, int d, Ctx& c, bool defaults) {
    c.say("%s year=%d month=%d day=%d", defaults ? "caldj" : "cldj", y, m, d);
    int64_t ye = y;
    if (defaults) { if (y >= 0 && y <= 49) ye = y + 2000; else if (y >= 50 && y <= 99) ye = y + 1900; }
    const double mark = -7.25e77;
    double mjd = mark;
    sla::G2JStatus s = defaults ? sla::caldj(y, m, d, mjd) : sla::cldj(y, m, d, mjd);
    N(1);
    if (ye < -4699) { CHECK(s == sla::G2J_BAD_YEAR, "%d-%d-%d (defaults=%d): status %d, expected bad year", y, m, d, defaults, int(s)); CHECK(mjd == mark, "%d-%d-%d: output written although year rejected", y, m, d); return; }
    if (m < 1 || m > 12) { CHECK(s == sla::G2J_BAD_MONTH, "%d-%d-%d (defaults=%d): status %d, expected bad month", y, m, d, defaults, int(s)); CHECK(mjd == mark, "%d-%d-%d: output written although month rejected", y, m, d); return; }
    sla::G2JStatus es = d < 1 || d > greg_mdays(ye, m) ? sla::G2J_BAD_DAY : sla::G2J_OK;
    CHECK(s == es, "%d-%d-%d (defaults=%d): status %d, expected %d", y, m, d, defaults, int(s), int(es));
    double e = double(greg_mjd(ye, m, d));
    CHECK(mjd == e, "%d-%d-%d (defaults=%d): MJD %.17g, calendar says %.17g", y, m, d, defaults, mjd, e);
}

void mc::define() {
    static const int ND = 36;
    auto years = [](const char* n, const char* b, int64_t y0, int64_t y1) {
        for (int def = 0; def < 2; def++)
            domain(std::string(n) + (def ? "/defaults" : ""), b, u64(y1 - y0 + 1) * 14 * ND, [=](u64 i, Ctx& c) {
                Dec q(i); int d = int(q.take(ND)) - 2, m = int(q.take(14)); int64_t y = y0 + int64_t(q.i);
                one(int(y), m, d, c, def);
            });
    };
    years("dates", "all years -4760..12000 x months 0..13 x days -2..33", -4760, g_thorough ? 60000 : 12000);
    years("dates-1.46M", "years around the 32-bit limit of day counting in quarters", 1462000, 1472000);
    years("dates-limit-mjd", "years around MJD 1e9", 2739700, 2740200);
    years("dates-huge", "last 500 years of int", 2147483147LL, 2147483647LL);
    years("dates-neg", "first 500 years of int", -2147483648LL, -2147483148LL);
    static VI ys, ms, ds;
    for (double v: lits({"cldj.cc", "caldj.cc", "slalib.cc"})) if (v < 2e9) for (int s: {-1, 1}) for (int o = -4; o <= 4; o++) { ys.push_back(int(s * v) + o); ds.push_back(int(s * v) + o); ms.push_back(int(s * v) + o); }
    for (int p = 1; p < 31; p++) for (int o = -1; o <= 1; o++) { ys.push_back((1 << p) + o); ds.push_back((1 << p) + o); ds.push_back(-(1 << p) + o); }
    for (int k = 0; k <= 13; k++) ms.push_back(k); for (int k = -400; k <= 400; k++) ds.push_back(k);
    for (int m: {-1, INT32_MAX, INT32_MIN}) ms.push_back(m);
    for (VI* v: {&ys, &ms, &ds}) { std::sort(v->begin(), v->end()); v->erase(std::unique(v->begin(), v->end()), v->end()); }
    for (int def = 0; def < 2; def++)
        domain(std::string("extremes") + (def ? "/defaults" : ""), "years and days at powers of two and at constants of the sources, any month", ys.size() * ms.size() * ds.size(), [=](u64 i, Ctx& c) {
            Dec q(i); int y = q.pick(ys), m = q.pick(ms), d = q.pick(ds); one(y, m, d, c, def); });
}
