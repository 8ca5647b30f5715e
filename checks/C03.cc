// Gregorian date -> year and day-in-year of the aligned Julian calendar.
#include "alpha.h"
#include "cal.h"
#include "slalib.h"
using namespace mc;
static const bool full_depth = (g_deep = true);
static void one(int y, int m, int d, Ctx& c, bool defaults) {
    c.say("%s year=%d month=%d day=%d", defaults ? "calyd" : "clyd", y, m, d);
    int64_t ye = y;
    if (defaults) { if (y >= 0 && y <= 49) ye = y + 2000; else if (y >= 50 && y <= 99) ye = y + 1900; }
    const int M = -987654; int jy = M, jd = M;
    sla::G2JStatus s = defaults ? sla::calyd(y, m, d, jy, jd) : sla::clyd(y, m, d, jy, jd);
    N(1);
    if (ye < -4711) { CHECK(s == sla::G2J_BAD_YEAR, "%d-%d-%d (defaults=%d): status %d, expected bad year", y, m, d, defaults, int(s)); CHECK(jy == M && jd == M, "%d-%d-%d: output written although year rejected", y, m, d); return; }
    if (m < 1 || m > 12) { CHECK(s == sla::G2J_BAD_MONTH, "%d-%d-%d (defaults=%d): status %d, expected bad month", y, m, d, defaults, int(s)); CHECK(jy == M && jd == M, "%d-%d-%d: output written although month rejected", y, m, d); return; }
    sla::G2JStatus es = d < 1 || d > greg_mdays(ye, m) ? sla::G2J_BAD_DAY : sla::G2J_OK;
    CHECK(s == es, "%d-%d-%d (defaults=%d): status %d, expected %d", y, m, d, defaults, int(s), int(es));
    int64_t ey; int ed; jul_from_mjd(greg_mjd(ye, m, d), ey, ed);
    CHECK(jy == ey && jd == ed, "%d-%d-%d (defaults=%d): year %d day %d, expected year %lld day %d", y, m, d, defaults, jy, jd, (long long) ey, ed);
}
void mc::define() {
    static const int ND = 36;
    auto years = [](const char* n, const char* b, int64_t y0, int64_t y1) {
        for (int def = 0; def < 2; def++)
            domain(std::string(n) + (def ? "/defaults" : ""), b, u64(y1 - y0 + 1) * 14 * ND, [=](u64 i, Ctx& c) {
                Dec q(i); int d = int(q.take(ND)) - 2, m = int(q.take(14)); int64_t y = y0 + int64_t(q.i);
                one(int(y), m, d, c, def);
            });
    };
    years("dates", "all years -4760..12000 x months 0..13 x days -2..33", -4760, g_thorough ? 60000 : 12000);
    years("dates-1.46M", "years around the 32-bit limit of day counting in quarters", 1462000, 1472000);
    years("dates-huge", "last 500 years of int", 2147483147LL, 2147483647LL);
    years("dates-neg", "first 500 years of int", -2147483648LL, -2147483148LL);
    static VI ys, ms;
    for (double v: lits({"clyd.cc", "calyd.cc", "slalib.cc"})) if (v < 2e9) for (int s: {-1, 1}) for (int o = -4; o <= 4; o++) { ys.push_back(int(s * v) + o); ms.push_back(int(s * v) + o); }
    for (int p = 1; p < 31; p++) for (int o = -1; o <= 1; o++) ys.push_back((1 << p) + o);
    for (int k = 0; k <= 13; k++) ms.push_back(k); for (int m: {-1, INT32_MAX, INT32_MIN}) ms.push_back(m);
    for (VI* v: {&ys, &ms}) { std::sort(v->begin(), v->end()); v->erase(std::unique(v->begin(), v->end()), v->end()); }
    for (int def = 0; def < 2; def++)
        domain(std::string("extremes") + (def ? "/defaults" : ""), "years at powers of two and at constants of the sources, any month", ys.size() * ms.size() * 81, [=](u64 i, Ctx& c) {
            Dec q(i); int y = q.pick(ys), m = q.pick(ms), d = int(q.take(81)) - 20;
            if (y < -4000 && d < 1) d = 1 - d; // (out-of-range days before the calendar's own start are not meaningful)
            one(y, m, d, c, def); });
}
