// TDB-TT clock correction: full Fairhead & Bretagnon series plus topocentric terms.
#include <unordered_map>
#include "alpha.h"
#include "slalib.h"
using namespace mc;
static const L FB[787][3] = {
#include "rcc_table.inc"
};
static L deg(L x) { return x * PI_L / 180; }
static L ref(double tdb, double ut1, double cl, double cda, double cdp) {
    L t = (L(tdb) - 51544.5L) / 365250;
    static thread_local std::unordered_map<double, L> known; // the series depends on the instant alone
    auto it = known.find(tdb); L s[5] = {0, 0, 0, 0, 0};
    if (it == known.end()) for (int i = 0; i < 787; i++) s[i < 474 ? 0 : i < 679 ? 1 : i < 764 ? 2 : i < 784 ? 3 : 4] += FB[i][0] * sinl(FB[i][1] * t + FB[i][2]);
    L wf = it != known.end() ? it->second : s[0] + t * s[1] + t * t * s[2] + t * t * t * s[3] + t * t * t * t * s[4]; if (it == known.end()) known[tdb] = wf;
    L wj = 0.00065e-6L * sinl(6069.776754L * t + 4.021194L) + 0.00033e-6L * sinl(213.299095L * t + 5.543132L) - 0.00196e-6L * sinl(6208.294251L * t + 5.696701L) - 0.00173e-6L * sinl(74.781599L * t + 2.435900L) + 0.03638e-6L * t * t;
    L ts = (L(ut1) - std::floor(ut1)) * 2 * PI_L - cl;
    L el = deg(280.46645683L + 1296027711.03429L / 3600 * t), g = deg(357.52910918L + 1295965810.481L / 3600 * t), d = deg(297.85019547L + 16029616012.09L / 3600 * t), j = deg(34.35151874L + 109306899.89453L / 3600 * t), sa = deg(50.0774443L + 44046398.47038L / 3600 * t);
    L u = cda, v = cdp;
    L wt = 1e-10L * (u * (0.00029L * sinl(ts + el - sa) + 0.001L * sinl(ts - 2 * g) + 0.00133L * sinl(ts - d) + 0.00133L * sinl(ts + el - j) - 0.00229L * sinl(ts + 2 * el + g) + 0.05312L * sinl(ts - g) - 0.13677L * sinl(ts + 2 * el) + 3.17679L * sinl(ts)) - v * (0.022L * cosl(el + g) + 1.3184L * cosl(el)));
    return wf + wj + wt;
}
static void one(const double* x, Ctx& c) {
    c.say("rcc(tdb=%.17g ut1=%.17g long=%.17g axis=%.17g plane=%.17g)", x[0], x[1], x[2], x[3], x[4]);
    double v = sla::rcc(x[0], x[1], x[2], x[3], x[4]); N(1);
    L e = ref(x[0], x[1], x[2], x[3], x[4]); L t = absL(x[0] - 51544.5L) / 365250;
    L tol = 1.2e-15L + 8e-14L * t + 1.2e-14L * t * t + 1.6e-14L * t * t * t + (absL(x[3]) + absL(x[4])) * 1e-10L * (1.6e-13L + 4e-12L * t + 1.6e-14L * (absL(x[1]) + absL(x[2])));
    CHECK(near(v, e, tol), "clock correction at TDB %.17g UT1 %.17g long %.17g u %.17g v %.17g: %.17g, series gives %.17Lg (diff %.3Lg, tol %.3Lg)", x[0], x[1], x[2], x[3], x[4], v, e, v - e, tol);
}
void mc::define() {
    g_cost = 2;
    std::vector<std::string> fs = {"rcc.cc"};
    static Star s = star({
        {uniq(grid(51544.5 - 365250, 51544.5 + 365250, g_thorough ? 20001 : 2001) + generic(30000, 90000, g_thorough ? 20000 : 1500) + around({51544.5, 0, 33282, 69807}, {1e-6, 0.1, 1}) + litset(fs, -4e5, 4e5, 1, 300)), VD{51544.5, 40000.3, 60000.7, -20000, 90000}, VD{51544.5, 44239.9}},
        {uniq(around({0.0, 1.0, 0.5, -1.0}, {1e-9, 1e-3}) + generic(-2, 3, 60) + VD{1e4 + 0.25, -0.75} + litset(fs, -10, 10, 1, 60)), VD{0, 0.5, -0.3, 0.9, 1.6}, VD{0.0, 0.37}},
        {uniq(lon_fine(40) + lit_angles(fs, -7, 7, 60)), VD{0, 1, -2, 3.2, 6.5}, VD{0.0, 2.1}},
        {uniq(VD{0, -0.0, 6378.14, -6378.14, 1e-3, 7000, 5525.242, 1} + generic(0, 6400, 40) + litset(fs, -7000, 7000, 1, 60)), VD{0, 6378, 1000, -500}, VD{0.0, 5525.0}},
        {uniq(VD{0, -0.0, 6356.75, -6356.75, 3190, 1} + generic(-6400, 6400, 40) + litset(fs, -7000, 7000, 1, 60)), VD{0, 6356, -1000}, VD{0.0, -3190.0}}});
    domain("instants-and-places", "TDB alphabet (+-1000 years) x UT1 x longitude x axis distance x plane distance (star product)", s.total, [](u64 i, Ctx& c) { double x[5]; s.get(i, x); one(x, c); });
}
