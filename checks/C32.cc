// Precise Earth ephemerides (Stumpff 1980 and simplified VSOP2000).
#include "ephem.h"
#include "slalib.h"
using namespace mc;
static L mx(V3 a) { return nmax(absL(a.x), nmax(absL(a.y), absL(a.z))); }
static void evp1(double m, double q, Ctx& c) {
    c.say("MJD %.17g equinox %.17g", m, q);
    double bv[3] = {-9, -9, -9}, bp[3] = {-9, -9, -9}, hv[3] = {-9, -9, -9}, hp[3] = {-9, -9, -9}; sla::evp(m, q, bv, bp, hv, hp); N(1);
    PV b, h; evp_ref(m, q, b, h); L t = absL(m - 15019.5L) / 36525, tp = 2e-8L * (1 + t / 8), tv = 4e-15L * (1 + t / 8);
    CHECK(mx(v3(hp) - h.p) <= tp && mx(v3(bp) - b.p) <= tp, "Earth position at MJD %.17g, equinox %.17g: heliocentric off by %.3Lg AU, barycentric by %.3Lg AU", m, q, mx(v3(hp) - h.p), mx(v3(bp) - b.p));
    CHECK(mx(v3(hv) - h.v) <= tv && mx(v3(bv) - b.v) <= tv, "Earth velocity at MJD %.17g, equinox %.17g: heliocentric off by %.3Lg AU/s, barycentric by %.3Lg AU/s", m, q, mx(v3(hv) - h.v), mx(v3(bv) - b.v));
}
static void epv1(double m, Ctx& c) {
    c.say("MJD %.17g", m);
    double bv[3] = {-9, -9, -9}, bp[3] = {-9, -9, -9}, hv[3] = {-9, -9, -9}, hp[3] = {-9, -9, -9}; sla::epv(m, hp, hv, bp, bv); N(1);
    PV b, h; epv_ref(m, b, h); L t = absL(m - 51544.5L) / 36525, tp = 3e-13L * (1 + t) * (1 + t) * (1 + t / 10), tv = 8e-15L * (1 + t) * (1 + t) * (1 + t / 10);
    CHECK(mx(v3(hp) - h.p) <= tp && mx(v3(bp) - b.p) <= tp, "Earth position at MJD %.17g: heliocentric off by %.3Lg AU, barycentric by %.3Lg AU", m, mx(v3(hp) - h.p), mx(v3(bp) - b.p));
    CHECK(mx(v3(hv) - h.v) <= tv && mx(v3(bv) - b.v) <= tv, "Earth velocity at MJD %.17g: heliocentric off by %.3Lg AU/d, barycentric by %.3Lg AU/d", m, mx(v3(hv) - h.v), mx(v3(bv) - b.v));
    if (m >= 15020 && m <= 88069) {
        double Bv[3], Bp[3], Hv[3], Hp[3]; sla::evp(m, 2000, Bv, Bp, Hv, Hp); N(1);
        CHECK(norm(v3(Hp) - v3(hp)) <= 2e-5L && norm(v3(Bp) - v3(bp)) <= 1.2e-4L && norm(86400.0L * v3(Hv) - v3(hv)) <= 4e-7L && norm(86400.0L * v3(Bv) - v3(bv)) <= 4e-7L, "the two Earth ephemerides disagree at MJD %.17g: helio %.3Lg AU %.3Lg AU/d, bary %.3Lg AU %.3Lg AU/d", m, norm(v3(Hp) - v3(hp)), norm(86400.0L * v3(Hv) - v3(hv)), norm(v3(Bp) - v3(bp)), norm(86400.0L * v3(Bv) - v3(bv)));
    }
}
void mc::define() {
    std::vector<std::string> f = {"evp.cc"}, g = {"epv.cc"};
    static VD q = {0, -1, 2000, 1950, 1900, 2100, 1984.3, 0.5, -2000};
    static VD m = uniq(grid(15020, 88069, g_thorough ? 1460981 : 73050) + generic(-100000, 200000, g_thorough ? 200000 : 20000) + around({51544.5, 15019.5, 0, 88069, 33282}, {0.5, 1, 1e-6, 1e-3}) + litset(f, -100000, 200000));
    domain("fast theory: dates", "every day 1900-2100, fixed points over 800 years, all constants; of date and J2000", m.size() * 2, [](u64 i, Ctx& c) { Dec x(i); double k = x.take(2) ? 2000 : 0; evp1(x.pick(m), k, c); });
    static VD mc_ = uniq(grid(15020, 88069, 800)), qf = uniq(q + generic(1600, 2400, 200) + VD{1e-9, -1e-9, -0.0, DBL_MIN} + litset(f, -100, 2400) + grid(1800, 2200, 401));
    domain("fast theory: equinoxes", "800 dates x 600+ equinoxes (zero, negative, tiny, historic)", mc_.size() * qf.size(), [](u64 i, Ctx& c) { Dec x(i); double k = x.pick(qf); evp1(x.pick(mc_), k, c); });
    static VD e = uniq(grid(15020, 88069, g_thorough ? 219147 : 24351) + generic(-300000, 400000, g_thorough ? 60000 : 5000) + around({51544.5, 15019.5, 0, 88069, 33282}, {0.5, 1, 1e-6, 1e-3}) + litset(g, -300000, 400000));
    domain("accurate theory: dates", "every third day 1900-2100, fixed points over 1900 years, all constants", e.size(), [](u64 i, Ctx& c) { epv1(e[i], c); });
}
