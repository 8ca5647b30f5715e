// Nutation (two theories), obliquity, ecliptic frame, equation of the equinoxes.
#include "astro.h"
#include "slalib.h"
using namespace mc;
static void nuts(double d, Ctx& c) {
    c.say("date %.17g", d);
    L T = absL((d - 51544.5L) / 36525), sc = (1 + T) * (1 + T);
    L p, e, e0; nut_ref(d, p, e, e0);
    double q[3] = {-9, -9, -9}; sla::nutc(d, q[0], q[1], q[2]); N(1);
    const L tol = 1e-9L * AS * sc;
    CHECK(near(q[0], p, tol) && near(q[1], e, tol) && near(q[2], e0, 2e-16L * sc), "nutation (SF2001) at MJD %.17g: psi %.17g eps %.17g eps0 %.17g, expected %.17Lg %.17Lg %.17Lg", d, q[0], q[1], q[2], p, e, e0);
    double m[3][3]; sla::nut(d, m); N(1);
    CHECK(mdiff(m3(m), nutmat_ref(d)) <= 2e-15L + tol, "nutation matrix at MJD %.17g differs by %.3Lg", d, mdiff(m3(m), nutmat_ref(d)));
    L om = (450160.280L - (5 * 1296000.0L + 482890.539L) * ((d - 51544.5L) / 36525) + 7.455L * powl((d - 51544.5L) / 36525, 2) + 0.008L * powl((d - 51544.5L) / 36525, 3)) * AS;
    L ee = p * cosl(e0) + (0.00264L * sinl(om) + 0.000063L * sinl(2 * om)) * AS; double g = sla::eqeqx(d); N(1);
    CHECK(near(g, ee, tol), "equation of the equinoxes at MJD %.17g: %.17g, expected %.17Lg", d, g, ee);
    L p8, e8; nut80_ref(d, p8, e8); double r[3] = {-9, -9, -9}; sla::nutc80(d, r[0], r[1], r[2]); N(1);
    CHECK(near(r[0], p8, tol * 10) && near(r[1], e8, tol * 10) && near(r[2], obl80(d), 2e-16L * sc), "nutation (IAU 1980) at MJD %.17g: psi %.17g eps %.17g eps0 %.17g, expected %.17Lg %.17Lg %.17Lg", d, r[0], r[1], r[2], p8, e8, obl80(d));
    sla::ecmat(d, m); N(1);
    CHECK(mdiff(m3(m), rot(0, obl80(d))) <= 6e-16L * sc, "equatorial to ecliptic matrix at MJD %.17g differs by %.3Lg", d, mdiff(m3(m), rot(0, obl80(d))));
    // the two theories agree to 350 mas in 1900-2100 as documented
    if (d > 15020 && d < 88069) CHECK(absL(q[0] - r[0]) <= 0.36L * AS && absL(q[1] - r[1]) <= 0.36L * AS, "the two nutation theories disagree at MJD %.17g", d);
}
static void ecl(double a, double b, double d, Ctx& c) {
    c.say("direction (%.17g,%.17g) date %.17g", a, b, d);
    L T = absL((d - 51544.5L) / 36525), tol = 4e-15L * (1 + T) + 1e-15L * absL(a);
    M3 m = rot(0, obl80(d)) * prec_ref(2000, epj_ref(d)); V3 v = dirv(a, b);
    sla::Spherical<double> o, r; o.s_a = o.s_b = r.s_a = r.s_b = -9; sla::eqecl({a, b}, d, o); sla::ecleq({a, b}, d, r); N(2);
    CHECK(dir_ok(o.s_a, o.s_b, m * v, tol), "equatorial (%.17g,%.17g) to ecliptic at MJD %.17g: (%.17g,%.17g), off by %.3Lg", a, b, d, o.s_a, o.s_b, angsep(dirv(o.s_a, o.s_b), m * v));
    CHECK(dir_ok(r.s_a, r.s_b, transp(m) * v, tol), "ecliptic (%.17g,%.17g) at MJD %.17g to equatorial: (%.17g,%.17g), off by %.3Lg", a, b, d, r.s_a, r.s_b, angsep(dirv(r.s_a, r.s_b), transp(m) * v));
    sla::ecleq(o, d, r); N(1);
    CHECK(dir_ok(r.s_a, r.s_b, v, 2 * tol), "equatorial (%.17g,%.17g) to ecliptic and back at MJD %.17g: (%.17g,%.17g)", a, b, d, r.s_a, r.s_b);
}
void mc::define() {
    std::vector<std::string> f = {"nutc.cc", "nutc80.cc", "nut.cc", "eqeqx.cc", "ecmat.cc", "eqecl.cc", "ecleq.cc"};
    static VD d = uniq(grid(15020, 88069, g_thorough ? 400000 : 20001) + generic(-300000, 400000, g_thorough ? 50000 : 4000) + around({51544.5, 0, 15020, 33282, 50000, 88069, 51544}, {0.5, 1, 1e-6}) + litset(f, -200000, 300000) + VD{51544.5 + 36525, 51544.5 - 36525});
    domain("dates", "every 3.65 days 1900-2100, fixed points over 2000 years, all constants", d.size(), [](u64 i, Ctx& c) { nuts(d[i], c); });
    VD dc = uniq(VD{51544.5, 33282, 15020, 88069, 0, -300000, 200000} + generic(15020, 88069, 12)), df = uniq(dc + generic(-400000, 400000, 800) + grid(10000, 90000, 801) + litset(f, -400000, 400000));
    static Star s = star({lon_axis(f, 200), lat_axis(f, 200), {df, dc, {51544.5, 40000, 70000}}});
    domain("directions", "direction x date, star product, both ways and round trip", s.total, [](u64 i, Ctx& c) { double x[3]; s.get(i, x); ecl(x[0], x[1], x[2], c); });
}
