// Precession: IAU 1976, Simon et al. 1994, Bessel-Newcomb; precession applied to directions; combined with nutation.
#include "astro.h"
#include "slalib.h"
using namespace mc;
static L det3(const M3& a) { return a.m[0][0] * (a.m[1][1] * a.m[2][2] - a.m[1][2] * a.m[2][1]) - a.m[0][1] * (a.m[1][0] * a.m[2][2] - a.m[1][2] * a.m[2][0]) + a.m[0][2] * (a.m[1][0] * a.m[2][1] - a.m[1][1] * a.m[2][0]); }
static void mats(double e0, double e1, Ctx& c) {
    c.say("epochs %.17g %.17g", e0, e1);
    L sc = 1 + absL(e1 - e0) / 100 + powl((absL(e0 - 2000) + absL(e1 - e0)) / 10000, 4), tol = 3e-15L * sc; double m[3][3];
    struct { const char* n; void (*f)(double, double, double (*)[3]); M3 r; } k[] = {{"IAU 1976", sla::prec, prec_ref(e0, e1)}, {"long-term", sla::precl, precl_ref(e0, e1)}, {"Bessel-Newcomb", sla::prebn, prebn_ref(e0, e1)}};
    for (auto& q: k) {
        for (auto& r: m) for (double& x: r) x = -9;
        q.f(e0, e1, m); N(1); M3 M = m3(m);
        CHECK(mdiff(M, q.r) <= tol, "%s precession %.17g to %.17g differs by %.3Lg", q.n, e0, e1, mdiff(M, q.r));
        CHECK(mdiff(M * transp(M), ident()) <= 4e-15L && near(det3(M), 1, 4e-15L), "%s precession %.17g to %.17g is not a rotation", q.n, e0, e1);
        if (e0 == e1) CHECK(mdiff(M, ident()) == 0, "%s precession over no time at %.17g is not the identity", q.n, e0);
    }
    // documented accuracy: the IAU 1976 and long-term models agree closely in the modern era; there and back is no motion
    if (e0 > 1800 && e0 < 2200 && e1 > 1800 && e1 < 2200) {
        double a[3][3], b[3][3]; sla::prec(e0, e1, a); sla::precl(e0, e1, b); N(2);
        CHECK(mdiff(m3(a), m3(b)) <= 2.0L * AS, "the two modern precession models disagree over %.17g to %.17g", e0, e1);
        sla::prec(e1, e0, b); N(1);
        CHECK(mdiff(m3(a) * m3(b), ident()) <= 0.01L * AS, "precession %.17g to %.17g and back is not the identity", e0, e1);
    }
}
static void app(int sys, double e0, double e1, double a, double b, Ctx& c) {
    c.say("preces system %d epochs %.17g %.17g direction (%.17g,%.17g)", sys, e0, e1, a, b);
    sla::Spherical<double> p{a, b}; sla::preces(sla::Catalogue(sys), e0, e1, p); N(1);
    if (sys != sla::CAT_FK4 && sys != sla::CAT_FK5) { CHECK(p.s_a == -99 && p.s_b == -99, "system %d accepted: (%.17g,%.17g)", sys, p.s_a, p.s_b); return; }
    V3 e = (sys == sla::CAT_FK4 ? prebn_ref(e0, e1) : prec_ref(e0, e1)) * dirv(a, b);
    L tol = 4e-15L * (1 + absL(e1 - e0) / 100 + powl((absL(e0 - 2000) + absL(e1 - e0)) / 10000, 4)) + absL(a) * 1e-15L;
    CHECK(dir_ok(p.s_a, p.s_b, e, tol), "system %d precession of (%.17g,%.17g) from %.17g to %.17g: (%.17g,%.17g), off by %.3Lg", sys, a, b, e0, e1, p.s_a, p.s_b, angsep(dirv(p.s_a, p.s_b), e));
}
static void pn(double je, double mjd, Ctx& c) {
    c.say("epoch %.17g date %.17g", je, mjd); double m[3][3]; sla::prenut(je, mjd, m); N(1);
    M3 e = nutmat_ref(mjd) * prec_ref(je, epj_ref(mjd)); L d = mdiff(m3(m), e), T = absL((mjd - 51544.5L) / 36525) + absL(je - 2000) / 100;
    CHECK(d <= 4e-15L * (1 + T) * (1 + T), "precession-nutation from %.17g to MJD %.17g differs by %.3Lg", je, mjd, d);
}
void mc::define() {
    std::vector<std::string> f = {"prec.cc", "precl.cc", "prebn.cc", "preces.cc", "prenut.cc"};
    static VD e = uniq(grid(-2000, 6000, g_thorough ? 1601 : 321) + grid(1800, 2200, g_thorough ? 1001 : 201) + generic(1000, 3000, 150) + around({1850, 1875, 1900, 1950, 1984, 2000, 2050}, {1e-9, 1e-6, 1e-3, 1}) + litset(f, -1000, 10000));
    domain("epoch-pairs", "all ordered pairs of epochs -2000..6000 (plus every constant)", e.size() * e.size(), [](u64 i, Ctx& c) { mats(e[i % e.size()], e[i / e.size()], c); });
    VD ec = uniq(VD{1900, 1950, 2000, 1875, 2100} + generic(1500, 2500, 4)), et = {1950, 2000};
    VD ef = uniq(ec + grid(0, 4000, 401) + litset(f, -1000, 10000));
    static Star s = star({{ef, ec, et}, {ef, ec, {1875, 2050}}, lon_axis(f, 200), lat_axis(f, 200)}, true, 2000000);
    domain("directions", "both systems x epochs x direction, star product", s.total * 2, [](u64 i, Ctx& c) { double x[4]; s.get(i / 2, x); app(i % 2 ? sla::CAT_FK5 : sla::CAT_FK4, x[0], x[1], x[2], x[3], c); });
    domain("systems", "every catalogue constant (and out-of-range codes -2..12) x epochs x directions", 15 * 4 * 25, [](u64 i, Ctx& c) { Dec q(i); static VD ep = {1900, 1950, 2000, 2050}, lo = lon_tiny(), la = lat_tiny(); int sys = int(q.take(15)) - 2; double e0 = q.pick(ep), a = q.pick(lo), b = q.pick(la); if (sys < 0 || sys > 6) return; app(sys, e0, 1975, a, b, c); });
    static VD je = uniq(VD{2000, 1950, 1984, 1900, 2050, 1000} + generic(1800, 2200, 30) + litset(f, 0, 4000, 1, 60)), md = uniq(grid(15020, 88069, 400) + VD{51544.5, 0} + generic(-100000, 200000, 100) + litset(f, 0, 100000, 1, 60));
    domain("with-nutation", "epoch x date", je.size() * md.size(), [](u64 i, Ctx& c) { pn(je[i % je.size()], md[i / je.size()], c); });
}
