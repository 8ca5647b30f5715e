// E-terms of aberration and proper motion.
#include "astro.h"
#include "slalib.h"
using namespace mc;
static void et(double be, double a, double b, Ctx& c) {
    c.say("E-terms epoch %.17g direction (%.17g,%.17g)", be, a, b);
    double v[3] = {-9, -9, -9}; sla::etrms(be, v); N(1); V3 e = eterms_ref(be); L T = 1 + absL(be - 1950) / 100;
    CHECK(vdiff(v3(v), e) <= 1e-20L * T * T * T * 40, "E-terms vector at %.17g: (%.17g,%.17g,%.17g), expected (%.17Lg,%.17Lg,%.17Lg)", be, v[0], v[1], v[2], e.x, e.y, e.z);
    L tol = 3e-15L + absL(a) * 1e-15L; sla::Spherical<double> p, q, r; p.s_a = p.s_b = q.s_a = q.s_b = r.s_a = r.s_b = -9;
    sla::addet({a, b}, be, p); sla::subet({a, b}, be, q); sla::subet(p, be, r); N(3);
    CHECK(dir_ok(p.s_a, p.s_b, add_et(dirv(a, b), be), tol), "adding E-terms of %.17g to (%.17g,%.17g): (%.17g,%.17g), off by %.3Lg", be, a, b, p.s_a, p.s_b, angsep(dirv(p.s_a, p.s_b), add_et(dirv(a, b), be)));
    CHECK(dir_ok(q.s_a, q.s_b, sub_et(dirv(a, b), be), tol), "removing E-terms of %.17g from (%.17g,%.17g): (%.17g,%.17g), off by %.3Lg", be, a, b, q.s_a, q.s_b, angsep(dirv(q.s_a, q.s_b), sub_et(dirv(a, b), be)));
    L n = norm(e); CHECK(dir_ok(r.s_a, r.s_b, dirv(a, b), 2 * tol + 2 * n * n), "adding and removing E-terms of %.17g moves (%.17g,%.17g) to (%.17g,%.17g)", be, a, b, r.s_a, r.s_b);
}
static void pmo(const double* x, Ctx& c) { // ra dec pmra pmdec px rv ep0 ep1
    c.say("pm (%.9g,%.9g) motion (%.9g,%.9g) px %.9g rv %.9g %.9g->%.9g", x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7]);
    sla::Spherical<double> o; o.s_a = o.s_b = -9; sla::pm({x[0], x[1]}, {x[2], x[3]}, x[4], x[5], x[6], x[7], o); N(1);
    L a = x[0], d = x[1], t = L(x[7]) - x[6], w = 365.25L * 86400 / 149597870.0L * 4.8481368111e-6L * x[5] * x[4];
    V3 p = dirv(a, d), ea = {-sinl(a) * cosl(d), cosl(a) * cosl(d), 0}, ed = {-cosl(a) * sinl(d), -sinl(a) * sinl(d), cosl(d)};
    V3 m = L(x[2]) * ea + L(x[3]) * ed + w * p, v = p + t * m; L n = norm(v);
    if (n < 1e-6L) return;
    CHECK(dir_ok(o.s_a, o.s_b, v, 6e-15L * (1 + norm(m) * (absL(t) + 1e-3L * (absL(x[6]) + absL(x[7])))) / n + absL(a) * 1e-15L), "(%.17g,%.17g) motion (%.17g,%.17g) parallax %.17g velocity %.17g from %.17g to %.17g: (%.17g,%.17g), off by %.3Lg", x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], o.s_a, o.s_b, angsep(dirv(o.s_a, o.s_b), v));
}
void mc::define() {
    std::vector<std::string> f = {"etrms.cc", "addet.cc", "subet.cc", "pm.cc"};
    VD ec = uniq(VD{1950, 1900, 1875, 2000} + generic(1700, 2100, 8)), ef = uniq(ec + grid(1000, 3000, 801) + generic(1800, 2050, 400) + litset(f, -1000, 5000));
    static Star s = star({{ef, ec, {1950, 1875}}, lon_axis(f, 250), lat_axis(f, 250)});
    domain("e-terms", "epoch x direction, star product, add, remove, round trip", s.total, [](u64 i, Ctx& c) { double x[3]; s.get(i, x); et(x[0], x[1], x[2], c); });
    VD mc_ = {0.0, 1e-8, -1e-6, 3e-5, -2e-4}, mf = uniq(mc_ + generic(-1e-4, 1e-4, 200) + litset(f, -1e-3, 1e-3) + VD{1e-12, -1e-12, 0.01});
    VD pxc = {0.0, 0.01, 0.7, -0.001}, pxf = uniq(pxc + generic(0, 2, 150) + litset(f, -5, 5)), rvc = {0.0, 100, -300, 1e4}, rvf = uniq(rvc + generic(-500, 500, 150) + litset(f, -1000, 1000));
    VD epc = {1950, 2000, 1900, 2050.5}, epf = uniq(epc + grid(-2000, 4000, 301) + litset(f, -1000, 5000));
    static Star t = star({lon_axis(f, 250), lat_axis(f, 250), {mf, mc_, {0, 3e-5}}, {mf, mc_, {0, -2e-5}}, {pxf, pxc, {0, 0.5}}, {rvf, rvc, {0, -60}}, {epf, epc, {1950}}, {epf, epc, {2000, 1950}}}, true, 0);
    domain("proper-motion", "direction x motion x parallax x radial velocity x epochs, star and pair products", t.total, [](u64 i, Ctx& c) { double x[8]; t.get(i, x); pmo(x, c); });
}
