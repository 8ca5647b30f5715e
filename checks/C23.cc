// Observer: geocentric position, velocity, polar motion.
#include "astro.h"
#include "slalib.h"
using namespace mc;
static const L AE = 6378140.0L, FL = 1 / 298.257L, AU = 1.49597870e11L, RATE = 7.292115855306589e-5L;
static void geo(double phi, double h, double lst, Ctx& c) {
    c.say("latitude %.17g height %.17g lst %.17g", phi, h, lst);
    // spheroid: x = N cos phi, z = N (1-e2) sin phi, N = a / sqrt(1 - e2 sin^2 phi)
    L e2 = FL * (2 - FL), n = AE / sqrtl(1 - e2 * sinl(phi) * sinl(phi)), r = (n + h) * cosl(phi) / AU, z = (n * (1 - e2) + h) * sinl(phi) / AU, sc = (AE + absL(h)) / AU;
    double a = -9, b = -9; sla::geoc(phi, h, a, b); N(1);
    CHECK(near(a, r, 4e-15L * sc) && near(b, z, 4e-15L * sc), "latitude %.17g height %.17g: axis %.17g plane %.17g AU, expected %.17Lg %.17Lg", phi, h, a, b, r, z);
    sla::VectorPV<double> pv; sla::pvobs(phi, h, lst, pv); N(1);
    V3 p = {r * cosl(lst), r * sinl(lst), z}, v = {-RATE * r * sinl(lst), RATE * r * cosl(lst), 0};
    CHECK(vdiff(v3(pv.get_position()), p) <= 5e-15L * sc, "latitude %.17g height %.17g lst %.17g: position (%.17g,%.17g,%.17g)", phi, h, lst, pv.get_x(), pv.get_y(), pv.get_z());
    CHECK(vdiff(v3(pv.get_velocity()), v) <= 5e-15L * sc * RATE && pv.get_dz() == 0, "latitude %.17g height %.17g lst %.17g: velocity (%.17g,%.17g,%.17g)", phi, h, lst, pv.get_dx(), pv.get_dy(), pv.get_dz());
}
static void pol(double lo, double la, double x, double y, Ctx& c) {
    c.say("site (%.17g,%.17g) pole (%.17g,%.17g)", lo, la, x, y);
    double tl = -9, tp = -9, az = -9; sla::polmo(lo, la, x, y, tl, tp, az); N(1);
    CHECK(fin(tl) && fin(tp) && fin(az), "site (%.17g,%.17g) pole (%.17g,%.17g): (%.17g,%.17g) azimuth %.17g not finite", lo, la, x, y, tl, tp, az);
    CHECK(std::fabs(tl) <= PI && std::fabs(tp) <= PI / 2 && std::fabs(az) <= PI, "site (%.17g,%.17g) pole (%.17g,%.17g): (%.17g,%.17g) azimuth %.17g out of range", lo, la, x, y, tl, tp, az);
    // frame rotation: about x by +y_pm (pole towards 270 deg), then about y by +x_pm (pole towards 0 deg)
    M3 m = rot(1, x) * rot(0, y); V3 s = m * dirv(lo, la), n = m * V3{0, 0, 1};
    CHECK(angsep(dirv(tl, tp), s) <= 3e-15L + absL(lo) * 1e-15L, "site (%.17g,%.17g) pole (%.17g,%.17g): true place (%.17g,%.17g), off by %.3Lg", lo, la, x, y, tl, tp, angsep(dirv(tl, tp), s));
    L r = hypotl(s.x, s.y); if (r < 1e-9L) return;
    V3 E = {-s.y / r, s.x / r, 0}, Nn = cross(s, E); L e = dot(n, E), k = dot(n, Nn), q = hypotl(e, k);
    if (q < 1e-9L) return;
    CHECK(absL(wrapL(az + atan2l(e, k))) <= (3e-15L + absL(lo) * 1e-15L) / (q * r), "site (%.17g,%.17g) pole (%.17g,%.17g): azimuth correction %.17g, expected %.17Lg", lo, la, x, y, az, -atan2l(e, k));
    // the documented approximation for realistic polar motion
    if (hypotl(x, y) < 3e-6L && cosl(la) > 0.1L) CHECK(near(wrapL(tl - lo), (x * sinl(lo) + y * cosl(lo)) * tanl(la), 2e-11L * (1 + tanl(la) * tanl(la))) && near(tp - la, x * cosl(lo) - y * sinl(lo), 2e-11L * (1 + absL(tanl(la)))), "site (%.17g,%.17g) pole (%.17g,%.17g): (%.17g,%.17g) contradicts the first-order formulae", lo, la, x, y, tl, tp);
}
void mc::define() {
    std::vector<std::string> f = {"geoc.cc", "pvobs.cc", "polmo.cc"};
    VD hc = {0.0, 1000, -400, 4200, 1e6}, hf = uniq(hc + generic(-1000, 10000, 300) + VD{3.6e7, -6000, 1e-3} + litset(f, -1e4, 1e7));
    static Star s = star({lat_axis(f, 400), {hf, hc, {0, 2500}}, lon_axis(f, 400)});
    domain("observer", "latitude x height x sidereal time, star product", s.total, [](u64 i, Ctx& c) { double x[3]; s.get(i, x); geo(x[0], x[1], x[2], c); });
    VD pc = {0.0, 1e-6, -2e-6, 1.4e-6, 1e-3, -0.2, 1e-9}, pf = uniq(pc + generic(-3e-6, 3e-6, 100) + generic(-1, 1, 60) + VD{6.123233995736766e-17, 1e-15, -1e-15, 1e-12, 1e-20} + litset(f, -3, 3));
    static Star t = star({lon_axis(f, 250), lat_axis(f, 250), {pf, pc, {0, 1.5e-6}}, {pf, pc, {0, -1e-6}}});
    domain("polar-motion", "site x pole coordinates, star product", t.total, [](u64 i, Ctx& c) { double x[4]; t.get(i, x); pol(x[0], x[1], x[2], x[3], c); });
    static VD po = uniq(VD{0, 6.123233995736766e-17, -6.123233995736766e-17, 1.2246467991473532e-16, 1e-16, 1e-15, -1e-15, 1e-9, 1e-6, -1e-6}), pl = uniq(VD{0.0, PI / 2, -PI / 2, PI, -PI} + generic(-3, 3, 8));
    domain("poles", "sites at and next to the poles x small pole offsets (including ones that bring the site onto the true pole)", po.size() * po.size() * pl.size() * po.size() * 2, [](u64 i, Ctx& c) { Dec q(i); double x = q.pick(po), y = q.pick(po), lo = q.pick(pl), la = PI / 2 - std::fabs(q.pick(po)); if (q.take(2)) la = -la; pol(lo, la, x, y, c); });
}
