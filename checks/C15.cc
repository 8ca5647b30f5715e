// Altazimuth mount: position, velocity and acceleration of azimuth, elevation and parallactic angle.
#include "alpha.h"
#include "slalib.h"
using namespace mc;
struct J { L v, d, a; }; // value and derivatives with respect to hour angle
static J lin(L k0, L kc, L ks, L h) { L s = sinl(h), c = cosl(h); return {k0 + kc * c + ks * s, -kc * s + ks * c, -kc * c - ks * s}; }
static J atan2J(J y, J x) { L r2 = x.v * x.v + y.v * y.v, n = x.v * y.d - y.v * x.d; return {atan2l(y.v, x.v), n / r2, (x.v * y.a - y.v * x.a) / r2 - 2 * (x.v * x.d + y.v * y.d) * n / (r2 * r2)}; }
static void one(const double* q, Ctx& c) {
    L h = q[0], d = q[1], p = q[2];
    c.say("ha=%.17g dec=%.17g lat=%.17g", q[0], q[1], q[2]);
    sla::AltazMount m; memset(&m, 0xff, sizeof m); sla::altaz({q[0], q[1]}, q[2], m); N(1);
    J x = lin(sinl(d) * cosl(p), -cosl(d) * sinl(p), 0, h), y = lin(0, 0, -cosl(d), h), z = lin(sinl(d) * sinl(p), cosl(d) * cosl(p), 0, h);
    L r = hypotl(x.v, y.v), az = m.get_azimuth(), el = m.get_elevation(), pa = m.get_pangle();
    L all[9] = {az, el, pa, m.get_az_velocity(), m.get_el_velocity(), m.get_pa_velocity(), m.get_az_acceleration(), m.get_el_acceleration(), m.get_pa_acceleration()};
    for (L e: all) CHECK(fin(double(e)), "ha=%.17g dec=%.17g lat=%.17g: a result is not finite", q[0], q[1], q[2]);
    CHECK(az >= 0 && az <= 2 * PI_L + 4e-15L && absL(el) <= PI_L / 2 + 4e-15L, "ha=%.17g dec=%.17g lat=%.17g: az %.17Lg el %.17Lg out of range", q[0], q[1], q[2], az, el);
    CHECK(angsep(dirv(az, el), V3{x.v, y.v, z.v}) <= 4.8e-15L, "ha=%.17g dec=%.17g lat=%.17g: az %.17Lg el %.17Lg wrong", q[0], q[1], q[2], az, el);
    J ps = lin(0, 0, cosl(p), h), pc = lin(cosl(d) * sinl(p), -sinl(d) * cosl(p), 0, h); L pr = hypotl(ps.v, pc.v);
    if (pr > 1e-9L) { CHECK(absL(pa) <= PI_L + 4e-15L, "parallactic angle %.17Lg out of range", pa); CHECK(absL(wrapL(pa - atan2l(ps.v, pc.v))) <= 8e-15L / pr, "ha=%.17g dec=%.17g lat=%.17g: parallactic angle %.17Lg, expected %.17Lg", q[0], q[1], q[2], pa, atan2l(ps.v, pc.v)); }
    if (r < 1e-11L) return; // rates are clamped or dominated by rounding there
    J A = atan2J(y, x), P = atan2J(ps, pc); L ed = z.d / r, ea = z.a / r + z.v * z.d * z.d / (r * r * r);
    L tv = 1.2e-14L * (1 + 1 / (r * r)), ta = 3.2e-14L * (1 + 1 / (r * r * r));
    CHECK(absL(wrapL(az - A.v)) <= 6e-15L / r, "ha=%.17g dec=%.17g lat=%.17g: azimuth %.17Lg, expected %.17Lg", q[0], q[1], q[2], az, A.v);
    CHECK(near(all[3], A.d, tv), "ha=%.17g dec=%.17g lat=%.17g: azimuth velocity %.17Lg, expected %.17Lg", q[0], q[1], q[2], all[3], A.d);
    CHECK(near(all[4], ed, tv), "ha=%.17g dec=%.17g lat=%.17g: elevation velocity %.17Lg, expected %.17Lg", q[0], q[1], q[2], all[4], ed);
    CHECK(near(all[6], A.a, ta), "ha=%.17g dec=%.17g lat=%.17g: azimuth acceleration %.17Lg, expected %.17Lg", q[0], q[1], q[2], all[6], A.a);
    CHECK(near(all[7], ea, ta), "ha=%.17g dec=%.17g lat=%.17g: elevation acceleration %.17Lg, expected %.17Lg", q[0], q[1], q[2], all[7], ea);
    if (pr > 1e-11L) {
        CHECK(near(all[5], P.d, tv), "ha=%.17g dec=%.17g lat=%.17g: parallactic angle velocity %.17Lg, expected %.17Lg", q[0], q[1], q[2], all[5], P.d);
        CHECK(near(all[8], P.a, ta), "ha=%.17g dec=%.17g lat=%.17g: parallactic angle acceleration %.17Lg, expected %.17Lg", q[0], q[1], q[2], all[8], P.a);
    }
}
void mc::define() {
    std::vector<std::string> f = {"altaz.cc"};
    auto ax = [&](bool lon) { Axis a = lon ? lon_axis(f, 500) : lat_axis(f, 500); a.coarse = uniq(a.coarse + (lon ? generic(-3, 6, 30) : generic(-1.57, 1.57, 30))); return a; };
    static Star s = star({ax(true), ax(false), ax(false)});
    domain("mount", "hour angle x declination x latitude (poles, zenith, meridian, generic)", s.total, [](u64 i, Ctx& c) { double x[3]; s.get(i, x); one(x, c); });
    static VD la = uniq(generic(-1.57, 1.57, 80) + VD{0, PI / 2, -PI / 2}), off = {0, 1e-15, 1e-12, 1e-9, 3e-8, 1e-6, 3e-5, 1e-4, 1e-3, 1e-2, -1e-12, -1e-10, -1e-7, -1e-6, -1e-4, -1e-3, -1e-2};
    domain("zenith", "declination close to the latitude (or opposite), hour angle close to 0 or pi", la.size() * off.size() * off.size() * 4, [](u64 i, Ctx& c) { Dec q(i); int k = int(q.take(4)); double p = q.pick(la), x[3] = {q.pick(off) + (k & 1 ? PI : 0), (k & 2 ? -p : p) + q.pick(off), p}; one(x, c); });
}
