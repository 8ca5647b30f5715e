// Equatorial <-> horizon coordinates, zenith distance, parallactic angle.
#include "alpha.h"
#include "slalib.h"
using namespace mc;
static V3 hor(L h, L d, L p) { // north, east, up components
    return {sinl(d) * cosl(p) - cosl(h) * cosl(d) * sinl(p), -sinl(h) * cosl(d), cosl(h) * cosl(d) * cosl(p) + sinl(d) * sinl(p)};
}
static V3 equ(L A, L E, L p) { // HA/Dec as a vector (cos d cos h, cos d sin h, sin d)
    return {sinl(E) * cosl(p) - cosl(A) * cosl(E) * sinl(p), -sinl(A) * cosl(E), cosl(A) * cosl(E) * cosl(p) + sinl(E) * sinl(p)};
}
template<class T> static void fwd(const double* x, Ctx& c) {
    const bool dbl = sizeof(T) == 8; T h = T(x[0]), d = T(x[1]), p = T(x[2]), az = T(-9), el = T(-9);
    c.say("ha=%.17g dec=%.17g lat=%.17g", double(h), double(d), double(p));
    if constexpr (sizeof(T) == 8) sla::de2h({h, d}, p, az, el); else sla::e2h({h, d}, p, az, el);
    N(1);
    const L eps = dbl ? 4.8e-15L : 1.4e-06L; V3 v = hor(h, d, p); L r = hypotl(v.x, v.y);
    CHECK(az >= 0 && L(az) <= 2 * PI_L + eps / 3 && absL(el) <= PI_L / 2 + eps / 3, "ha=%.17g dec=%.17g lat=%.17g: az %.17g el %.17g out of range", double(h), double(d), double(p), double(az), double(el));
    CHECK(angsep(dirv(az, el), v) <= eps, "ha=%.17g dec=%.17g lat=%.17g: az %.17g el %.17g, off by %.3Lg", double(h), double(d), double(p), double(az), double(el), angsep(dirv(az, el), v));
    if (r > (dbl ? 2e-07L : 0.01L)) CHECK(absL(wrapL(az - atan2l(v.y, v.x))) <= eps / r, "ha=%.17g dec=%.17g lat=%.17g: azimuth %.17g, expected %.17Lg", double(h), double(d), double(p), double(az), atan2l(v.y, v.x));
    if (h == 0 && absL(d) <= 1.57L && v.x > 1e-3L) CHECK(az == 0, "ha=0 dec=%.17g lat=%.17g: due north is azimuth %.17g, not zero", double(d), double(p), double(az));
    // and back
    sla::Spherical<T> s; s.set_ha(T(-9)); s.set_dec(T(-9));
    if constexpr (sizeof(T) == 8) sla::dh2e(az, el, p, s); else sla::h2e(az, el, p, s);
    N(1);
    CHECK(absL(s.get_ha()) <= PI_L + eps / 3 && absL(s.get_dec()) <= PI_L / 2 + eps / 3, "az=%.17g el=%.17g lat=%.17g: ha %.17g dec %.17g out of range", double(az), double(el), double(p), double(s.get_ha()), double(s.get_dec()));
    CHECK(angsep(dirv(s.get_ha(), s.get_dec()), dirv(h, d)) <= 3 * eps, "round trip of ha=%.17g dec=%.17g at lat=%.17g gives ha=%.17g dec=%.17g", double(h), double(d), double(p), double(s.get_ha()), double(s.get_dec()));
}
template<class T> static void bwd(const double* x, Ctx& c) {
    const bool dbl = sizeof(T) == 8; T az = T(x[0]), el = T(x[1]), p = T(x[2]);
    c.say("az=%.17g el=%.17g lat=%.17g", double(az), double(el), double(p));
    sla::Spherical<T> s; s.set_ha(T(-9)); s.set_dec(T(-9));
    if constexpr (sizeof(T) == 8) sla::dh2e(az, el, p, s); else sla::h2e(az, el, p, s);
    N(1);
    const L eps = dbl ? 4.8e-15L : 1.4e-06L; V3 v = equ(az, el, p); L r = hypotl(v.x, v.y);
    CHECK(absL(s.get_ha()) <= PI_L + eps / 3 && absL(s.get_dec()) <= PI_L / 2 + eps / 3, "az=%.17g el=%.17g lat=%.17g: ha %.17g dec %.17g out of range", double(az), double(el), double(p), double(s.get_ha()), double(s.get_dec()));
    CHECK(angsep(dirv(s.get_ha(), s.get_dec()), v) <= eps, "az=%.17g el=%.17g lat=%.17g: ha %.17g dec %.17g", double(az), double(el), double(p), double(s.get_ha()), double(s.get_dec()));
    if (r > (dbl ? 2e-07L : 0.01L)) CHECK(absL(wrapL(s.get_ha() - atan2l(v.y, v.x))) <= eps / r, "az=%.17g el=%.17g lat=%.17g: hour angle %.17g", double(az), double(el), double(p), double(s.get_ha()));
}
static void zdpa(const double* x, Ctx& c) {
    double h = x[0], d = x[1], p = x[2]; c.say("zd/pa ha=%.17g dec=%.17g lat=%.17g", h, d, p);
    double z = sla::zd({h, d}, p), q = sla::pa({h, d}, p); N(2);
    V3 v = hor(h, d, p); L ez = atan2l(hypotl(v.x, v.y), v.z);
    CHECK(z >= 0 && z <= PI && near(z, ez, 4e-15L), "zenith distance at ha=%.17g dec=%.17g lat=%.17g: %.17g, expected %.17Lg", h, d, p, z, ez);
    L s = cosl(p) * sinl(h), k = sinl(p) * cosl(d) - cosl(p) * sinl(d) * cosl(h), r = hypotl(s, k);
    CHECK(q >= -PI && q <= PI, "parallactic angle at ha=%.17g dec=%.17g lat=%.17g: %.17g", h, d, p, q);
    if (h == 0 && d == p) CHECK(q == 0, "parallactic angle at the zenith, lat=%.17g: %.17g, documented as zero", p, q);
    if (r > 1e-9L) CHECK(absL(wrapL(q - atan2l(s, k))) <= 6e-15L / r, "parallactic angle at ha=%.17g dec=%.17g lat=%.17g: %.17g, expected %.17Lg", h, d, p, q, atan2l(s, k));
}
void mc::define() {
    std::vector<std::string> f = {"e2h.cc", "de2h.cc", "h2e.cc", "dh2e.cc", "zd.cc", "pa.cc"};
    auto ax = [&](bool lon) { Axis a = lon ? lon_axis(f, 300) : lat_axis(f, 300); a.coarse = uniq(a.coarse + (lon ? generic(-3, 6, 20) : generic(-1.57, 1.57, 20))); a.fine = uniq(a.fine + (lon ? VD{30, -45.5} : VD{2.0, -2.5})); return a; };
    static Star s = star({ax(true), ax(false), ax(false)});
    domain("to-horizon", "hour angle x declination x latitude (poles, zenith, meridian, generic), there and back, both precisions", s.total, [](u64 i, Ctx& c) { double x[3]; s.get(i, x); fwd<double>(x, c); if (!c.failed) fwd<float>(x, c); });
    domain("to-equatorial", "azimuth x elevation x latitude, both precisions", s.total, [](u64 i, Ctx& c) { double x[3]; s.get(i, x); bwd<double>(x, c); if (!c.failed) bwd<float>(x, c); });
    domain("zd-pa", "hour angle x declination x latitude", s.total, [](u64 i, Ctx& c) { double x[3]; s.get(i, x); zdpa(x, c); });
    // stars passing through or close to the zenith
    static VD la = uniq(generic(-1.57, 1.57, 60) + VD{0, PI / 2, -PI / 2}), off = {0, 1e-15, 1e-12, 1e-9, 1e-6, 1e-3, -1e-12, -1e-6, -1e-3};
    domain("zenith", "declination within 1e-15..1e-3 of the latitude, hour angle likewise of zero", la.size() * off.size() * off.size(), [](u64 i, Ctx& c) { Dec q(i); double p = q.pick(la), x[3] = {q.pick(off), p + q.pick(off), p}; fwd<double>(x, c); if (!c.failed) fwd<float>(x, c); if (!c.failed) zdpa(x, c); });
    domain("zenith-back", "elevation within 1e-15..1e-3 of the pole altitude, azimuth likewise of zero", la.size() * off.size() * off.size(), [](u64 i, Ctx& c) { Dec q(i); double p = q.pick(la), x[3] = {q.pick(off), p + q.pick(off), p}; bwd<double>(x, c); if (!c.failed) bwd<float>(x, c); });
}
