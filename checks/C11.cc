// Spherical <-> Cartesian, position and position+velocity, both precisions.
#include "alpha.h"
#include "slalib.h"
using namespace mc;
static void s2c(double a, double b, Ctx& c) {
    c.say("direction lon=%.17g lat=%.17g", a, b);
    double v[3]; sla::dcs2c({a, b}, v); N(1);
    V3 e = dirv(a, b); L t = 1.6e-15L + 2e-19L * absL(a);
    CHECK(vdiff(v3(v), e) <= t, "dcs2c(%.17g,%.17g) = (%.17g,%.17g,%.17g)", a, b, v[0], v[1], v[2]);
    float f[3], fa = float(a), fb = float(b); sla::cs2c({fa, fb}, f); N(1);
    CHECK(vdiff(v3(f), dirv(fa, fb)) <= 5e-07L, "cs2c(%.9g,%.9g) = (%.9g,%.9g,%.9g)", fa, fb, f[0], f[1], f[2]);
    sla::Spherical<double> s = {-9, -9}; sla::dcc2s(v, s); N(1);
    CHECK(angsep(dirv(s.get_longitude(), s.get_latitude()), e) <= 4e-15L + t, "round trip of (%.17g,%.17g) gives (%.17g,%.17g)", a, b, s.get_longitude(), s.get_latitude());
}
template<class T> static void c2s(T x, T y, T z, Ctx& c) {
    const bool dbl = sizeof(T) == 8; const L eps = dbl ? 4.4e-15L : 1.2e-06L;
    c.say("vector (%.17g,%.17g,%.17g)", double(x), double(y), double(z));
    T v[3] = {x, y, z}; sla::Spherical<T> s; s.set_longitude(T(-9)); s.set_latitude(T(-9));
    if constexpr (sizeof(T) == 8) sla::dcc2s(v, s); else sla::cc2s(v, s);
    N(1);
    L a = s.get_longitude(), b = s.get_latitude();
    CHECK(absL(a) <= PI_L + eps && absL(b) <= PI_L / 2 + eps, "(%.17g,%.17g,%.17g): coordinates (%.17Lg,%.17Lg) out of range", double(x), double(y), double(z), a, b);
    if (x == 0 && y == 0) CHECK(a == 0, "(%.17g,%.17g,%.17g): longitude at a pole is %.17Lg, not zero", double(x), double(y), double(z), a);
    if (x == 0 && y == 0 && z == 0) { CHECK(b == 0, "null vector: latitude %.17Lg", b); return; }
    L r = hypotl(x, y);
    L el = r == 0 ? 0 : atan2l(y, x), eb = atan2l(z, r);
    CHECK(absL(wrapL(a - el)) <= eps * 4 && near(b, eb, eps * 2), "(%.17g,%.17g,%.17g) -> (%.17Lg,%.17Lg), expected (%.17Lg,%.17Lg)", double(x), double(y), double(z), a, b, el, eb);
}
template<class T> static void pv(const double* q, Ctx& c) { // lon lat r dlon dlat dr
    const bool dbl = sizeof(T) == 8; const L eps = dbl ? 8e-15L : 1e-6L;
    T a = T(q[0]), b = T(q[1]), r = T(q[2]), da = T(q[3]), db = T(q[4]), dr = T(q[5]);
    c.say("pv lon=%.9g lat=%.9g r=%.9g rates %.9g %.9g %.9g", double(a), double(b), double(r), double(da), double(db), double(dr));
    sla::SphericalPV<T> s; s.set_longitude(a); s.set_latitude(b); s.set_dist(r); s.set_dlong(da); s.set_dlat(db); s.set_ddist(dr);
    sla::VectorPV<T> p;
    if constexpr (sizeof(T) == 8) sla::ds2c6(s, p); else sla::cs2c6(s, p);
    N(1);
    L ca = cosl(a), sa = sinl(a), cb = cosl(b), sb = sinl(b);
    V3 P = L(r) * V3{ca * cb, sa * cb, sb};
    V3 V = L(dr) * V3{ca * cb, sa * cb, sb} + (L(r) * da) * V3{-sa * cb, ca * cb, 0} + (L(r) * db) * V3{-ca * sb, -sa * sb, cb};
    L mp = absL(r), mv = absL(dr) + absL(r) * (absL(da) + absL(db));
    V3 p1 = {p.get_x(), p.get_y(), p.get_z()}, v1 = {p.get_dx(), p.get_dy(), p.get_dz()};
    CHECK(vdiff(p1, P) <= mp * eps && vdiff(v1, V) <= mv * eps * 2, "sph->cart pv lon=%.17g lat=%.17g r=%.17g rates %.17g %.17g %.17g: pos (%.9Lg,%.9Lg,%.9Lg) vel (%.9Lg,%.9Lg,%.9Lg), expected vel (%.9Lg,%.9Lg,%.9Lg)", double(a), double(b), double(r), double(da), double(db), double(dr), p1.x, p1.y, p1.z, v1.x, v1.y, v1.z, V.x, V.y, V.z);
}
template<class T> static void cpv(const double* q, Ctx& c) {
    const bool dbl = sizeof(T) == 8; const L eps = dbl ? 8e-15L : 1.5e-6L;
    T x = T(q[0]), y = T(q[1]), z = T(q[2]), u = T(q[3]), v = T(q[4]), w = T(q[5]);
    c.say("cart pv (%.9g %.9g %.9g) (%.9g %.9g %.9g)", double(x), double(y), double(z), double(u), double(v), double(w));
    T P[3] = {x, y, z}, V[3] = {u, v, w};
    sla::VectorPV<T> p(P, V); sla::SphericalPV<T> s;
    if constexpr (sizeof(T) == 8) sla::dc62s(p, s); else sla::cc62s(p, s);
    N(1);
    L a = s.get_longitude(), b = s.get_latitude(), r = s.get_dist(), da = s.get_dlong(), db = s.get_dlat(), dr = s.get_ddist();
    CHECK(fin(double(a)) && fin(double(b)) && fin(double(r)) && fin(double(da)) && fin(double(db)) && fin(double(dr)), "cart->sph pv (%.9g %.9g %.9g)(%.9g %.9g %.9g): not finite", double(x), double(y), double(z), double(u), double(v), double(w));
    L rxy2 = L(x) * x + L(y) * y, r2 = rxy2 + L(z) * z;
    L R = sqrtl(r2), rxy = sqrtl(rxy2), vm = sqrtl(L(u) * u + L(v) * v + L(w) * w);
    if (r2 == 0) { // leaving the origin: the direction is that of the velocity (how far out it is shown is open)
        if (vm == 0) { CHECK(a == 0 && b == 0 && r == 0 && da == 0 && db == 0 && dr == 0, "cart->sph pv: null vector gives %.9Lg %.9Lg %.9Lg rates %.9Lg %.9Lg %.9Lg", a, b, r, da, db, dr); return; }
        if (vm < (dbl ? 1e-140L : 1e-17L)) return;
        L vxy = hypotl(u, v);
        CHECK(near(b, atan2l(w, vxy), eps) && (u == 0 && v == 0 ? a == 0 : absL(wrapL(a - atan2l(v, u))) <= eps * 2), "cart->sph pv null position, velocity (%.9g %.9g %.9g): lon %.17Lg lat %.17Lg", double(u), double(v), double(w), a, b);
        CHECK(near(dr, vm, vm * eps * 2) && absL(da) <= eps && absL(db) <= eps, "cart->sph pv null position, velocity (%.9g %.9g %.9g): rates %.9Lg %.9Lg, radial %.17Lg", double(u), double(v), double(w), da, db, dr);
        return;
    }
    CHECK(near(r, R, R * eps) && near(b, atan2l(z, rxy), eps), "cart->sph pv (%.9g %.9g %.9g): distance %.17Lg lat %.17Lg", double(x), double(y), double(z), r, b);
    CHECK(near(dr, (L(x) * u + L(y) * v + L(z) * w) / R, vm * eps * 2), "cart->sph pv (%.9g %.9g %.9g)(%.9g %.9g %.9g): radial rate %.17Lg", double(x), double(y), double(z), double(u), double(v), double(w), dr);
    if (rxy2 == 0) { CHECK(a == 0 && da == 0 && db == 0, "cart->sph pv at the pole: lon %.9Lg, rates %.9Lg %.9Lg (expected zeros)", a, da, db); return; }
    CHECK(absL(wrapL(a - atan2l(y, x))) <= eps * 2, "cart->sph pv (%.9g %.9g %.9g): lon %.17Lg", double(x), double(y), double(z), a);
    L eda = (L(x) * v - L(y) * u) / rxy2, edb = (L(w) * rxy2 - L(z) * (L(x) * u + L(y) * v)) / (r2 * rxy);
    CHECK(near(da, eda, vm / rxy * eps * 2) && near(db, edb, vm / rxy * eps * 3), "cart->sph pv (%.9g %.9g %.9g)(%.9g %.9g %.9g): rates %.17Lg %.17Lg, expected %.17Lg %.17Lg", double(x), double(y), double(z), double(u), double(v), double(w), da, db, eda, edb);
}
void mc::define() {
    static std::vector<std::string> f1 = {"dcs2c.cc", "cs2c.cc", "dcc2s.cc", "cc2s.cc"}, f2 = {"ds2c6.cc", "cs2c6.cc", "dc62s.cc", "cc62s.cc"};
    static VD lo = lon_axis(f1, 700).fine, la = lat_axis(f1, 500).fine;
    domain("directions", "longitude alphabet x latitude alphabet, to Cartesian and back", lo.size() * la.size(), [](u64 i, Ctx& c) { Dec q(i); double a = q.pick(lo); s2c(a, q.pick(la), c); });
    static VD comp = uniq(VD{0.0, -0.0, 1, -1, 0.5, -0.3, 1e-10, -1e-10, 1e-17, 1e10, -1e10, 1e-100, -1e100, 3, 2, 1e-5, -1e5, 0.7071067811865476} + generic(-1, 1, 40) + litset(f1, -1e6, 1e6, 1, 40));
    domain("vectors", "all triples over the component alphabet (signed zeros, 1e-100..1e100, generic)", comp.size() * comp.size() * comp.size(), [](u64 i, Ctx& c) { Dec q(i); double x = q.pick(comp), y = q.pick(comp); c2s<double>(x, y, q.pick(comp), c); });
    static VF compf = tof(uniq(clip(comp, -1e12, 1e12)));
    for (float& f: compf) if (f != 0 && std::fabs(f) < 1e-15f) f = 1e-12f;
    domain("vectors-single", "all triples over the single precision component alphabet", compf.size() * compf.size() * compf.size(), [](u64 i, Ctx& c) { Dec q(i); float x = q.pick(compf), y = q.pick(compf); c2s<float>(x, y, q.pick(compf), c); });
    VD rates = uniq(VD{0, -0.0, 1, -1, 1e-7, -1e-7, 1e3} + generic(-2, 2, 30) + litset(f2, -100, 100, 1, 60)), tr = {0.0, 0.3, -1.7};
    VD dist = uniq(VD{0.0, 1, 1e-6, 1e6, 206265, -1} + generic(0, 10, 30) + litset(f2, -1000, 1000, 1, 60));
    static Star s = star({{lon_axis(f2, 150).fine, VD{0, PI, -2, 1, 4}, VD{0.0, 0.7, -2.5}}, {lat_axis(f2, 150).fine, VD{0, PI / 2, -PI / 2, 0.6, -1.1}, VD{0.0, 1.2, -0.4, PI / 2}}, {dist, VD{0, 1, 2.5, 1e5}, VD{1.0, 0.0, 3.5}}, {rates, VD{0, 1, -0.2, 30}, tr}, {rates, VD{0, 1, -0.2, 30}, tr}, {rates, VD{0, 1, -0.2, 30}, tr}});
    domain("pv", "spherical position/velocity star product (6 axes)", s.total, [](u64 i, Ctx& c) { double x[6]; s.get(i, x); pv<double>(x, c); if (!c.failed) pv<float>(x, c); });
    VD pc = uniq(VD{0.0, -0.0, 1, -1, 1e-4, -1e-4, 1e4} + generic(-2, 2, 40) + litset(f2, -1000, 1000, 1, 60)), pt = {0.0, 1.0, -0.6}, pm = {0.0, 1.0, -2.0, 0.3, 1e3};
    static Star t = star({{pc, pm, pt}, {pc, pm, pt}, {pc, pm, pt}, {pc, pm, pt}, {pc, pm, pt}, {pc, pm, pt}});
    domain("pv-cartesian", "Cartesian position/velocity star product (6 axes) incl. poles and null vectors", t.total, [](u64 i, Ctx& c) { double x[6]; t.get(i, x); cpv<double>(x, c); if (!c.failed) cpv<float>(x, c); });
}
