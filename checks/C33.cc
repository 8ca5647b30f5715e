// Radial velocity components: Earth rotation, Galactic rotation, Local Group, two Local Standards of Rest.
#include "astro.h"
#include "slalib.h"
using namespace mc;
struct Fn { const char* name; float (*f)(const sla::Spherical<float>&); V3 v; L speed, ra, dec; };
static const Fn FN[4] = { // direction to the apex of the motion, from the published solutions
    {"rvgalc", sla::rvgalc, {-108.70408L, 97.86251L, -164.33610L}, 220.0L, (21 + 12 / 60.0L + 1.1L / 3600) * PI_L / 12, (48 + 19 / 60.0L + 47 / 3600.0L) * PI_L / 180},
    {"rvlg", sla::rvlg, {-148.23284L, 133.44888L, -224.09467L}, 300.0L, (21 + 12 / 60.0L + 1.1L / 3600) * PI_L / 12, (48 + 19 / 60.0L + 47 / 3600.0L) * PI_L / 180},
    {"rvlsrd", sla::rvlsrd, {0.63823L, 14.58542L, -7.80116L}, 16.55294536L, (17 + 49 / 60.0L + 58.7L / 3600) * PI_L / 12, (28 + 7 / 60.0L + 4 / 3600.0L) * PI_L / 180},
    {"rvlsrk", sla::rvlsrk, {-0.29000L, 17.31726L, -10.00141L}, 20.0L, 0, 0}};
static void comp(double a, double b, Ctx& c) {
    float fa = float(a), fb = float(b); c.say("direction (%.9g,%.9g)", fa, fb); V3 s = dirv(fa, fb);
    for (auto& q: FN) {
        float g = q.f({fa, fb}); N(1); L e = dot(q.v, s), tol = 4e-7L * q.speed;
        CHECK(near(g, e, tol), "%s(%.9g,%.9g) = %.9g km/s, expected %.9Lg", q.name, fa, fb, g, e);
        if (q.dec != 0) { L k = -q.speed * dot(dirv(q.ra, q.dec), s); CHECK(near(g, k, q.speed * 1e-5L), "%s(%.9g,%.9g) = %.9g km/s, but the motion of %.4Lg km/s toward the apex gives %.9Lg", q.name, fa, fb, g, q.speed, k); }
        // receding in one direction is approaching in the opposite one
        float h = q.f({fa, -fb}), h2 = q.f({float(fa + PI), -fb}); N(2); (void) h;
        if (absL(fa) < 7) CHECK(near(h2, -e, 1.2e-6L * q.speed), "%s at the point opposite to (%.9g,%.9g): %.9g km/s, expected %.9Lg", q.name, fa, fb, h2, -e);
    }
}
static void erot(double p, double a, double b, double t, Ctx& c) {
    float fp = float(p), fa = float(a), fb = float(b), ft = float(t); c.say("latitude %.9g direction (%.9g,%.9g) sidereal time %.9g", fp, fa, fb, ft);
    float g = sla::rverot(fp, {fa, fb}, ft); N(1); L e = 0.4655L * cosl(fp) * sinl(L(ft) - fa) * cosl(fb);
    CHECK(near(g, e, 2e-7L + 0.4655L * 6e-8L * (absL(fa) + absL(ft))), "Earth rotation velocity at latitude %.9g toward (%.9g,%.9g), sidereal time %.9g: %.9g km/s, expected %.9Lg", fp, fa, fb, ft, g, e);
}
void mc::define() {
    std::vector<std::string> f = {"rvgalc.cc", "rvlg.cc", "rvlsrd.cc", "rvlsrk.cc", "rverot.cc"};
    static VD a = lon_axis(f, 400).fine, b = lat_axis(f, g_thorough ? 100 : 200).fine;
    domain("directions", "all pairs of longitude and latitude values, four solutions, and the opposite points", a.size() * b.size(), [](u64 i, Ctx& c) { Dec x(i); double p = x.pick(a); comp(p, x.pick(b), c); });
    static Star s = star({lat_axis(f, 60), lon_axis(f, 60), lat_axis(f, 60), lon_axis(f, 60)});
    domain("earth rotation", "latitude x direction x sidereal time, star product", s.total, [](u64 i, Ctx& c) { double x[4]; s.get(i, x); erot(x[0], x[1], x[2], x[3], c); });
}
