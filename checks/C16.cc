// Hour angle for a given azimuth / parallactic angle: every reported solution is one, and no solution is missed.
#include "alpha.h"
#include "slalib.h"
using namespace mc;
struct R { L v, rate, size; };
static R az_of(L h, L d, L p) { L x = sinl(d) * cosl(p) - cosl(h) * cosl(d) * sinl(p), y = -sinl(h) * cosl(d), xd = sinl(h) * cosl(d) * sinl(p), yd = -cosl(h) * cosl(d), r2 = x * x + y * y; return {atan2l(y, x), (x * yd - y * xd) / r2, sqrtl(r2)}; }
static R pa_of(L h, L d, L p) { L s = cosl(p) * sinl(h), k = sinl(p) * cosl(d) - cosl(p) * sinl(d) * cosl(h), sd = cosl(p) * cosl(h), kd = cosl(p) * sinl(d) * sinl(h), r2 = s * s + k * k; return {atan2l(s, k), (k * sd - s * kd) / r2, sqrtl(r2)}; }
static void sols(bool pq, double p, double d, double a, double h[2], bool ok[2], Ctx& c) {
    h[0] = h[1] = -99; ok[0] = ok[1] = false;
    if (pq) sla::pdq2h(p, d, a, h[0], ok[0], h[1], ok[1]); else sla::pda2h(p, d, a, h[0], ok[0], h[1], ok[1]);
    N(1);
}
static const char* nm(bool pq) { return pq ? "parallactic angle" : "azimuth"; }
// every reported solution reproduces the angle
static void sound(bool pq, double p, double d, double a, Ctx& c) {
    c.say("%s: lat=%.17g dec=%.17g angle=%.17g", nm(pq), p, d, a);
    double h[2]; bool ok[2]; sols(pq, p, d, a, h, ok, c);
    for (int k = 0; k < 2; k++) if (ok[k]) {
        CHECK(fin(h[k]) && std::fabs(h[k]) <= PI, "%s, lat=%.17g dec=%.17g angle=%.17g: solution %d is %.17g", nm(pq), p, d, a, k + 1, h[k]);
        R r = pq ? pa_of(h[k], d, p) : az_of(h[k], d, p);
        // arguments are nudged by up to 1e-12 away from critical values; where the geometry is degenerate nothing is claimed
        if (r.size < 1e-3L) continue;
        L tol = 5e-12L / (r.size * r.size) + 1e-13L + sqrtl(absL(cosl(pq ? d : p))) * 0;
        // near a turning point of the angle the solution is only good to sqrt(eps) but the angle itself is good
        CHECK(absL(wrapL(r.v - a)) <= tol, "%s, lat=%.17g dec=%.17g angle=%.17g: reported hour angle %.17g gives angle %.17Lg", nm(pq), p, d, a, h[k], r.v);
    }
}
// an hour angle that has the angle is among the reported ones
static void complete(bool pq, double p, double d, double h0, Ctx& c) {
    R r = pq ? pa_of(h0, d, p) : az_of(h0, d, p);
    double a = double(r.v);
    c.say("%s: lat=%.17g dec=%.17g from hour angle %.17g angle=%.17g", nm(pq), p, d, h0, a);
    sound(pq, p, d, a, c); if (c.failed) return;
    if (r.size < 1e-2L || absL(r.rate) < 1e-2L) return; // degenerate geometry or a turning point
    // on the meridian the sign rule that selects solutions is undefined to within the 1e-12 nudge
    if (std::fabs(sin(h0)) < 1e-9 || std::fabs(sin(a)) < 1e-9) return;
    double h[2]; bool ok[2]; sols(pq, p, d, a, h, ok, c);
    L tol = (1e-11L / (r.size * r.size)) / absL(r.rate) + 1e-12L; bool hit = false;
    for (int k = 0; k < 2; k++) if (ok[k] && absL(wrapL(L(h[k]) - h0)) <= tol) hit = true;
    CHECK(hit, "%s, lat=%.17g dec=%.17g: hour angle %.17g has angle %.17g but the solutions are %.17g(%d) %.17g(%d)", nm(pq), p, d, h0, a, h[0], ok[0], h[1], ok[1]);
}
void mc::define() {
    std::vector<std::string> f = {"pda2h.cc", "pdq2h.cc"};
    VD lf = uniq(clip(around({0.0, PI / 2, -PI / 2}, {1e-13, 1e-12, 2e-12, 1e-11, 1e-9, 1e-6, 1e-3}) + generic(-PI / 2, PI / 2, 150) + lit_angles(f, -PI / 2, PI / 2, 100), -PI / 2, PI / 2)), lc = uniq(VD{0, PI / 2, -PI / 2, 0.5, -0.5, 1e-12} + generic(-1.5, 1.5, 30)), lt = {0.7, -0.3, 0.0, 1.2};
    VD af = uniq(lon_fine(150) + lit_angles(f, -7, 7, 100) + around({0.0, PI, -PI}, {1e-13, 1e-12, 2e-12, 1e-11})), ac = uniq(lon_coarse() + generic(-3, 3, 40)), at = {0.4, -2.0, 2.8, -0.9};
    for (int pq = 0; pq < 2; pq++) {
        static Star s = star({{lf, lc, lt}, {lf, lc, lt}, {af, ac, at}});
        std::string n = pq ? "parallactic" : "azimuth";
        domain(n + "/sound", "latitude x declination x angle", s.total, [=](u64 i, Ctx& c) { double x[3]; s.get(i, x); sound(pq, x[0], x[1], x[2], c); });
        domain(n + "/complete", "latitude x declination x hour angle (the angle computed from it)", s.total, [=](u64 i, Ctx& c) { double x[3]; s.get(i, x); complete(pq, x[0], x[1], double(wrapL(x[2])), c); });
        static VD L1 = uniq(generic(-1.55, 1.55, g_thorough ? 120 : 50)), H = uniq(generic(-PI, PI, g_thorough ? 400 : 150));
        domain(n + "/grid", "dense latitude x declination x hour angle", L1.size() * L1.size() * H.size(), [=](u64 i, Ctx& c) { Dec q(i); double p = q.pick(L1), d = q.pick(L1); complete(pq, p, d, q.pick(H), c); });
        // declination equal or opposite to latitude
        domain(n + "/equal", "declination = +-latitude", L1.size() * 2 * H.size(), [=](u64 i, Ctx& c) { Dec q(i); double p = q.pick(L1); int k = int(q.take(2)); complete(pq, p, k ? p : -p, q.pick(H), c); });
    }
}
