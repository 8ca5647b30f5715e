// Pincushion/barrel distortion and its removal.
#include "alpha.h"
#include "slalib.h"
using namespace mc;
static std::vector<L> roots(L c, L rp) { // real roots of r + c r^3 = rp, bisection on monotone pieces
    std::vector<L> r; auto f = [&](L x) { return x + c * x * x * x - rp; };
    L R = 2 * (rp + 1 / sqrtl(absL(c)) + cbrtl(rp / absL(c))), k = c < 0 ? 1 / sqrtl(-3 * c) : 0;
    std::vector<L> b = c < 0 ? std::vector<L>{-R, -k, k, R} : std::vector<L>{-R, R};
    for (size_t i = 0; i + 1 < b.size(); i++) { L lo = b[i], hi = b[i + 1]; if ((f(lo) > 0) == (f(hi) > 0)) continue; bool s = f(lo) > 0; for (int n = 0; n < 200; n++) { L m = (lo + hi) / 2; if ((f(m) > 0) == s) lo = m; else hi = m; } r.push_back((lo + hi) / 2); }
    return r;
}
// rounding error of the closed-form (difference of cube roots) solution for distorted radius rp
static L cub(L c, L rp) { L q = 1 / (3 * absL(c)), r = rp / (2 * absL(c)), t = q / cbrtl(2 * r); return std::min(3e-16L * r / (t * t), cbrtl(4e-16L * r)); }
static void one(double c0, double x, double y, Ctx& c) {
    c.say("disco %.17g (%.17g,%.17g)", c0, x, y);
    double a = x, b = y; sla::pcd(c0, a, b); N(1); L r2 = L(x) * x + L(y) * y, f = 1 + c0 * r2, fs = 1 + absL(c0 * r2);
    CHECK(near(a, x * f, 1e-15L * absL(x) * fs) && near(b, y * f, 1e-15L * absL(y) * fs), "disco %.17g (%.17g,%.17g): distorted (%.17g,%.17g), expected (%.17Lg,%.17Lg)", c0, x, y, a, b, x * f, y * f);
    // removal applied to the point itself
    double u = x, v = y; sla::unpcd(c0, u, v); N(1); L rp = sqrtl(r2);
    if (rp == 0 || c0 == 0) { CHECK(u == x && v == y, "disco %.17g (%.17g,%.17g): changed to (%.17g,%.17g)", c0, x, y, u, v); return; }
    L s = (u * L(x) + v * L(y)) / rp; // signed radial distance
    CHECK(fin(u) && fin(v) && near(u * L(y) - v * L(x), 0, 2e-15L * rp * (absL(s) + rp)), "disco %.17g (%.17g,%.17g): (%.17g,%.17g) not on the radius", c0, x, y, u, v);
    L q = 1 / sqrtl(absL(c0)), dr = absL(1 + 3 * c0 * s * s), ty = 6e-15L * (rp + q + absL(s) + absL(c0) * absL(s * s * s)) + 4 * cub(c0, rp); // tolerance in distorted radius / slope
    CHECK(near(s + c0 * s * s * s, rp, ty * (1 + 3 * absL(c0) * s * s) + 4e-15L * rp), "disco %.17g (%.17g,%.17g): undistorted radius %.17Lg distorts to %.17Lg, not %.17Lg", c0, x, y, s, s + c0 * s * s * s, rp);
    std::vector<L> rt = roots(c0, rp); L best = INFINITY; for (L z: rt) best = std::min(best, absL(z - rp));
    // at the radius where two solutions merge (and beyond which only the far one exists) rounding decides which side it is
    bool merge = c0 < 0 && near(rp * sqrtl(-3 * c0) * 1.5L, 1, 1e-14L);
    CHECK(merge || absL(s - rp) <= best * (1 + 1e-9L) + ty / std::max<L>(dr, 1e-6L) + 1e-7L * q * (dr < 1e-5L), "disco %.17g (%.17g,%.17g): undistorted radius %.17Lg moves the point more than another solution (%.17Lg)", c0, x, y, s, best);
    // round trip when the distortion is one-to-one in the neighbourhood: pcd then unpcd
    if (1 + 3 * c0 * r2 > 0.3L && (c0 > 0 || 8 * -c0 * r2 < 1)) { double p = x, w = y; sla::pcd(c0, p, w); sla::unpcd(c0, p, w); N(2); L t = 2e-14L * (rp + q) + 4 * cub(c0, rp * f); CHECK(near(p, x, t) && near(w, y, t), "disco %.17g (%.17g,%.17g): distorting and undistorting gives (%.17g,%.17g)", c0, x, y, p, w); }
}
void mc::define() {
    std::vector<std::string> f = {"pcd.cc", "unpcd.cc"};
    VD cs = {0, -0.0, -0.3333, 147.069, 178.585, 21.20, 13.32, 1, -1, 0.1, -0.01, 1e-6, -1e-6, 1e4, -50};
    VD xs = {0, -0.0, 1, -1, 0.5, 1e-3, -0.02, 2, 0.384900179459750509, 0.57735026918962576, 1e-8, 10};
    static Star s = star({{uniq(cs + generic(-2, 2, dens(60)) + generic(-200, 200, dens(60)) + litset(f, -300, 300)), uniq(cs + generic(-1, 1, 6)), {-0.3333, 21.2, 0.7, -5, 0}, litpair(f, -50, 50, false)},
        {uniq(xs + generic(-3, 3, dens(100)) + generic(-0.05, 0.05, dens(60)) + litset(f, -10, 10)), uniq(xs + generic(-1.5, 1.5, 8)), {0.3, -0.01, 0, 1.7}, litpair(f, -4, 4, false)},
        {uniq(xs + generic(-3, 3, dens(100)) + generic(-0.05, 0.05, dens(60)) + litset(f, -10, 10)), uniq(xs + generic(-1.5, 1.5, 8)), {0, 0.2, -0.6}, litpair(f, -4, 4, false)}});
    domain("distortion", "coefficient x X x Y, star product", s.total, [](u64 i, Ctx& c) { double x[3]; s.get(i, x); one(x[0], x[1], x[2], c); });
    static VD rr; for (double c0: {-0.3333, -1.0, -0.01, -7.0}) for (double k: {1.0, 0.5, 2.0, 0.25, 0.75, 1.5, 0.9999, 1.0001, 1 - 1e-9, 1 + 1e-9, 1 - 1e-14, 1 + 1e-14}) rr.push_back(c0 * 1e3 + k);
    domain("barrel-limit", "barrel distortion at and around the radius where three solutions merge", rr.size() * 16, [](u64 i, Ctx& c) { Dec q(i); double z = q.pick(rr); static const VD c0s = {-0.3333, -1.0, -0.01, -7.0}; double best = 1e9, c0 = 0; for (double t: c0s) if (std::fabs(z - t * 1e3) < 3) c0 = t; double k = z - c0 * 1e3, rp = k * 2 / (3 * std::sqrt(-3 * c0)), a = q.take(16) * 0.3927; one(c0, rp * std::cos(a), rp * std::sin(a), c); });
}
