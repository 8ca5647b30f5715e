// Angle normalisation into +-pi and 0..2pi, single and double precision.
#include "alpha.h"
#include "slalib.h"
using namespace mc;
static void dbl(double a, Ctx& c) {
    c.say("drange/dranrm(%.17g)", a);
    double r = sla::drange(a), p = sla::dranrm(a); N(2);
    CHECK(r >= -PI && r <= PI, "drange(%.17g) = %.17g", a, r);
    CHECK(p >= 0 && p <= 2 * PI, "dranrm(%.17g) = %.17g", a, p);
    if (std::fabs(a) > 1e12) return; // congruence is not meaningful beyond the precision of the argument
    L tol = 9e-16L + absL(a) * 1.2e-16L;
    CHECK(absL(wrapL(L(r) - a)) <= tol, "drange(%.17g) = %.17g is not congruent", a, r);
    CHECK(absL(wrapL(L(p) - a)) <= tol, "dranrm(%.17g) = %.17g is not congruent", a, p);
    if (std::fabs(a) < PI) CHECK(r == a, "drange(%.17g) = %.17g changes an angle already in range", a, r);
    if (a >= 0 && a < 2 * PI) CHECK(p == a, "dranrm(%.17g) = %.17g changes an angle already in range", a, p);
}
static void flt(float a, Ctx& c) {
    c.say("range/ranorm(%.9g)", a);
    static const float PF = 3.141592653589793f;
    float r = sla::range(a), p = sla::ranorm(a); N(2);
    CHECK(r >= -PF && r <= PF, "range(%.9g) = %.9g", a, r);
    CHECK(p >= 0 && p <= 2 * PF, "ranorm(%.9g) = %.9g", a, p);
    if (std::fabs(a) > 1e6f) return;
    double tol = 6e-7 + std::fabs(double(a)) * 6e-8;
    auto wrap = [](double x) { return x - 2 * PI * std::round(x / (2 * PI)); };
    CHECK(std::fabs(wrap(double(r) - a)) <= tol, "range(%.9g) = %.9g is not congruent", a, r);
    CHECK(std::fabs(wrap(double(p) - a)) <= tol, "ranorm(%.9g) = %.9g is not congruent", a, p);
    if (std::fabs(a) < PF) CHECK(r == a, "range(%.9g) = %.9g changes an angle already in range", a, r);
    if (a >= 0 && a < 2 * PF) CHECK(p == a, "ranorm(%.9g) = %.9g changes an angle already in range", a, p);
}
void mc::define() {
    static std::vector<std::string> fs = {"range.cc", "drange.cc", "ranorm.cc", "dranrm.cc"};
    // every multiple of pi/4 up to many turns, with ulp neighbours
    domain("multiples", "k*pi/4 for |k| <= 200000, each with 0..3 ulp neighbours and small offsets", 400001, [](u64 i, Ctx& c) {
        int64_t k = int64_t(i) - 200000; double b = double(k * PI_L / 4);
        for (double base: {b, k * (PI / 4)}) {
            dbl(base, c); for (int n = 1; n <= 3 && !c.failed; n++) { dbl(up(base, n), c); dbl(dn(base, n), c); }
            for (double o: {1e-15, 1e-12, 1e-9, 1e-6, 1e-4, 1e-2}) { if (c.failed) return; dbl(base + o, c); dbl(base - o, c); }
            if (c.failed) return;
            float f = float(base); flt(f, c); if (c.failed) return; flt(std::nextafterf(f, 1e30f), c); if (c.failed) return; flt(std::nextafterf(f, -1e30f), c); if (c.failed) return; } });
    static VD xs; { VD p = {0.0, -0.0, 5e-324, -5e-324}; for (int e = -320; e <= 308; e++) for (double m: {1.0, 1.7, 3.3, 6.28}) { p.push_back(m * std::pow(10.0, e)); p.push_back(-m * std::pow(10.0, e)); }
        for (double& x: p) if (!fin(x)) x = 1; xs = uniq(p + lit_angles(fs, -1e6, 1e6, 4000) + generic(-30, 30, g_thorough ? 4000000 : 400000) + generic(-1e5, 1e5, 100000) + generic(-1e-3, 1e-3, 20000)); }
    domain("values", "all magnitudes 1e-320..6e308, constants of the sources, low-discrepancy points in +-30, +-1e5, +-1e-3", xs.size(), [](u64 i, Ctx& c) { dbl(xs[i], c); if (c.failed) return; float f = float(xs[i]); if (std::isfinite(f)) flt(f, c); });
    // every float: quick covers |x| in [2^-8, 2^8) both signs; thorough covers every finite float
    u64 lo = g_thorough ? 0 : 0x3b800000u, hi = g_thorough ? 0x7f800000u : 0x43800000u;
    domain("all-floats", g_thorough ? "every finite float" : "every float with 2^-8 <= |x| < 256", (hi - lo) / 8192 * 2, [=](u64 i, Ctx& c) {
        bool neg = i & 1; u64 b0 = lo + (i >> 1) * 8192;
        for (u64 k = 0; k < 8192 && !c.failed; k++) { uint32_t u = uint32_t(b0 + k) | (neg ? 0x80000000u : 0); float f; memcpy(&f, &u, 4); flt(f, c); } });
}
