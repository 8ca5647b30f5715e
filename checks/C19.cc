// Galactic, supergalactic and equatorial (J2000, B1950/FK4) frames.
#include "astro.h"
#include "slalib.h"
using namespace mc;
static const bool full_depth = (g_deep = true);
static M3 FK4GAL() { L d = PI_L / 180, P = 192.25L * d, Q = 62.6L * d, R = 33 * d; return rot(2, PI_L / 2 - R) * rot(1, Q) * rot(2, P); } // Euler P, Q, 90-R about z, y, z
static M3 SUPER() { L d = PI_L / 180, l = 47.37L * d, b = 6.32L * d; // pole at (47.37, +6.32); origin on the galactic equator at l = 137.37
    V3 z = dirv(l, b), x = dirv(l + PI_L / 2, 0), y = cross(z, x); return {{{x.x, x.y, x.z}, {y.x, y.y, y.z}, {z.x, z.y, z.z}}}; }
static const M3 EQGAL = {{{-0.054875539726L, -0.873437108010L, -0.483834985808L}, {0.494109453312L, -0.444829589425L, 0.746982251810L}, {-0.867666135858L, -0.198076386122L, 0.455983795705L}}}; // FK5 J2000 form of the IAU 1958 system, as published
typedef sla::Spherical<double> S;
static void one(double a, double b, Ctx& c) {
    c.say("direction (%.17g,%.17g)", a, b);
    const M3 G50 = FK4GAL(), SG = SUPER(); V3 v = dirv(a, b); const L tol = 3e-12L;
    S o, r; S in{a, b};
    auto chk = [&](const char* n, void (*fwd)(const S&, S&), void (*back)(const S&, S&), V3 e, L rt) {
        o.s_a = o.s_b = r.s_a = r.s_b = -9; fwd(in, o); N(1);
        CHECK(dir_ok(o.s_a, o.s_b, e, tol), "%s of (%.17g,%.17g) is (%.17g,%.17g), off by %.3Lg", n, a, b, o.s_a, o.s_b, angsep(dirv(o.s_a, o.s_b), e));
        back(o, r); N(1);
        CHECK(dir_ok(r.s_a, r.s_b, v, rt), "%s of (%.17g,%.17g) and back gives (%.17g,%.17g)", n, a, b, r.s_a, r.s_b);
    };
    chk("equatorial to galactic", sla::eqgal, sla::galeq, EQGAL * v, 1e-10L); if (c.failed) return;
    chk("galactic to equatorial", sla::galeq, sla::eqgal, transp(EQGAL) * v, 1e-10L); if (c.failed) return;
    chk("galactic to supergalactic", sla::galsup, sla::supgal, SG * v, tol); if (c.failed) return;
    chk("supergalactic to galactic", sla::supgal, sla::galsup, transp(SG) * v, tol); if (c.failed) return;
    chk("FK4 to galactic", sla::eg50, sla::ge50, G50 * sub_et(v, 1950), tol); if (c.failed) return;
    chk("galactic to FK4", sla::ge50, sla::eg50, add_et(transp(G50) * v, 1950), tol); if (c.failed) return;
}
void mc::define() {
    std::vector<std::string> f = {"eqgal.cc", "galeq.cc", "galsup.cc", "supgal.cc", "eg50.cc", "ge50.cc", "addet.cc", "subet.cc", "etrms.cc"};
    static VD lo = uniq(lon_axis(f, 200).fine), la = uniq(lat_axis(f, 200).fine);
    static VD lc = uniq(lon_coarse() + generic(-4, 7, 90)), lac = uniq(lat_coarse() + generic(-1.57, 1.57, 70));
    domain("longitude-fine", "fine longitudes x coarse latitudes", lo.size() * lac.size(), [](u64 i, Ctx& c) { Dec q(i); double a = q.pick(lo); one(a, q.pick(lac), c); });
    domain("latitude-fine", "coarse longitudes x fine latitudes", lc.size() * la.size(), [](u64 i, Ctx& c) { Dec q(i); double a = q.pick(lc); one(a, q.pick(la), c); });
    // around the poles and origins of each frame as seen in each other frame
    static std::vector<V3> special;
    for (const M3& m: {FK4GAL(), SUPER(), EQGAL, SUPER() * EQGAL}) for (int k = 0; k < 3; k++) for (int s: {1, -1}) { special.push_back({s * m.m[k][0], s * m.m[k][1], s * m.m[k][2]}); special.push_back({s * m.m[0][k], s * m.m[1][k], s * m.m[2][k]}); }
    static VD off = {0, 1e-15, 1e-12, 1e-9, 1e-6, 1e-3, 0.05, -1e-12, -1e-6, -1e-3, -0.05};
    domain("frame-axes", "directions within 0..0.05 rad of every frame's axes", special.size() * off.size() * off.size(), [](u64 i, Ctx& c) { Dec q(i); V3 v = special[q.take(special.size())]; double a = double(atan2l(v.y, v.x)), b = double(atan2l(v.z, hypotl(v.x, v.y))); a += q.pick(off); b += q.pick(off); one(a, b, c); });
}
