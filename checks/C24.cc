// Refraction and air mass.
#include "refr.h"
#include "slalib.h"
using namespace mc;
static const std::vector<std::string> F = {"refro.cc", "refco.cc"}, FZ = {"refz.cc", "refv.cc"}, FQ = {"refcoq.cc", "atmdsp.cc"};
static void ro(double z, double h, double t, double p, double rh, double wl, double phi, double tlr, double eps, Ctx& c) {
    c.say("zd %.17g height %.17g T %.17g P %.17g rh %.17g wl %.17g lat %.17g lapse %.17g eps %.3g", z, h, t, p, rh, wl, phi, tlr, eps);
    if (rh > 0 && p > 0 && psat_gill(t, p) > 0.3L * p) return; L az = absL(wrapL(z)); if (az > 1.588L && az < 1.7L && h > 30000) return;
    L r = refro_ref(z, h, t, p, rh, wl, phi, tlr); double v = sla::refro(z, h, t, p, rh, wl, phi, tlr, eps); N(1);
    const bool wet = rh > 0 && p > 0 && psat_gill(t, p) > 0.005L * p; // the vapour integral settles more slowly
    L e = clampL(absL(eps), 1e-12L, 0.1L), tol = (az > 1.4L ? 6 : 0.3L) * e + 1e-12L + 2e-7L * absL(r) * (az > 1.4L ? 1 : wet ? 0.5L : 0.02L) + 1e-16L * absL(z) * 4e-4L / powl(cosl(std::min<L>(az, 1.5L)), 2);
    // near the horizon two successive halvings can agree by chance: then the estimate must settle as the precision is tightened
    if (az > 1.4L && !near(v, r, tol) && near(v, r, tol + 100 * e)) { v = sla::refro(z, h, t, p, rh, wl, phi, tlr, double(e * 1e-3L)); N(1); }
    CHECK(near(v, r, tol), "zd %.17g height %.17g T %.17g P %.17g rh %.17g wl %.17g lat %.17g lapse %.17g eps %.3g: refraction %.15g, expected %.15Lg", z, h, t, p, rh, wl, phi, tlr, eps, v, r);
}
static bool same(double a, double b) { return (a != a && b != b) || std::fabs(a - b) <= 1e-13 * std::fabs(a); }
struct W { L t, p, rh, wl; };
static void coq(double t, double p, double rh, double wl, Ctx& c) {
    c.say("T %.17g P %.17g rh %.17g wl %.17g", t, p, rh, wl);
    L T = clampL(t, 100, 500), P = clampL(p, 0, 1e4L), R = clampL(rh, 0, 1), w = clampL(wl, 0.1L, 1e6L), pw = 0, ill = 1;
    if (P > 0) { L ps = psat_gill(T, P), d = 1 - (1 - R) * ps / P; if (absL(d) < 1e-6L || !std::isfinite(ps)) return; pw = R * ps / d; ill = 1 + absL((1 - d) / d) * 10; }
    L x = T - 273.15L; if (absL(1 + 0.00412L * x) < 1e-3L) return; ill *= 1 + 3 * absL((0.7859L + 0.03477L * x) / powl(1 + 0.00412L * x, 2));
    L i = 1 / (w * w), g1 = wl <= 100 ? (77.53484e-6L + (4.39108e-7L + 3.666e-9L * i) * i) * P : 77.6890e-6L * P, g2 = (wl <= 100 ? 11.2684e-6L : 6.3938e-6L - 0.375463L / T) * pw, g = (g1 - g2) / T, gs = (absL(g1) + absL(g2)) / T;
    L b = 4.4474e-6L * T; if (wl > 100) b *= 1 - 0.0074L * pw;
    L bs = 4.4474e-6L * T * (1 + (wl > 100 ? 0.0074L * absL(pw) : 0)), A = g * (1 - b), B = -g * (b - g / 2);
    double a1 = -9, b1 = -9; sla::refcoq(t, p, rh, wl, a1, b1); N(1);
    CHECK(near(a1, A, 3e-15L * ill * gs * (1 + bs) ) && near(b1, B, 1e-14L * ill * gs * (bs + gs)), "T %.17g P %.17g rh %.17g wl %.17g: A %.17g B %.17g, expected %.17Lg %.17Lg", t, p, rh, wl, a1, b1, A, B);
    if (P == 0) CHECK(a1 == 0 && b1 == 0, "zero pressure: A %.17g B %.17g", a1, b1);
}
static void dsp(double t, double p, double rh, double w1, double w2, double a, double b, Ctx& c) {
    c.say("T %.17g P %.17g rh %.17g wl %.17g -> %.17g, A %.17g B %.17g", t, p, rh, w1, w2, a, b);
    L T = clampL(t, 100, 500), P = clampL(p, 0, 1e4L), R = clampL(rh, 0, 1), A = a, B = b, ill = 1;
    if (w1 <= 100 && w2 <= 100) {
        auto n1 = [&](double w) { L W = std::max<L>(w, 0.1L), i = 1 / (W * W); return ((77.5317e-6L + (0.43909e-6L + 0.00367e-6L * i) * i) * P - 11.2684e-6L * R * powl(10, -8.7115L + 0.03477L * T)) / T; };
        L d1 = n1(w1), d2 = n1(w2), sc = (77.5317e-6L * P + 11.2684e-6L * R * powl(10, -8.7115L + 0.03477L * T)) / T;
        if (d1 != 0) {
            if (absL(d1) < 1e-6L * sc || (absL(d1 - a) < 1e-9L * absL(a) && d1 != a)) return;
            ill = (1 + sc / absL(d1)) * (1 + sc / std::max(absL(d2), 1e-30L)) * 10; A = a * d2 / d1; B = b * d2 / d1; if (d1 != a) { B *= 1 + d1 * (d1 - d2) / (2 * (d1 - a)); ill *= 1 + absL(d1 / (d1 - a)); }
        }
    }
    double x = -9, y = -9; sla::atmdsp(t, p, rh, w1, a, b, w2, x, y); N(1);
    CHECK(near(x, A, 1e-15L * ill * absL(A) + 1e-300L) && near(y, B, 2e-15L * ill * absL(B) + 2e-15L * ill * absL(b) * 1e-3L), "T %.17g P %.17g rh %.17g wl %.17g -> %.17g, A %.17g B %.17g: gives %.17g %.17g, expected %.17Lg %.17Lg", t, p, rh, w1, w2, a, b, x, y, A, B);
    if (w1 > 100 || w2 > 100) CHECK(x == a && y == b, "radio coefficients were changed");
}
// A tan z + B tan^3 z inverted by Newton iteration to convergence
static L inv(L zu, L A, L B, L* cond) {
    L z = zu; for (int i = 0; i < 100; i++) { L t = tanl(z), k = 1 + (A + 3 * B * t * t) * (1 + t * t), d = (z - zu + A * t + B * t * t * t) / k; z -= d; *cond = k; if (absL(d) < 1e-19L) break; } return z;
}
static void rz(double zu, double a, double b, Ctx& c) {
    c.say("zd %.17g A %.17g B %.17g", zu, a, b);
    const L D = PI_L / 180, Z83 = 83 * D; L k, z = inv(std::min<L>(zu, Z83), a, b, &k), ref = std::min<L>(zu, Z83) - z;
    double v = sla::refz(zu, a, b); N(1);
    // two iterations leave a residual of fourth order in the refraction
    L t = tanl(std::min<L>(absL(zu), Z83)), s2 = 1 + t * t, e1 = absL(ref) * absL(ref) * t * s2 * (absL(a) + 6 * absL(b) * s2), tol = 4e-16L * (1 + absL(zu)) + 30 * e1 * e1 * t * s2 * (absL(a) + 6 * absL(b) * s2);
    if (zu > Z83) {
        auto g = [](L e) { return (0.55445L - 0.01133L * e + 0.00202L * e * e) / (1 + 0.28385L * e + 0.02390L * e * e); };
        L f = g(90 - std::min<L>(93, zu / D)) / g(7); ref *= f; tol = tol * f + 1e-15L * absL(f) + 1e-14L * absL(ref);
    }
    CHECK(near(v, zu - ref, tol), "zd %.17g A %.17g B %.17g: observed zd %.17g, expected %.17Lg (tolerance %.3Lg)", zu, a, b, v, zu - ref, tol);
}
static void rv(double az, double el, double a, double b, double sc, Ctx& c) {
    V3 u = sc * dirv(az, el); double q[3] = {double(u.x), double(u.y), double(u.z)}, o[3] = {-9, -9, -9}, o2[3] = {q[0], q[1], q[2]};
    c.say("direction (%.17g,%.17g,%.17g) A %.17g B %.17g", q[0], q[1], q[2], a, b);
    sla::refv(q, a, b, o); sla::refv(o2, a, b, o2); N(2);
    CHECK(o[0] == o2[0] && o[1] == o2[1] && o[2] == o2[2], "direction (%.17g,%.17g,%.17g): overwriting the input changes the result", q[0], q[1], q[2]);
    // azimuth unchanged; zenith distance by one Newton step, held below 0.05
    L x = q[0], y = q[1], zz = q[2], z = std::max<L>(zz, 0.05L), r = hypotl(x, y), t = r / z, wt = (a + b * t * t) / (1 + (a + 3 * b * t * t) * (1 + t * t)), d = wt * t, cd = 1 - d * d / 2;
    V3 e = {x * cd * (1 - wt), y * cd * (1 - wt), cd * (z + d * r) + (zz - z)};
    CHECK(vdiff(v3(o), e) <= 2e-15L * (1 + t) / std::min<L>(1, powl(absL(1 + (a + 3 * b * t * t) * (1 + t * t)), 2)), "direction (%.17g,%.17g,%.17g) A %.17g B %.17g: (%.17g,%.17g,%.17g), expected (%.17Lg,%.17Lg,%.17Lg)", q[0], q[1], q[2], a, b, o[0], o[1], o[2], e.x, e.y, e.z);
    if (sc == 1 && a > 0 && a < 3e-4 && b < 0 && b > -4e-7 && q[2] > std::cos(70 * PI / 180)) {
        L k, zr = inv(atan2l(r, zz), a, b, &k), za = atan2l(hypotl(o[0], o[1]), o[2]);
        CHECK(near(za, zr, 4.85e-9L), "direction (%.17g,%.17g,%.17g): observed zd %.15Lg differs from the model %.15Lg by more than 1 mas", q[0], q[1], q[2], za, zr);
        CHECK(r < 1e-12L || near(wrapL(atan2l(o[1], o[0]) - atan2l(y, x)), 0, 1e-15L / r + 1e-15L), "azimuth changed");
    }
}
static void cons(double h, double t, double p, double r, double w, double ph, double l, double ep, Ctx& c) {
    c.say("refco h %.17g T %.17g P %.17g rh %.17g wl %.17g phi %.17g lapse %.17g eps %.17g", h, t, p, r, w, ph, l, ep); double a = -9, b = -9; sla::refco(h, t, p, r, w, ph, l, ep, a, b); N(1);
    L r1 = refro_ref(PI / 4, h, t, p, r, w, ph, l), r2 = refro_ref(1.325817663668033, h, t, p, r, w, ph, l), tol = std::max<L>(1e-9L, ep);
    CHECK(near(L(a) + b, r1, tol) && near(4 * L(a) + 64 * L(b), r2, tol), "h %g T %g P %g rh %g wl %g lapse %g: A %.15g B %.15g do not reproduce the refraction %.15Lg %.15Lg", h, t, p, r, w, l, a, b, r1, r2);
    if (w < 50 && h <= 5000 && p > 600) { double qa, qb; sla::refcoq(t, p, r, w, qa, qb); N(1); CHECK(near(qa, a, 5e-7L), "quick A %.10g far from full A %.10g", qa, a); }
}
void mc::define() {
    g_cost = 3;
    Axis zd = {uniq(grid(-1.38, 1.38, dens(150)) + lit_angles(F, -1.39, 1.39) + VD{0.0, -0.0, 1e-10, 1e-20, 1e-21, -1e-20, 1e-300, PI / 4, 1.325817663668033, 2 * PI + 0.5, -2 * PI + 1.1, 4 * PI - 0.3, -6 * PI + 0.7, 12.566370614359172 + 1.2}), {0, 0.5, -1.2, 1.38, 0.9}, {0.8, 1.35, -0.4}, litpair(F, -1.39, 1.39, true)};
    VD hs = {0, 2500, 5000, -1000, 11000, 10999.9, 11000.1, -1000.1, -2000, 80000, 90000, 79000};
    Axis h = {uniq(hs + generic(-1000, 20000, dens(60)) + clip(litset(F, -2e3, 1e5), -2e3, 1e5)), {0, 2500, 14000, -300}, {0, 4000}, litpair(F, -2e3, 1e5, false)};
    Axis t = {uniq(VD{273.15, 288, 240, 310} + generic(240, 310, dens(60)) + litset(F, 240, 310)), {273.15, 250, 300, 288}, {283, 255}, litpair(F, 240, 310, false)};
    Axis p = {uniq(VD{0, 1013.25, 1e-3, 1, -5} + generic(0, 1100, dens(60)) + litset(F, 0, 1100)), {0, 1013, 600, 30}, {1005, 620}, {}};
    Axis rh = {uniq(VD{0, 1, 0.5, -1, 2, 1e-9, 1.0000001, -1e-9} + generic(0, 1, dens(40)) + litset(F, -1, 3)), {0, 0.5, 1}, {0.1, 0.9}, {}};
    Axis wl = {uniq(VD{0.1, 0.05, 0, 100, 100.0001, 99.9999, up(100), dn(100), 1e6, 0.55, -1} + generic(0.1, 5, dens(40)) + generic(5, 120, dens(20)) + clip(litset(F, 0.01, 1e6), 0.01, 1e7)), {0.4, 0.7, 100, 200, 20}, {0.55, 500}, litpair(F, 0.05, 400, false)};
    Axis ph = lat_axis(F, 20); ph.lit = {}; ph.tiny = {0.7}; ph.coarse = {0, 0.9, -1.2};
    Axis tl = {uniq(VD{0.0065, 0.003, 0.008, -0.0065, -0.004} + generic(0.003, 0.0095, dens(40)) + litset(F, 0.003, 0.0095)), {0.0065, -0.0045, 0.0085}, {0.006}, {}};
    Axis ep = {uniq(VD{1e-8, -1e-8, 1e-9, 1e-10, 1e-7, 1e-5, 0, 1e-12, 1e-13, 1e-4, 1e-3} + clip(litset(F, -0.2, 0.2), -1e-2, 1e-2)), {1e-8, 1e-6, -1e-7}, {1e-8}, {}};
    static Star s = star({zd, h, t, p, rh, wl, ph, tl, ep}, true, 400000);
    domain("integral", "zenith distance to 79 deg x height x temperature x pressure x humidity x wavelength x latitude x lapse rate x precision, star product", s.total, [](u64 i, Ctx& c) { double x[9]; s.get(i, x); ro(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], c); });
    static VD zl = uniq(grid(1.385, 1.5882, g_thorough ? 400 : 90) + clip(lit_angles(F, 1.38, 1.5882), 1.385, 1.5882) + VD{PI / 2, up(PI / 2), dn(PI / 2), -1.5, -1.56, 2 * PI - 1.5}), hl = {0, 900, 2500, 8000, 12000}, tl2 = {245, 273.15, 296}, pl = {0, 400, 1010}, wl2 = {0.5, 100, 300}, ll = {0.0045, 0.0065, -0.0075}, rl = {0, 0.8};
    domain("low-elevation", "zenith distances 79 to 91 deg x conditions", zl.size() * hl.size() * tl2.size() * pl.size() * wl2.size() * ll.size() * rl.size(), [](u64 i, Ctx& c) { Dec q(i); double z = q.pick(zl), h = q.pick(hl), t = q.pick(tl2), p = q.pick(pl), w = q.pick(wl2), l = q.pick(ll), r = q.pick(rl); ro(z, h, t, p, r, w, 0.6, l, 1e-8, c); });
    static VD lims[8] = {{1.623156204, 1.6231562041, 1.65, 2, 3, 3.14159, -1.65, -3, 2 * PI - 2}, {80000, 80000.5, 1e5, 1e9}, {-1000, -1000.5, -3000, -1e9}, {100, 99.9, 50, 0, -10}, {10000, 10000.5, 2e4, 1e9}, {0.1, 0.0999, 0.01, 0, -3}, {0.001, 0.00099, 1e-9, 0, -0.0005, 1e-30}, {0.01, 0.0101, 0.02, 1, -0.5}};
    static u64 nl = 0; static std::vector<std::pair<int,int>> ls; for (int k = 0; k < 8; k++) for (size_t j = 1; j < lims[k].size(); j++) ls.push_back({k, int(j)}); nl = ls.size();
    static VD bz = {0.3, 1.1, 1.5, -1.2}, bh = {0, 3000}, bt = {260, 300}, bw = {0.5, 300};
    domain("limits", "each parameter at and beyond its safe limit x conditions", nl * bz.size() * bh.size() * bt.size() * bw.size(), [](u64 i, Ctx& c) {
        Dec q(i); auto l = ls[q.take(nl)]; double a[9] = {q.pick(bz), q.pick(bh), q.pick(bt), 900, 0.4, q.pick(bw), 0.5, 0.0065, 1e-9}, b[9]; memcpy(b, a, sizeof a);
        static const int at[8] = {0, 1, 1, 2, 3, 5, 7, 7}; int k = at[l.first]; a[k] = lims[l.first][0]; b[k] = lims[l.first][l.second]; double sg = 1; if (k == 0 && wrapL(b[0]) < 0) sg = -1; if (a[5] <= 0.1) { a[3] = b[3] = 900; }
        double x = sla::refro(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]), y = sla::refro(b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], b[8]); N(2);
        CHECK(same(x, sg * y), "parameter %d at its limit %.17g gives %.17g, beyond it (%.17g) gives %.17g", k, a[k], x, b[k], y); });
    static VD a9 = {1.58, 1.6, 1.61, 1.62, 1.6231, 1.623156204};
    domain("below-horizon", "zenith distances 90.5 to 93 deg, standard conditions", a9.size() * 3 * 2, [](u64 i, Ctx& c) { Dec q(i); double z = q.pick(a9); static const VD hh = {0, 2000, 4200}; double h = q.pick(hh), w = q.take(2) ? 0.5 : 0.8;
        double v = sla::refro(z, h, 283, 850, 0.1, w, 0.5, 0.0065, 1e-8); N(1); L r = refro_ref(z, h, 283, 850, 0.1, w, 0.5, 0.0065); CHECK(near(v, r, 2e-4L * r), "zd %.17g height %g: %.15g, expected %.15Lg", z, h, v, r); });
    domain("constants", "conditions: A and B reproduce the integral at 45 and 76 deg", 6 * 5 * 5 * 3 * 5 * 3, [](u64 i, Ctx& c) {
        static const VD hh = {0, 1000, 2500, 5000, 9000, 20000}, tt = {245, 260, 273.15, 290, 305}, pp = {0, 300, 700, 1013, 1050}, rr = {0, 0.5, 1}, ww = {0.35, 0.6, 2, 100, 101}, ll = {0.0045, 0.0065, 0.0075};
        Dec q(i); double h = q.pick(hh), t = q.pick(tt), p = q.pick(pp), r = q.pick(rr), w = q.pick(ww), l = q.pick(ll);
        cons(h, t, p, r, w, 0.4, l, 1e-9, c); });
    domain("constants-spread", "the same over a lattice of generic conditions, latitudes and precisions", g_thorough ? 400000 : 20000, [](u64 i, Ctx& c) {
        double u[8]; for (int k = 0; k < 8; k++) { double q = double(i + 1) * std::sqrt(double(k * k + 2 * k + 2)) * 0.618; u[k] = q - std::floor(q); }
        cons(8000 * u[0], 245 + 60 * u[1], 400 + 650 * u[2], u[3], i % 6 ? 0.3 + 2 * u[4] : 101 + 1e4 * u[4], 3.1 * u[5] - 1.55, 0.004 + 0.004 * u[6], 1e-9 + 9.9e-8 * u[7], c); });
    Axis qt = lin_axis(FQ, 90, 510, 200, {100, 500, 273.15, 99, 501}, {283, 250, 310}), qp = lin_axis(FQ, -5, 10010, 150, {0, 10000, 1013, 10001, -1}, {0, 1005, 650}), qr = lin_axis(FQ, -0.5, 1.5, 60, {0, 1, 0.5}, {0, 0.8, 1}), qw = {uniq(VD{0.1, 0.05, 100, up(100), dn(100), 100.01, 99.9, 1e6, 1e7, 0, -1} + generic(0.1, 4, dens(80)) + generic(4, 120, dens(30)) + litset(FQ, 0.01, 2e6)), {0.1, 0.5, 2, 100, 101}, {0.55, 150}, litpair(FQ, 0.05, 300, false)};
    static Star sq = star({qt, qp, qr, qw});
    domain("quick-constants", "temperature x pressure x humidity x wavelength, star product", sq.total, [](u64 i, Ctx& c) { double x[4]; sq.get(i, x); coq(x[0], x[1], x[2], x[3], c); });
    static Star sd = star({qt, qp, qr, qw, qw, {{2e-4, 0, -1e-4, 2.9e-4, 1e-5}, {2e-4, 0, 1e-4}, {2e-4}, {}}, {{-2e-7, 0, 1e-7}, {-2e-7, 0}, {-2e-7}, {}}}, true, 200000);
    domain("dispersion", "temperature x pressure x humidity x two wavelengths x coefficients, star product", sd.total, [](u64 i, Ctx& c) { double x[7]; sd.get(i, x); dsp(x[0], x[1], x[2], x[3], x[4], x[5], x[6], c); });
    VD av = uniq(VD{0, 2e-4, 2.8e-4, 1e-5, 4e-4} + generic(0, 4e-4, 30)), bv = uniq(VD{0, -2e-7, -5e-7, 1e-8} + generic(-5e-7, 0, 20));
    static Star sz = star({{uniq(grid(-0.5, 1.7, dens(600)) + lit_angles(FZ, -0.5, 2) + around({83 * PI / 180, 93 * PI / 180, PI / 2}, {1e-12, 1e-9, 1e-6, 1e-3}) + VD{0.0, 2, 3}), {0, 0.5, 1.2, 1.4, 83 * PI / 180, 1.5, PI / 2, 1.6}, {0.9, 1.45, 1.55}, litpair(FZ, -0.5, 2, true)}, {av, {0, 2e-4, 3e-4}, {2.5e-4}, {}}, {bv, {0, -2e-7, -4e-7}, {-2.5e-7}, {}}});
    domain("apply-zd", "unrefracted zenith distance x A x B, star product", sz.total, [](u64 i, Ctx& c) { double x[3]; sz.get(i, x); rz(x[0], x[1], x[2], c); });
    static Star sv = star({lon_axis(FZ, 60), {uniq(lat_fine(300) + lit_angles(FZ, -PI / 2, PI / 2) + around({0.05, asin(0.05)}, {1e-12, 1e-9, 1e-6})), lat_coarse(), {0.5, 0.04, 1.4, -0.2}, litpair(FZ, -1.57, 1.57, true)}, {av, {0, 2e-4, 3e-4}, {2.5e-4}, {}}, {bv, {0, -2e-7, -4e-7}, {-2.5e-7}, {}}, {{1, 0.5, 1.001, 0.999}, {1, 0.98}, {1}, {}}});
    domain("apply-vector", "azimuth x elevation x A x B x vector length, star product; output aliased to input", sv.total, [](u64 i, Ctx& c) { double x[5]; sv.get(i, x); rv(x[0], x[1], x[2], x[3], x[4], c); });
    static VD am = uniq(lon_fine(2000) + lat_fine(4000) + litset({"airmas.cc"}, -7, 7) + lit_angles({"airmas.cc"}, -7, 7));
    domain("airmass", "zenith distances, fine", am.size(), [](u64 i, Ctx& c) { double z = am[i]; c.say("zd %.17g", z); double v = sla::airmas(z); N(1); L s = 1 / cosl(std::min<L>(1.52L, absL(z))) - 1, r = 1 + s * (0.9981833L - s * (0.002875L + 0.0008083L * s));
        CHECK(near(v, r, 4e-16L * 1500) && near(v, r, 1e-14L * (1 + s) * (1 + s)), "zd %.17g: air mass %.17g, expected %.17Lg", z, v, r); if (std::fabs(z) >= 1.52) CHECK(v == sla::airmas(1.52), "zd %.17g: air mass not held constant", z); });
}
