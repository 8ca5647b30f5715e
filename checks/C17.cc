// Gnomonic projection: forward, inverse, spherical and Cartesian forms, status classification.
#include "alpha.h"
#include "slalib.h"
using namespace mc;
struct Fr { V3 t, e, n; };
static Fr frame(L a, L d) { return {dirv(a, d), {-sinl(a), cosl(a), 0}, {-sinl(d) * cosl(a), -sinl(d) * sinl(a), cosl(d)}}; }
static Fr frame_v(V3 t) { L r = hypotl(t.x, t.y); L ca = r == 0 ? 1 : t.x / r, sa = r == 0 ? 0 : t.y / r; return {t, {-sa, ca, 0}, {-t.z * ca, -t.z * sa, r}}; }
static bool allowed(int st, L den, L e) { // any class compatible with den +- e
    const L T = 1e-6L;
    switch (st) {
        case sla::TPP_OK: return den > T - e;
        case sla::TPP_TOO_FAR: return den <= T + e && den >= -e;
        case sla::TPP_ASTAR_ON_TP: return den < e && den > -T - e;
        case sla::TPP_ASTAR_TOO_FAR: return den <= -T + e;
    }
    return false;
}
static void judge(const char* what, const char* in, int st, L xi, L eta, L den, L nx, L ny, L e, Ctx& c) {
    CHECK(allowed(st, den, e), "%s %s: status %d but cosine of distance is %.9Lg", what, in, st, den);
    CHECK(fin(xi) && fin(eta), "%s %s: result not finite", what, in);
    L d = st == sla::TPP_TOO_FAR ? 1e-6L : st == sla::TPP_ASTAR_ON_TP ? -1e-6L : den;
    if (st == sla::TPP_TOO_FAR || st == sla::TPP_ASTAR_ON_TP) {
        CHECK(hypotl(xi, eta) <= 1.01e6L * hypotl(nx, ny) + 1, "%s %s: coordinates %.9Lg,%.9Lg of a point at the limb exceed their bound", what, in, xi, eta);
        CHECK(absL(xi * d - nx) <= e * 4 + 0.01L * hypotl(nx, ny) && absL(eta * d - ny) <= e * 4 + 0.01L * hypotl(nx, ny), "%s %s: coordinates %.9Lg,%.9Lg of a point at the limb point the wrong way", what, in, xi, eta);
        return;
    }
    if (absL(den) < 4 * e) return;
    L tol = e / absL(den) * (1 + hypotl(nx, ny) / absL(den));
    CHECK(near(xi, nx / den, tol) && near(eta, ny / den, tol), "%s %s: (%.17Lg,%.17Lg), expected (%.17Lg,%.17Lg)", what, in, xi, eta, nx / den, ny / den);
}
template<class T> static void fwd(const double* x, Ctx& c) {
    const bool dbl = sizeof(T) == 8; const L u = dbl ? 1.2e-16L : 6e-8L;
    T a = T(x[0]), d = T(x[1]), ta = T(x[2]), td = T(x[3]), xi = T(-9), eta = T(-9);
    char in[200]; snprintf(in, sizeof in, "point (%.17g,%.17g) tangent (%.17g,%.17g)", double(a), double(d), double(ta), double(td)); c.say("%s", in);
    int st; if constexpr (sizeof(T) == 8) st = sla::ds2tp({a, d}, {ta, td}, xi, eta); else st = sla::s2tp({a, d}, {ta, td}, xi, eta);
    N(1);
    L da = L(a) - ta, sd = sinl(d), cd = cosl(d), st_ = sinl(td), ct = cosl(td);
    L den = sd * st_ + cd * ct * cosl(da), nx = cd * sinl(da), ny = sd * ct - cd * st_ * cosl(da);
    L eda = a == 0 || ta == 0 ? 0 : u * (absL(a) + absL(ta));
    L e = 12 * u * (absL(sd * st_) + absL(cd * ct * cosl(da)) ) + 3 * absL(cd) * eda;
    judge(dbl ? "double" : "single", in, st, xi, eta, den, nx, ny, e, c); if (c.failed) return;
    // accuracy of the coordinates themselves needs the numerators' rounding as well
    // Cartesian form on the same directions
    V3 p = dirv(a, d), t = dirv(ta, td); T pv[3] = {T(p.x), T(p.y), T(p.z)}, tv[3] = {T(t.x), T(t.y), T(t.z)};
    if (norm(v3(pv)) == 0) return;
    for (T sc: {T(1), T(3), T(0.25)}) {
        T q[3] = {pv[0] * sc, pv[1] * sc, pv[2] * sc};
        if constexpr (sizeof(T) == 8) st = sla::dv2tp(q, tv, xi, eta); else st = sla::v2tp(q, tv, xi, eta);
        N(1);
        Fr f = frame_v(v3(tv)); V3 v = v3(q);
        L dn = dot(v, f.t), ee = (dbl ? 1.5e-15L : 8e-7L) * sc; char in2[300]; snprintf(in2, sizeof in2, "vector (%.17g,%.17g,%.17g) tangent (%.17g,%.17g,%.17g)", double(q[0]), double(q[1]), double(q[2]), double(tv[0]), double(tv[1]), double(tv[2]));
        CHECK(allowed(st, dn, ee), "%s: status %d but projection on the axis is %.9Lg", in2, st, dn);
        CHECK(fin(xi) && fin(eta), "%s: result not finite", in2);
        if (st == sla::TPP_OK || st == sla::TPP_ASTAR_TOO_FAR) {
            if (absL(dn) > 10 * ee) { L ex = dot(v, f.e) / dn, ey = dot(v, f.n) / dn, tol = 3 * ee / absL(dn) * (1 + hypotl(ex, ey));
                L r = hypotl(f.t.x, f.t.y); if (r != 0 && !dbl) tol += 0; 
                CHECK(near(xi, ex, tol) && near(eta, ey, tol), "%s: (%.17g,%.17g), expected (%.17Lg,%.17Lg)", in2, double(xi), double(eta), ex, ey); }
        } else CHECK(hypotl(xi, eta) <= 1.02e6L * sc + 1, "%s: coordinates %.9g,%.9g of a point at the limb exceed their bound", in2, double(xi), double(eta));
    }
}
template<class T> static void inv(const double* x, Ctx& c) {
    const bool dbl = sizeof(T) == 8;
    T xi = T(x[0]), eta = T(x[1]), ta = T(x[2]), td = T(x[3]); sla::Spherical<T> s; s.set_ra(-9); s.set_dec(-9);
    c.say("xi=%.17g eta=%.17g tangent (%.17g,%.17g)", double(xi), double(eta), double(ta), double(td));
    if constexpr (sizeof(T) == 8) sla::dtp2s(xi, eta, {ta, td}, s); else sla::tp2s(xi, eta, {ta, td}, s);
    N(1);
    const L eps = (dbl ? 4e-15L : 1.5e-6L) * (1 + 0.1L * absL(ta));
    Fr f = frame(ta, td); V3 v = f.t + L(xi) * f.e + L(eta) * f.n; L m = norm(v);
    CHECK(s.get_ra() >= 0 && s.get_ra() <= 2 * PI_L + eps / 8 && absL(s.get_dec()) <= PI_L / 2 + eps / 8, "xi=%.17g eta=%.17g tangent (%.17g,%.17g): result (%.17g,%.17g) out of range", double(xi), double(eta), double(ta), double(td), double(s.get_ra()), double(s.get_dec()));
    CHECK(angsep(dirv(s.get_ra(), s.get_dec()), v) <= eps, "xi=%.17g eta=%.17g tangent (%.17g,%.17g): result (%.17g,%.17g) is off by %.3Lg", double(xi), double(eta), double(ta), double(td), double(s.get_ra()), double(s.get_dec()), angsep(dirv(s.get_ra(), s.get_dec()), v));
    // Cartesian form
    T tv[3] = {T(f.t.x), T(f.t.y), T(f.t.z)}, o[3] = {-9, -9, -9}, al[3] = {tv[0], tv[1], tv[2]};
    if constexpr (sizeof(T) == 8) sla::dtp2v(xi, eta, tv, o); else sla::tp2v(xi, eta, tv, o);
    N(1);
    Fr g = frame_v(v3(tv)); V3 w = (1 / sqrtl(1 + L(xi) * xi + L(eta) * eta)) * (g.t + L(xi) * g.e + L(eta) * g.n);
    CHECK(vdiff(v3(o), w) <= (dbl ? 2e-15L : 1e-6L), "xi=%.17g eta=%.17g tangent vector (%.17g,%.17g,%.17g): (%.17g,%.17g,%.17g)", double(xi), double(eta), double(tv[0]), double(tv[1]), double(tv[2]), double(o[0]), double(o[1]), double(o[2]));
}
template<class T> static void polar_inv(T xi, T eta, bool south, Ctx& c) {
    T tv[3] = {0, 0, T(south ? -1 : 1)}, o[3] = {-9, -9, -9}; L z = tv[2], m = sqrtl(1 + L(xi) * xi + L(eta) * eta); c.say("xi=%.17g eta=%.17g tangent at pole %g", double(xi), double(eta), double(z));
    if constexpr (sizeof(T) == 8) sla::dtp2v(xi, eta, tv, o); else sla::tp2v(xi, eta, tv, o);
    N(1); V3 w = (1 / m) * V3{-z * eta, xi, z};
    CHECK(vdiff(v3(o), w) <= (sizeof(T) == 8 ? 1e-15L : 5e-7L), "xi=%.17g eta=%.17g about the pole (0,0,%g): (%.17g,%.17g,%.17g), expected (%.17Lg,%.17Lg,%.17Lg)", double(xi), double(eta), double(z), double(o[0]), double(o[1]), double(o[2]), w.x, w.y, w.z);
}
template<class T> static void polar_fwd(T a, T d, bool south, Ctx& c) {
    T tv[3] = {0, 0, T(south ? -1 : 1)}, xi = T(-9), eta = T(-9); V3 p = dirv(a, d); T q[3] = {T(p.x), T(p.y), T(p.z)}; L z = tv[2], dn = z * q[2]; c.say("star (%.17g,%.17g) tangent at pole %g", double(a), double(d), double(z));
    int st; if constexpr (sizeof(T) == 8) st = sla::dv2tp(q, tv, xi, eta); else st = sla::v2tp(q, tv, xi, eta);
    N(1); L e = sizeof(T) == 8 ? 1e-18L : 1e-9L;
    CHECK(allowed(st, dn, e), "star (%.17g,%.17g) about the pole (0,0,%g): status %d", double(a), double(d), double(z), st);
    if (st == sla::TPP_TOO_FAR) dn = 1e-6L; if (st == sla::TPP_ASTAR_ON_TP) dn = -1e-6L;
    L ex = L(q[1]) / dn, ey = -z * L(q[0]) / dn, tol = (sizeof(T) == 8 ? 2e-15L : 1e-6L) * (1 + absL(ex) + absL(ey));
    CHECK(near(xi, ex, tol) && near(eta, ey, tol), "star (%.17g,%.17g) about the pole (0,0,%g): (%.17g,%.17g), expected (%.17Lg,%.17Lg)", double(a), double(d), double(z), double(xi), double(eta), ex, ey);
}
void mc::define() {
    std::vector<std::string> f = {"ds2tp.cc", "s2tp.cc", "dtp2s.cc", "tp2s.cc", "dtp2v.cc", "tp2v.cc", "dv2tp.cc", "v2tp.cc"};
    static Star s = star({lon_axis(f, 150), lat_axis(f, 150), lon_axis(f, 150), lat_axis(f, 150)});
    domain("project", "point x tangent point, star product over four angles; spherical and Cartesian; Cartesian points of length 1, 3, 1/4; both precisions", s.total, [](u64 i, Ctx& c) { double x[4]; s.get(i, x); fwd<double>(x, c); if (!c.failed) fwd<float>(x, c); });
    // the limb: distance from the tangent point within offsets of a right angle, and close pairs
    static VD off = uniq(VD{0, 1e-7, 5e-7, 9e-7, 9.9e-7, 1.1e-6, 1.01e-6, 2e-6, 1e-5, 1e-3, 1e-12, -1e-7, -5e-7, -9e-7, -9.9e-7, -1.1e-6, -1.01e-6, -2e-6, -1e-5, -1e-3, -1e-12} + litset(f, -0.01, 0.01, 1, 60)), ta = uniq(VD{0, 1, -2, 3.5}), td = uniq(VD{0, 0.5, -1.2, PI / 2, -PI / 2, 1.5} + generic(-1.57, 1.57, 10)), pa = generic(-PI, PI, 24);
    domain("limb", "points at 90 degrees +- offset from the tangent point, in all position angles", off.size() * ta.size() * td.size() * pa.size(), [](u64 i, Ctx& c) { Dec q(i); L r = PI_L / 2 - q.pick(off); double a = q.pick(ta), d = q.pick(td); L p = q.pick(pa); Fr g = frame(a, d); V3 v = cosl(r) * g.t + (sinl(r) * sinl(p)) * g.e + (sinl(r) * cosl(p)) * g.n; double x[4] = {double(atan2l(v.y, v.x)), double(atan2l(v.z, hypotl(v.x, v.y))), a, d}; fwd<double>(x, c); if (!c.failed) fwd<float>(x, c); });
    domain("equatorial-limb", "both on the equator, tangent at zero: cosine of distance exact in either precision", off.size() * 4, [](u64 i, Ctx& c) { Dec q(i); double o = q.pick(off); int k = int(q.take(4)); double h = PI / 2 - o; double x[4] = {k & 1 ? -h : h, 0, 0, 0}; if (k & 2) { x[0] = 0; x[1] = k & 1 ? -h : h; } fwd<double>(x, c); if (!c.failed) fwd<float>(x, c); });
    static VD sm = uniq(VD{0, 1e-12, 1e-9, 1e-6, 1e-4, 0.01, 0.1, -1e-9, -1e-4, -0.03}), lo = uniq(lon_coarse() + generic(-3, 6, 12)), la = uniq(lat_coarse() + generic(-1.5, 1.5, 12));
    domain("close", "points within 0.1 rad of the tangent point at all scales", sm.size() * sm.size() * lo.size() * la.size(), [](u64 i, Ctx& c) { Dec q(i); double x[4]; double da = q.pick(sm), dd = q.pick(sm); x[2] = q.pick(lo); x[3] = q.pick(la); x[0] = x[2] + da; x[1] = x[3] + dd; fwd<double>(x, c); if (!c.failed) fwd<float>(x, c); });
    VD z = uniq(VD{0.0, -0.0, 1e-12, -1e-9, 1e-6, 0.001, -0.01, 0.1, 0.5, -1, 2, 10, -100, 1e4} + generic(-2, 2, 8)), zf = uniq(z + generic(-3, 3, 500) + grid(-1, 1, 201) + litset(f, -10, 10));
    static Star t = star({{zf, z, {0, 0.3, -1.2}}, {zf, z, {0, 0.3, -1.2}}, lon_axis(f, 150), lat_axis(f, 150)});
    domain("deproject", "plane coordinates x tangent point, star product; spherical and Cartesian; both precisions", t.total, [](u64 i, Ctx& c) { double x[4]; t.get(i, x); inv<double>(x, c); if (!c.failed) inv<float>(x, c); });
    // tangent vectors exactly at a pole, where the right ascension of the tangent point is taken as zero
    static VD pc = uniq(z + generic(-2, 2, 40)), pd = uniq(lat_coarse() + generic(-1.57, 1.57, 40)), pl = uniq(lon_coarse() + generic(-3, 6, 30));
    domain("pole-deproject", "plane coordinates, Cartesian tangent point exactly at either pole, both precisions", pc.size() * pc.size() * 4, [](u64 i, Ctx& c) { Dec q(i); double x = q.pick(pc), y = q.pick(pc); int k = int(q.take(4)); if (k & 1) polar_inv<double>(x, y, k & 2, c); else polar_inv<float>(x, y, k & 2, c); });
    domain("pole-project", "star direction, Cartesian tangent point exactly at either pole, both precisions", pl.size() * pd.size() * 4, [](u64 i, Ctx& c) { Dec q(i); double a = q.pick(pl), d = q.pick(pd); int k = int(q.take(4)); if (k & 1) polar_fwd<double>(a, d, k & 2, c); else polar_fwd<float>(a, d, k & 2, c); });
}
