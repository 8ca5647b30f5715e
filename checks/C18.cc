// Tangent point from a star's direction and plane coordinates: soundness, completeness, agreement of the two forms.
#include "alpha.h"
#include "slalib.h"
using namespace mc;
struct Fr { V3 t, e, n; };
static Fr frame(L a, L d) { return {dirv(a, d), {-sinl(a), cosl(a), 0}, {-sinl(d) * cosl(a), -sinl(d) * sinl(a), cosl(d)}}; }
static Fr frame_v(V3 t) { L r = hypotl(t.x, t.y); L ca = r == 0 ? 1 : t.x / r, sa = r == 0 ? 0 : t.y / r; return {t, {-sa, ca, 0}, {-t.z * ca, -t.z * sa, r}}; }
// want: tangent point known to be a solution (or null)
template<class T> static void one(T xi, T eta, T a, T d, const V3* want, Ctx& c) {
    const bool dbl = sizeof(T) == 8; const L u = dbl ? 2.3e-16L : 1.2e-7L;
    char in[220]; snprintf(in, sizeof in, "%s xi=%.17g eta=%.17g star (%.17g,%.17g)", dbl ? "double" : "single", double(xi), double(eta), double(a), double(d)); c.say("%s", in);
    sla::Spherical<T> s[2]; for (auto& q: s) { q.set_ra(T(-77)); q.set_dec(T(-77)); }
    int n; if constexpr (sizeof(T) == 8) n = sla::dtps2c(xi, eta, {a, d}, s[0], s[1]); else n = sla::tps2c(xi, eta, {a, d}, s[0], s[1]);
    V3 P = dirv(a, d); T pv[3] = {T(P.x), T(P.y), T(P.z)}, v[2][3] = {{-7, -7, -7}, {-7, -7, -7}};
    int nv; if constexpr (sizeof(T) == 8) nv = sla::dtpv2c(xi, eta, pv, v[0], v[1]); else nv = sla::tpv2c(xi, eta, pv, v[0], v[1]);
    N(2);
    L k = 1 + L(xi) * xi + L(eta) * eta, sdf = sinl(d) * sqrtl(k), r2 = 1 + L(eta) * eta - sdf * sdf;
    L er2 = 20 * u * k, es = 12 * u * sqrtl(k);
    CHECK(n >= 0 && n <= 2 && nv >= 0 && nv <= 2, "%s: %d / %d solutions", in, n, nv);
    for (int m: {n, nv}) {
        CHECK(m == 0 ? r2 <= er2 : r2 >= -er2, "%s: %d solutions (spherical), %d (Cartesian), discriminant %.9Lg", in, n, nv, r2);
        if (m) CHECK(m == 1 ? absL(sdf) < 1 + es : absL(sdf) > 1 - es, "%s: %d solutions (spherical), %d (Cartesian), sin(dec)/cos(dist) = %.12Lg", in, n, nv, sdf);
    }
    if (!n) CHECK(s[0].get_ra() == T(-77) && s[1].get_dec() == T(-77), "%s: no solution, yet outputs were changed", in);
    L r = sqrtl(std::max(r2, er2)), rr = r / sqrtl(1 + L(eta) * eta); // conditioning of the root
    L cond = k * u * 60 / std::max(r, sqrtl(er2)) * (1 + sqrtl(k)) ;
    L amb = hypotl(xi, r) ; // RA determined by atan2(xi, r)
    bool dbltheroot = r2 < 40 * er2;
    for (int m = 0; m < 2 && n; m++) {
        L A = s[m].get_ra(), D = s[m].get_dec();
        CHECK(A >= 0 && A <= 2 * PI_L + 4 * u && absL(D) <= PI_L + 4 * u, "%s: solution %d (%.17Lg,%.17Lg) out of range", in, m + 1, A, D);
        if (m == 0 && n == 1 && absL(sdf) < 1 - es) CHECK(absL(D) <= PI_L / 2 + 4 * u, "%s: only solution (%.17Lg,%.17Lg) is over the pole", in, A, D);
        Fr f = frame(A, D); V3 w = f.t + L(xi) * f.e + L(eta) * f.n; L res = angsep(w, P);
        L tol = cond + (dbltheroot ? sqrtl(er2) * 4 : 0) + 40 * u * (1 + 0.1L * absL(a));
        CHECK(res <= tol, "%s: star is %.3Lg (allowed %.3Lg) away from its place about solution %d (%.17Lg,%.17Lg)", in, res, tol, m + 1, A, D);
    }
    for (int m = 0; m < 2 && nv && !dbltheroot; m++) {
        V3 t = v3(v[m]); L rho = hypotl(t.x, t.y);
        L tol = cond * 4 + 40 * u * (1 + 0.1L * absL(a));
        CHECK(near(norm(t), 1, tol + 20 * u * k), "%s: vector solution %d is not a unit vector (%.12Lg)", in, m + 1, norm(t));
        if (n) { L dd = vdiff(t, dirv(s[m].get_ra(), s[m].get_dec())); L cosd = cosl(d); CHECK(dd <= tol * 4 + 100 * u * k / std::max(amb * absL(cosd), (L) 1e-12), "%s: vector solution %d differs from the spherical one by %.3Lg", in, m + 1, dd); }
        if (rho > 1e-3L && cosl(d) > (dbl ? 1e-6L : 1e-2L)) { Fr f = frame_v((1 / norm(t)) * t); V3 p1 = f.t + L(xi) * f.e + L(eta) * f.n, p2 = f.t - L(xi) * f.e - L(eta) * f.n; L res = angsep(p1, P); if (m == 1 || absL(sdf) > 1 - es) res = std::min(res, angsep(p2, P));
            CHECK(res <= (tol * 4 + 100 * u * k / std::max(amb * cosl(d), (L) 1e-12)) / rho, "%s: star is %.3Lg away from its place about vector solution %d", in, res, m + 1); }
    }
    if (want && !dbltheroot) { // completeness
        L best = 9; for (int m = 0; m < (absL(absL(sdf) - 1) < es ? 2 : n); m++) best = std::min(best, angsep(dirv(s[m].get_ra(), s[m].get_dec()), *want));
        CHECK(best <= cond * 4 + 60 * u + 8 * u * k / std::max(amb, sqrtl(er2)), "%s: the true tangent point is not among the %d solutions (off %.3Lg)", in, n, best);
    }
}
template<class T> static void from_tangent(const double* x, Ctx& c) {
    T xi = T(x[0]), eta = T(x[1]); Fr f = frame(x[2], x[3]); V3 p = f.t + L(xi) * f.e + L(eta) * f.n;
    T a = T(atan2l(p.y, p.x)), d = T(atan2l(p.z, hypotl(p.x, p.y)));
    L cd = hypotl(p.x, p.y) / norm(p); V3 t = f.t;
    if (cd < (sizeof(T) == 8 ? 1e-4L : 0.05L) || !(absL(x[3]) < PI / 2)) { one<T>(xi, eta, a, d, nullptr, c); return; }
    // the star's declination is itself rounded: the tangent point moves accordingly (bounded by conditioning)
    L k = 1 + L(xi) * xi + L(eta) * eta, sdf = sinl(d) * sqrtl(k), r2 = 1 + L(eta) * eta - sdf * sdf;
    if (r2 < 1e-3L || k > 20) { one<T>(xi, eta, a, d, nullptr, c); return; }
    one<T>(xi, eta, a, d, &t, c);
}
template<class T> static void polar(T xi, T eta, T z, Ctx& c) {
    T p[3] = {0, 0, z}, v[2][3] = {{-7, -7, -7}, {-7, -7, -7}}; c.say("xi=%.17g eta=%.17g star at the pole %g", double(xi), double(eta), double(z));
    int n; if constexpr (sizeof(T) == 8) n = sla::dtpv2c(xi, eta, p, v[0], v[1]); else n = sla::tpv2c(xi, eta, p, v[0], v[1]);
    N(1); CHECK(n >= 0 && n <= 2 && (xi == 0 || n == 0), "xi=%.17g eta=%.17g, star at the pole: %d solutions", double(xi), double(eta), n);
    for (int m = 0; m < 2; m++) if (!n) CHECK(v[m][0] == -7 && v[m][1] == -7 && v[m][2] == -7, "xi=%.17g eta=%.17g, star at the pole: no solution, yet outputs were changed", double(xi), double(eta));
    for (int m = 0; m < n; m++) {
        V3 t = v3(v[m]); L res = 9; if (norm(t) > 0.9L) { Fr f = frame_v(t); V3 w = f.t + L(xi) * f.e + L(eta) * f.n; res = angsep(w, v3(p)); }
        CHECK(near(norm(t), 1, 1e-5L) && res <= 1e-5L, "xi=%.17g eta=%.17g, star at the pole: (%.9g,%.9g,%.9g) is not a solution", double(xi), double(eta), double(v[m][0]), double(v[m][1]), double(v[m][2]));
    }
}
void mc::define() {
    std::vector<std::string> f = {"dtps2c.cc", "tps2c.cc", "dtpv2c.cc", "tpv2c.cc"};
    VD z = uniq(VD{0.0, 1e-9, 1e-6, -1e-4, 0.001, -0.01, 0.1, 0.5, -1, 2, 5, -10} + generic(-2, 2, 8)), zf = uniq(z + generic(-3, 3, 300) + grid(-1, 1, 101) + litset(f, -10, 10)), zt = {0, 0.03, -0.4, 1.3};
    Axis la = lat_axis(f, 150); la.coarse = uniq(la.coarse + generic(-1.57, 1.57, 12) + VD{1.5, -1.5, 1.56, -1.56}); la.tiny = {0.0, 0.6, -1.1, 1.5, -1.55, PI / 2, -PI / 2};
    static Star t = star({{zf, z, zt}, {zf, z, zt}, lon_axis(f, 100), la});
    domain("star-given", "plane coordinates x star direction, star product; spherical and Cartesian; both precisions", t.total, [](u64 i, Ctx& c) { double x[4]; t.get(i, x); one<double>(x[0], x[1], x[2], x[3], nullptr, c); if (!c.failed) one<float>(float(x[0]), float(x[1]), float(x[2]), float(x[3]), nullptr, c); });
    domain("tangent-given", "plane coordinates x tangent point: the star is placed by the reference projection and the tangent point must be found again", t.total, [](u64 i, Ctx& c) { double x[4]; t.get(i, x); from_tangent<double>(x, c); if (!c.failed) from_tangent<float>(x, c); });
    static VD pd = uniq(generic(1.3, 1.5707, 60) + VD{PI / 2, PI / 2 - 1e-3, PI / 2 - 1e-2}), px = uniq(generic(-0.3, 0.3, 40) + VD{0, 0.01, -0.01, 0.1});
    domain("polar", "stars within 15 degrees of either pole x plane coordinates within 0.3 (one, two and no solutions)", pd.size() * px.size() * px.size() * 2, [](u64 i, Ctx& c) { Dec q(i); double d = q.pick(pd), x = q.pick(px), y = q.pick(px); if (q.take(2)) d = -d; one<double>(x, y, 2.5, d, nullptr, c); if (!c.failed) one<float>(float(x), float(y), 2.5f, float(d), nullptr, c); });
    static VD pz = uniq(z + generic(-2, 2, 30));
    domain("pole-star", "Cartesian star exactly at either pole x plane coordinates: whatever is returned as a solution must be one; both precisions", pz.size() * pz.size() * 4, [](u64 i, Ctx& c) { Dec q(i); double x = q.pick(pz), y = q.pick(pz); int k = int(q.take(4)); if (k & 1) polar<double>(x, y, k & 2 ? -1 : 1, c); else polar<float>(float(x), float(y), k & 2 ? -1 : 1, c); });
}
