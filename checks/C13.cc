// Angular separation and bearing/position angle between directions.
#include "alpha.h"
#include "slalib.h"
using namespace mc;
static L bearing_ref(V3 a, V3 b, L& size) { // a unit
    L sq = b.y * a.x - b.x * a.y, cq = b.z * (a.x * a.x + a.y * a.y) - a.z * (b.x * a.x + b.y * a.y);
    size = hypotl(sq, cq) / std::max(norm(b), (L) 1e-300L); return atan2l(sq, cq);
}
static void sph(double a1, double b1, double a2, double b2, Ctx& c) {
    c.say("points (%.17g,%.17g) (%.17g,%.17g)", a1, b1, a2, b2);
    L aa = absL(a1) + absL(a2), e0 = 4e-15L + aa * 9.2e-16L;
    V3 p = dirv(a1, b1), q = dirv(a2, b2); L es = angsep(p, q);
    double s = sla::dsep({a1, b1}, {a2, b2}), s2 = sla::dsep({a2, b2}, {a1, b1}); N(2);
    CHECK(s >= 0 && s <= PI, "separation of (%.17g,%.17g),(%.17g,%.17g) is %.17g", a1, b1, a2, b2, s);
    CHECK(near(s, es, 4e-15L) && near(s2, es, 4e-15L), "separation of (%.17g,%.17g),(%.17g,%.17g) is %.17g / %.17g, expected %.17Lg", a1, b1, a2, b2, s, s2, es);
    float f1 = float(a1), g1 = float(b1), f2 = float(a2), g2 = float(b2);
    float fs = sla::sep({f1, g1}, {f2, g2}); N(1);
    CHECK(fs >= 0 && near(fs, angsep(dirv(f1, g1), dirv(f2, g2)), 6e-07L), "single separation of (%.9g,%.9g),(%.9g,%.9g) is %.9g", f1, g1, f2, g2, fs);
    double be = sla::dbear({a1, b1}, {a2, b2}); N(1);
    CHECK(be >= -PI && be <= PI, "bearing of (%.17g,%.17g)->(%.17g,%.17g) is %.17g", a1, b1, a2, b2, be);
    if (a1 == a2 && b1 == b2) CHECK(be == 0, "bearing between coincident points (%.17g,%.17g) is %.17g", a1, b1, be);
    L y = sinl(L(a2) - a1) * cosl(b2), x = sinl(b2) * cosl(b1) - cosl(b2) * sinl(b1) * cosl(L(a2) - a1), sz = hypotl(x, y);
    if (sz > 1e-9L) CHECK(absL(wrapL(be - atan2l(y, x))) <= e0 / sz + 4e-15L, "bearing of (%.17g,%.17g)->(%.17g,%.17g) is %.17g, expected %.17Lg", a1, b1, a2, b2, be, atan2l(y, x));
    else if (sz > 1e-150L) { // very close (or antipodal): where the geometry is not lost in rounding (e.g. around the origin)
        L dr = L(a2) - a1, e = 1e-15L * (absL(y) + absL(sinl(b2) * cosl(b1)) + absL(cosl(b2) * sinl(b1) * cosl(dr))) + 4e-16L * absL(dr) * cosl(b2);
        if (e < 0.01L * sz) CHECK(absL(wrapL(be - atan2l(y, x))) <= 1e-6L + 8 * e / sz, "bearing of (%.17g,%.17g)->(%.17g,%.17g) is %.17g, expected %.17Lg", a1, b1, a2, b2, be, atan2l(y, x));
    }
    float fb = sla::bear({f1, g1}, {f2, g2}); N(1);
    CHECK(fin(fb) && std::fabs(fb) <= 3.1415928f, "single bearing is %.9g", fb);
    if (f1 == f2 && g1 == g2) CHECK(fb == 0, "single bearing between coincident points (%.9g,%.9g) is %.9g", f1, g1, fb); 
    L yf = sinl(L(f2) - f1) * cosl(g2), xf = sinl(g2) * cosl(g1) - cosl(g2) * sinl(g1) * cosl(L(f2) - f1), szf = hypotl(xf, yf);
    if (szf > 0.02L) CHECK(absL(wrapL(fb - atan2l(yf, xf))) <= (8e-07L + aa * 2.6e-07L) / szf, "single bearing of (%.9g,%.9g)->(%.9g,%.9g) is %.9g, expected %.9Lg", f1, g1, f2, g2, fb, atan2l(yf, xf));
}
static void vec(const double* v, Ctx& c) {
    double a[3] = {v[0], v[1], v[2]}, b[3] = {v[3], v[4], v[5]};
    c.say("vectors (%.9g,%.9g,%.9g) (%.9g,%.9g,%.9g)", v[0], v[1], v[2], v[3], v[4], v[5]);
    double s = sla::dsepv(a, b), p = sla::dpav(a, b); N(2);
    L na = norm(v3(a)), nb = norm(v3(b));
    CHECK(s >= 0 && s <= PI, "separation of (%.17g,%.17g,%.17g),(%.17g,%.17g,%.17g) is %.17g", v[0], v[1], v[2], v[3], v[4], v[5], s);
    CHECK(p >= -PI && p <= PI, "position angle of (%.17g,%.17g,%.17g),(%.17g,%.17g,%.17g) is %.17g", v[0], v[1], v[2], v[3], v[4], v[5], p);
    if (na == 0 || nb == 0) CHECK(s == 0, "separation with a null vector is %.17g", s);
    else CHECK(near(s, angsep((1 / na) * v3(a), (1 / nb) * v3(b)), 4.8e-15L), "separation of (%.17g,%.17g,%.17g),(%.17g,%.17g,%.17g) is %.17g, expected %.17Lg", v[0], v[1], v[2], v[3], v[4], v[5], s, angsep((1 / na) * v3(a), (1 / nb) * v3(b)));
    if (!memcmp(a, b, sizeof a)) CHECK(p == 0, "position angle between coincident directions (%.17g,%.17g,%.17g) is %.17g", v[0], v[1], v[2], p);
    if (na > 0 && nb > 0) { L sz; L e = bearing_ref((1 / na) * v3(a), v3(b), sz); if (sz > 1e-9L) CHECK(absL(wrapL(p - e)) <= 8e-15L / sz + 4e-15L, "position angle of (%.17g,%.17g,%.17g),(%.17g,%.17g,%.17g) is %.17g, expected %.17Lg", v[0], v[1], v[2], v[3], v[4], v[5], p, e); }
    float fa[3], fb[3]; for (int k = 0; k < 3; k++) { fa[k] = float(a[k]); fb[k] = float(b[k]); }
    float fs = sla::sepv(fa, fb), fp = sla::pav(fa, fb); N(2); na = norm(v3(fa)); nb = norm(v3(fb));
    if (na == 0 || nb == 0) CHECK(fs == 0, "single separation with a null vector is %.9g", fs);
    else CHECK(fs >= 0 && near(fs, angsep((1 / na) * v3(fa), (1 / nb) * v3(fb)), 5e-07L), "single separation of (%.9g,%.9g,%.9g),(%.9g,%.9g,%.9g) is %.9g", fa[0], fa[1], fa[2], fb[0], fb[1], fb[2], fs);
    if (!memcmp(fa, fb, sizeof fa)) CHECK(fp == 0, "single position angle between coincident directions (%.9g,%.9g,%.9g) is %.9g", fa[0], fa[1], fa[2], fp);
    if (na > 0 && nb > 0) { L sz; L e = bearing_ref((1 / na) * v3(fa), v3(fb), sz); if (sz > 1e-6L) CHECK(absL(wrapL(fp - e)) <= 8e-07L + 4e-14L / sz, "single position angle of (%.9g,%.9g,%.9g),(%.9g,%.9g,%.9g) is %.9g, expected %.9Lg", fa[0], fa[1], fa[2], fb[0], fb[1], fb[2], fp, e); }
}
void mc::define() {
    static std::vector<std::string> f = {"dsep.cc", "sep.cc", "dsepv.cc", "sepv.cc", "dbear.cc", "bear.cc", "dpav.cc", "pav.cc"};
    static Star s = star({lon_axis(f, 200), lat_axis(f, 200), lon_axis(f, 200), lat_axis(f, 200)});
    domain("points", "two points: longitude/latitude star product (4 axes)", s.total, [](u64 i, Ctx& c) { double x[4]; s.get(i, x); sph(x[0], x[1], x[2], x[3], c); });
    // close, coincident and antipodal pairs at all scales
    static VD lo = uniq(lon_coarse() + generic(-4, 7, 40)), la = uniq(lat_coarse() + generic(-1.57, 1.57, 30)), off = uniq(VD{0.0, 1e-30, -3e-20, 1e-16, 7e-14, -3e-14, 1e-15, 1e-12, 1e-9, 1e-6, 1e-3, 0.1, -1e-15, -1e-9, -1e-6, -0.01} + lit_angles(f, -1, 1, 12));
    domain("close-pairs", "pairs separated by 0..0.1 rad at all scales around points of the sphere, and their antipodes", lo.size() * la.size() * off.size() * off.size() * 2, [](u64 i, Ctx& c) { Dec q(i); double a = q.pick(lo), b = q.pick(la), da = q.pick(off), db = q.pick(off); if (q.take(2)) sph(a, b, a + PI + da, -b + db, c); else sph(a, b, a + da, b + db, c); });
    static VD comp = uniq(VD{0.0, -0.0, 1, -1, 2, 0.6, -0.8, 1e-8, 1e8} + generic(-1, 1, 7) + litset(f, -10, 10, 1, 12));
    VD cf = uniq(comp + generic(-3, 3, 150) + litset(f, -10, 10, 1, 100)), ct = {0.0, 1.0, -0.7};
    static Star t = star({{cf, comp, ct}, {cf, comp, ct}, {cf, comp, ct}, {cf, comp, ct}, {cf, comp, ct}, {cf, comp, ct}}, true, 0);
    domain("vectors", "two vectors, star and pair products over six components, null vectors included", t.total, [](u64 i, Ctx& c) { double x[6]; t.get(i, x); vec(x, c); });
    static VD cv = uniq(generic(-2, 2, 60) + VD{0, 1, -1, 3, 1e-5});
    domain("coincident", "identical vectors over all component triples; then scaled by 2 and negated", cv.size() * cv.size() * cv.size() * 3, [](u64 i, Ctx& c) { Dec q(i); int k = int(q.take(3)); double x = q.pick(cv), y = q.pick(cv), z = q.pick(cv), m = k == 0 ? 1 : k == 1 ? 2 : -1; double w[6] = {x, y, z, m * x, m * y, m * z}; vec(w, c); });
}
