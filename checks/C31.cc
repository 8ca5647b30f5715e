// Lunar ephemerides: the abridged single-precision one and the full double-precision one.
#include "ephem.h"
#include "slalib.h"
using namespace mc;
static L mx(V3 a) { return nmax(absL(a.x), nmax(absL(a.y), absL(a.z))); }
static L mjd_of(int y, int d, L f) { return 15019.5L + j1900_days(y, d, f); }
static void moon1(int y, int d, float f, Ctx& c) {
    c.say("year %d day %d fraction %.9g", y, d, f);
    sla::VectorPV<float> p(sla::Vector<float>{-9, -9, -9}, sla::Vector<float>{-9, -9, -9}); sla::moon(y, d, f, p); N(1);
    PV r = moon_ref(y, d, f); L t = absL(y - 1900), tp = 6e-8L + 1.7e-9L * t, tv = 2e-13L + 5e-15L * t;
    V3 P = v3(p.get_position()), V = v3(p.get_velocity());
    CHECK(mx(P - r.p) <= tp, "Moon position at %d/%d+%.9g: (%.9Lg,%.9Lg,%.9Lg), expected (%.9Lg,%.9Lg,%.9Lg)", y, d, f, P.x, P.y, P.z, r.p.x, r.p.y, r.p.z);
    CHECK(mx(V - r.v) <= tv, "Moon velocity at %d/%d+%.9g: (%.9Lg,%.9Lg,%.9Lg), expected (%.9Lg,%.9Lg,%.9Lg)", y, d, f, V.x, V.y, V.z, r.v.x, r.v.y, r.v.z);
    if (y >= 1960 && y <= 2025) { PV q = dmoon_ref(mjd_of(y, d, f)); CHECK(angsep(P, q.p) <= 60 * AS && absL(norm(P) - norm(q.p)) <= 1500 / 1.495978707e8L, "Moon at %d/%d+%.9g is %.3Lg arcsec and %.3Lg km from the full theory", y, d, f, angsep(P, q.p) / AS, (norm(P) - norm(q.p)) * 1.495978707e8L); }
}
static void dmoon1(double m, Ctx& c) {
    c.say("MJD %.17g", m);
    sla::VectorPV<double> p(sla::Vector<double>{-9, -9, -9}, sla::Vector<double>{-9, -9, -9}); sla::dmoon(m, p); N(1);
    PV r = dmoon_ref(m); L t = absL(m - 15019.5L) / 36525, tp = 1e-14L * (1 + t) * (1 + t), tv = 3e-20L * (1 + t) * (1 + t);
    V3 P = v3(p.get_position()), V = v3(p.get_velocity());
    CHECK(mx(P - r.p) <= tp, "Moon position at MJD %.17g: (%.17Lg,%.17Lg,%.17Lg), expected (%.17Lg,%.17Lg,%.17Lg)", m, P.x, P.y, P.z, r.p.x, r.p.y, r.p.z);
    CHECK(mx(V - r.v) <= tv, "Moon velocity at MJD %.17g: (%.17Lg,%.17Lg,%.17Lg), expected (%.17Lg,%.17Lg,%.17Lg)", m, V.x, V.y, V.z, r.v.x, r.v.y, r.v.z);
}
// residual of the abridged theory, projected on one series term over ten years: single-precision noise averages out, so
// every coefficient is decided to well below its own size
static void term1(int kind, int k, Ctx& c) {
    c.say("%s term %d", kind == 0 ? "longitude" : kind == 1 ? "latitude" : "parallax", k);
    const L* row = kind == 0 ? DM_L[k] : kind == 1 ? DM_B[k] : DM_P[k]; L s = 0, sd = 0, n = 0, amp = 0;
    for (int y = 1900; y < 1911; y++) for (int d = 1; d <= 365; d++) for (float f: {0.0f, 0.5f}) {
        sla::VectorPV<float> p; sla::moon(y, d, f, p); N(1);
        L t = j1900_days(y, d, f) / 365.25L, ep = DEG * (23.45229L - 0.00013L * t);
        PV r = moon_ref(y, d, f), o = turnx({v3(p.get_position()), v3(p.get_velocity())}, -ep); r = turnx(r, -ep);
        L a[4] = {358.475833L + 359.990498L * t, 296.104608L + 4771.988491L * t, 350.737486L + 4452.671142L * t, 11.250889L + 4832.020251L * t}, th = DEG * (row[1] * a[0] + row[2] * a[1] + row[3] * a[2] + row[4] * a[3]), rate = (row[1] * 359.990498L + row[2] * 4771.988491L + row[3] * 4452.671142L + row[4] * 4832.020251L) * DEG / 31557600;
        L R = norm(r.p), res, resd; V3 dp = o.p - r.p, dv = o.v - r.v, er = 1 / R * r.p, el = 1 / sqrtl(r.p.x * r.p.x + r.p.y * r.p.y) * V3{-r.p.y, r.p.x, 0}, eb = cross(er, el);
        V3 e = kind == 0 ? el : kind == 1 ? eb : er; res = dot(dp, e) / R; resd = dot(dv, e) / R;
        L w = kind == 2 ? cosl(th) : sinl(th), wd = kind == 2 ? -sinl(th) : cosl(th);
        s += res * w; sd += resd * wd; n += 0.5L; amp = std::max(amp, absL(rate));
    }
    s /= n; sd /= n; L lim = kind == 2 ? 6e-6L : 2.5e-6L;
    if (getenv("VERIF_TERMS")) fprintf(stderr, "%d %d %.3Lg %.3Lg (%.3Lg)\n", kind, k, s, sd, amp);
    CHECK(absL(s) <= lim, "coefficient of %s term %d (%.6Lg deg) is off by %.3Lg rad", kind == 0 ? "longitude" : kind == 1 ? "latitude" : "parallax", k, row[0], s);
    CHECK(absL(sd) <= lim * 2.2e-5L, "rate of %s term %d (%.6Lg deg) is off by %.3Lg rad/s", kind == 0 ? "longitude" : kind == 1 ? "latitude" : "parallax", k, row[0], sd);
}
void mc::define() {
    std::vector<std::string> f = {"moon.cc"}, g = {"dmoon.cc"};
    static VF fr = g_thorough ? tof(uniq(VD{0, 0.5, 1e-6, 0.99999994, 1} + generic(0, 1, 16))) : tof(VD{0, 0.5, 0.99999994, 0.31});
    domain("abridged: all days 1900-2100", "every year 1900..2100, day 1..366, fractions of day", 201ull * 366 * fr.size(), [](u64 i, Ctx& c) { Dec x(i); int d = 1 + int(x.take(366)); float q = fr[x.take(fr.size())]; moon1(1900 + int(x.take(201)), d, q, c); });
    static std::vector<int> ys; for (int y = 1000; y <= 3000; y++) if (y < 1900 || y > 2100) ys.push_back(y);
    domain("abridged: distant years", "every year 1000..3000 outside 1900-2100, 13 days x 2 fractions", ys.size() * 26, [](u64 i, Ctx& c) { Dec x(i); static const int ds[13] = {1, 2, 31, 59, 60, 61, 100, 182, 183, 250, 300, 365, 366}; int d = ds[x.take(13)]; float q = x.take(2) ? 0.63f : 0.0f; moon1(ys[x.take(ys.size())], d, q, c); });
    static VD fin_ = uniq(litset(f, 0, 1) + grid(0, 1, 2001));
    domain("abridged: fractions", "2000 steps of the day and every constant of the code, selected days", fin_.size() * 6, [](u64 i, Ctx& c) { Dec x(i); static const int yd[6][2] = {{1900, 1}, {1987, 100}, {2000, 366}, {2024, 60}, {2099, 365}, {1951, 182}}; int k = int(x.take(6)); moon1(yd[k][0], yd[k][1], float(x.pick(fin_)), c); });
    domain("abridged: series terms", "each of the 39 longitude, 29 latitude and 5 parallax terms, projected over 1900-1910", 73, [](u64 i, Ctx& c) { i < 39 ? term1(0, int(i), c) : i < 68 ? term1(1, int(i) - 39, c) : term1(2, int(i) - 68, c); });
    static VD m = uniq(grid(15020, 88069, g_thorough ? 1460981 : 73050) + generic(-300000, 400000, g_thorough ? 200000 : 20000) + around({51544.5, 15019.5, 0, 88069, 33282}, {0.5, 1, 1e-6, 1e-3}) + litset(g, -200000, 300000));
    domain("full: dates", "every day 1900-2100, fixed points over 1900 years, all constants of the code", m.size(), [](u64 i, Ctx& c) { dmoon1(m[i], c); });
}
