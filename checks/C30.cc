// Low-precision Earth ephemeris and the radial velocity / light-time corrections derived from it.
#include "ephem.h"
#include "slalib.h"
using namespace mc;
static L mx(V3 a) { return nmax(absL(a.x), nmax(absL(a.y), absL(a.z))); }
static L mjd_of(int y, int d, L f) { return 15019.5L + j1900_days(y, d, f); }
static void earth1(int y, int d, float f, Ctx& c) {
    c.say("year %d day %d fraction %.9g", y, d, f);
    sla::VectorPV<float> p(sla::Vector<float>{-9, -9, -9}, sla::Vector<float>{-9, -9, -9}); sla::earth(y, d, f, p); N(1);
    PV r = earth_ref(y, d, f); L t = absL(y - 1900) + 1, tp = 3e-6L + 1e-9L * t, tv = 6e-13L + 1e-15L * t;
    V3 P = v3(p.get_position()), V = v3(p.get_velocity());
    CHECK(mx(P - r.p) <= tp, "Earth position at %d/%d+%.9g: (%.9Lg,%.9Lg,%.9Lg), expected (%.9Lg,%.9Lg,%.9Lg)", y, d, f, P.x, P.y, P.z, r.p.x, r.p.y, r.p.z);
    CHECK(mx(V - r.v) <= tv, "Earth velocity at %d/%d+%.9g: (%.9Lg,%.9Lg,%.9Lg), expected (%.9Lg,%.9Lg,%.9Lg)", y, d, f, V.x, V.y, V.z, r.v.x, r.v.y, r.v.z);
    if (y >= 1950 && y <= 2050) { // the documented accuracy, against the independent precise theory
        PV b, h; evp_ref(mjd_of(y, d, f), 0, b, h);
        CHECK(norm(P - h.p) <= 16e-5L && norm(V - h.v) <= 52e-10L, "Earth at %d/%d+%.9g is %.3Lg AU, %.3Lg AU/s from the precise theory", y, d, f, norm(P - h.p), norm(V - h.v));
    }
}
static void ecor1(double a, double b, int y, int d, float f, Ctx& c) {
    float fa = float(a), fb = float(b);
    c.say("direction (%.9g,%.9g) year %d day %d fraction %.9g", fa, fb, y, d, f);
    float v = -9, lt = -9; sla::ecor({fa, fb}, y, d, f, v, lt); N(1);
    PV r = earth_ref(y, d, f); V3 s = dirv(fa, fb); L ev = -1.4959787066e8L * dot(r.v, s), el = 499.0047837L * dot(r.p, s), big = 1 + absL(fa) / 3;
    CHECK(near(v, ev, 1.5e-4L * big) && near(lt, el, 2.5e-3L * big), "correction toward (%.9g,%.9g) at %d/%d+%.9g: %.9g km/s, %.9g s; expected %.9Lg, %.9Lg", fa, fb, y, d, f, v, lt, ev, el);
}
void mc::define() {
    std::vector<std::string> f = {"earth.cc", "ecor.cc"};
    static VF fr = g_thorough ? tof(uniq(VD{0, 0.5, 0.25, 0.75, 1e-6, 0.99999994, 1} + generic(0, 1, 40) + litset(f, 0, 1))) : tof(VD{0, 0.5, 0.99999994, 0.31, 0.77});
    domain("all days 1900-2100", "every year 1900..2100, day 1..366, fractions of day", 201ull * 366 * fr.size(), [](u64 i, Ctx& c) { Dec x(i); int d = 1 + int(x.take(366)); float q = fr[x.take(fr.size())]; earth1(1900 + int(x.take(201)), d, q, c); });
    static VD fin_ = uniq(litset(f, 0, 1) + grid(0, 1, 2001));
    domain("fractions", "2000 steps of the day and every constant of the code, selected days", fin_.size() * 6, [](u64 i, Ctx& c) { Dec x(i); static const int yd[6][2] = {{1900, 1}, {1987, 100}, {2000, 366}, {2024, 60}, {2099, 365}, {1951, 182}}; int k = int(x.take(6)); earth1(yd[k][0], yd[k][1], float(x.pick(fin_)), c); });
    static std::vector<int> ys; for (int y = -600; y <= 3600; y++) if (y < 1900 || y > 2100) ys.push_back(y);
    domain("distant years", "every year -600..3600 outside 1900-2100, 13 days x 2 fractions", ys.size() * 26, [](u64 i, Ctx& c) { Dec x(i); static const int ds[13] = {1, 2, 31, 59, 60, 61, 100, 182, 183, 250, 300, 365, 366}; int d = ds[x.take(13)]; float q = x.take(2) ? 0.63f : 0.0f; earth1(ys[x.take(ys.size())], d, q, c); });
    VD yf = grid(1900, 2100, 201), df = grid(1, 366, 366);
    static Star s = star({lon_axis(f, 60), lat_axis(f, 60), {yf, {1900, 1950, 1987, 2000, 2024, 2100}, {1900, 1987, 2023}, {}}, {df, {1, 59, 60, 91, 182, 274, 365, 366}, {1, 60, 200, 366}, {}}, {uniq(grid(0, 1, 101) + litset(f, 0, 1)), {0, 0.5, 0.99}, {0, 0.4}, {}}});
    domain("directions", "direction x year x day x fraction, star product", s.total, [](u64 i, Ctx& c) { double x[5]; s.get(i, x); ecor1(x[0], x[1], int(x[2]), int(x[3]), float(x[4]), c); });
}
