// Interval/angle -> sexagesimal fields, rounded to a number of decimal places.
#include "alpha.h"
#include "slalib.h"
using namespace mc;

enum Kind { DD2TF, CD2TF, DR2AF, CR2AF, DR2TF, CR2TF };
static const char* KN[] = {"dd2tf", "cd2tf", "dr2af", "cr2af", "dr2tf", "cr2tf"};
static const L P10[] = {1, 10, 100, 1000, 1e4L, 1e5L, 1e6L, 1e7L, 1e8L, 1e9L};

static void one(int kind, int ndp, double x, Ctx& c) {
    c.say("%s ndp=%d x=%.17g", KN[kind], ndp, x);
    sla::ConversionResult r; memset(&r, 0x5a, sizeof r); r.set_sign(false);
    L units = 0, rel; int p = ndp < 0 ? 0 : ndp;
    switch (kind) {
        case DD2TF: sla::dd2tf(ndp, x, r); units = absL(x) * 86400; rel = 6e-16L; break;
        case CD2TF: x = float(x); sla::cd2tf(ndp, float(x), r); units = absL(x) * 86400; rel = 6e-16L; break;
        case DR2AF: sla::dr2af(ndp, x, r); units = absL(x) * 180 / PI_L * 3600; rel = 1e-15L; break;
        case CR2AF: x = float(x); sla::cr2af(ndp, float(x), r); units = absL(x) * 180 / PI_L * 3600; rel = 3e-7L; break;
        case DR2TF: sla::dr2tf(ndp, x, r); units = absL(x) * 12 / PI_L * 3600; rel = 1e-15L; break;
        default: x = float(x); sla::cr2tf(ndp, float(x), r); units = absL(x) * 12 / PI_L * 3600; rel = 3e-7L; break;
    }
    N(1);
    units *= P10[p];
    int h = r.get_hours(), m = r.get_minutes(), s = r.get_seconds(), f = r.get_fraction();
    CHECK(h >= 0 && m >= 0 && m <= 59 && s >= 0 && s <= 59 && f >= 0 && f < P10[p], "%s ndp=%d x=%.17g: fields %d %d %d %d out of range", KN[kind], ndp, x, h, m, s, f);
    if (std::fabs(x) > 1e-30 || x == 0) CHECK(r.get_sign() == (x >= 0 ? '+' : '-'), "%s ndp=%d x=%.17g: sign %c", KN[kind], ndp, x, r.get_sign());
    L got = ((L(h) * 60 + m) * 60 + s) * P10[p] + f;
    CHECK(near(got, units, 0.5L + rel * units + (kind == CR2AF || kind == CR2TF ? 1e-30L : 0)), "%s ndp=%d x=%.17g: %c%d %d %d . %d is %.3Lf units of the last place away from the value", KN[kind], ndp, x, r.get_sign(), h, m, s, f, got - units);
    if (kind == DD2TF || kind == CD2TF) { // an exact half rounds away from zero
        double q = double(P10[p] * 86400), pr = std::fabs(x) * q;
        if (std::fma(std::fabs(x), q, -pr) == 0 && pr - std::floor(pr) == 0.5) CHECK(got > pr, "%s ndp=%d x=%.17g: %d %d %d . %d, an exact half not rounded up", KN[kind], ndp, x, h, m, s, f);
    }
}

void mc::define() {
    static VI ndps = {-5, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9};
    static std::vector<std::string> fs = {"dd2tf.cc", "cd2tf.cc", "dr2af.cc", "cr2af.cc", "dr2tf.cc", "cr2tf.cc"};
    // every second of the day / arcsecond of the circle, offset by fractions of the last place
    static VD off = {0, 0.25, 0.49, 0.499999, 0.5, 0.500001, 0.51, 0.75, 0.999, -0.25, -0.49, -0.5, -0.51, -0.001};
    for (int kind: {DD2TF, DR2TF, DR2AF}) {
        u64 nsec = kind == DR2AF ? 1296001 : 86401;
        static VI nd = {0, 1, 3, 6, 9};
        domain(std::string("all-seconds/") + KN[kind], "every whole (arc)second of the full circle/day x rounding offsets x ndp{0,1,3,6,9}, both signs alternating", nsec * off.size() * nd.size(), [=](u64 i, Ctx& c) {
            Dec q(i); double o = q.pick(off); int n = q.pick(nd); u64 s = q.i;
            L u = (L(s) + L(o) / P10[n]);
            L x = kind == DD2TF ? u / 86400 : kind == DR2TF ? u / 43200 * PI_L : u / 648000 * PI_L;
            one(kind, n, double((i & 1) ? -x : x), c); });
    }
    // carry chains: all values within +-3 last places of every whole minute, all ndp
    for (int kind = 0; kind < 6; kind++) {
        u64 nmin = (kind == DR2AF || kind == CR2AF) ? 360 * 60 + 61 : 24 * 60 + 61;
        domain(std::string("carry/") + KN[kind], "within 3 units of the last place of every whole minute up to one past the full turn x ndp -5..9 x both signs", nmin * 25 * ndps.size() * 2, [=](u64 i, Ctx& c) {
            Dec q(i); int k = int(q.take(25)) - 12; int n = q.pick(ndps); int sg = q.take(2) ? -1 : 1; u64 mnt = q.i;
            L u = L(mnt) * 60 + k * 0.25L / P10[n < 0 ? 0 : n];
            L x = kind == DD2TF || kind == CD2TF ? u / 86400 : kind == DR2TF || kind == CR2TF ? u / 43200 * PI_L : u / 648000 * PI_L;
            one(kind, n, double(sg * x), c); });
    }
    for (int kind: {DD2TF, CD2TF}) domain(std::string("halves/") + KN[kind], "every multiple of 2^-8..2^-17 of a day up to 2^12 of them x ndp -1..9 x both signs (exact halves of the last place among them)", 10 * 4096 * 11 * 2, [=](u64 i, Ctx& c) {
        Dec q(i); int n = int(q.take(11)) - 1; int sg = q.take(2) ? -1 : 1; int e = int(q.take(10)) + 8; one(kind, n, sg * std::ldexp(double(q.i), -e), c); });
    static VD xs = uniq(around({0.0, 1.0, 2.0, 0.5, 0.25, PI, 2 * PI, PI / 2, 1e-5, 1.0 / 86400}, {1e-16, 1e-14, 1e-12, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 5e-6, 1e-5, 1e-4, 1e-3}) + generic(-1, 1, g_thorough ? 200000 : 20000) + generic(-7, 7, 20000) + generic(-1000, 1000, 5000)
        + VD{-0.0, 5e-324, -5e-324, 1e-300, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 2e7, -1e2, -1e5, -1e7, 99.99999999, 365.25} + litset(fs, -1e7, 1e7) + litset(fs, -1e7, 1e7, 1.0 / 86400) + litset(fs, -1e3, 1e3, 1.0 / 24) + litset(fs, -1e3, 1e3, PI / 180) + litset(fs, -1e3, 1e3, PI / 12));
    for (int kind = 0; kind < 6; kind++)
        domain(std::string("values/") + KN[kind], "value alphabet (turn fractions, tiny, large, generic, constants of the sources) x ndp -5..9", xs.size() * ndps.size(), [=](u64 i, Ctx& c) { Dec q(i); double x = q.pick(xs); one(kind, q.pick(ndps), x, c); });
    // all single precision numbers in a block
    u64 nf = g_thorough ? 0x42000000u : 0x00400000u; // thorough: every float from 2^-? up to 32
    domain("all-floats/cd2tf", g_thorough ? "every non-negative float up to 32, ndp 3" : "every float in [0.5,0.75), ndp 3", (nf + 4095) / 4096, [=](u64 i, Ctx& c) {
        for (u64 k = 0; k < 4096 && !c.failed; k++) { u64 b = i * 4096 + k; if (b >= nf) break; uint32_t u = uint32_t(g_thorough ? b : 0x3f000000u + b); float f; memcpy(&f, &u, 4); one(CD2TF, 3, f, c); } });
}
