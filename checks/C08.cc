// Besselian and Julian epochs <-> MJD and between each other.
#include "alpha.h"
#include "slalib.h"
using namespace mc;
static const bool full_depth = (g_deep = true);
static L B2D(L b) { return 15019.81352L + (b - 1900) * 365.242198781L; }
static L D2B(L d) { return 1900 + (d - 15019.81352L) / 365.242198781L; }
static L J2D(L j) { return 51544.5L + (j - 2000) * 365.25L; }
static L D2J(L d) { return 2000 + (d - 51544.5L) / 365.25L; }
static void one(double e, Ctx& c) {
    c.say("epoch %.17g", e);
    L te = 2e-12L + absL(e) * 2e-15L, td = (absL(e) + 3000) * 365.25L * 2.4e-15L;
    CHECK((N(1), near(sla::epj2d(e), J2D(e), td)), "epj2d(%.17g) = %.17g, expected %.17Lg", e, sla::epj2d(e), J2D(e));
    CHECK((N(1), near(sla::epb2d(e), B2D(e), td)), "epb2d(%.17g) = %.17g, expected %.17Lg", e, sla::epb2d(e), B2D(e));
    CHECK((N(1), near(sla::epj(e), D2J(e), te)), "epj(%.17g) = %.17g, expected %.17Lg", e, sla::epj(e), D2J(e));
    CHECK((N(1), near(sla::epb(e), D2B(e), te)), "epb(%.17g) = %.17g, expected %.17Lg", e, sla::epb(e), D2B(e));
    CHECK((N(2), near(sla::epj(sla::epj2d(e)), e, te + 1e-12L)), "Julian epoch %.17g does not survive the round trip", e);
    CHECK((N(2), near(sla::epb(sla::epb2d(e)), e, te + 1e-12L)), "Besselian epoch %.17g does not survive the round trip", e);
}
static void conv(char r, char g, double e, Ctx& c) {
    c.say("epco('%c','%c',%.17g)", r, g, e);
    double v = sla::epco(r, g, e); N(1);
    auto kind = [](char k) { return k == 'B' || k == 'b' ? 'B' : k == 'J' || k == 'j' ? 'J' : 0; };
    char kr = kind(r), kg = kind(g);
    if (!kr && !kg && r == g) return; // the documentation is contradictory here
    if (!kr || !kg) { CHECK(v == 0.0, "invalid epoch types %d/%d: %.17g returned, expected 0", r, g, v); return; }
    if (kr == kg) { CHECK(v == e, "same epoch type %d/%d: %.17g returned for %.17g", r, g, v, e); return; }
    L x = kr == 'B' ? D2B(J2D(e)) : D2J(B2D(e));
    CHECK(near(v, x, 3e-12L + absL(e) * 3.6e-15L), "epoch conversion to %c from %c of %.17g: %.17g, expected %.17Lg", r, g, e, v, x);
}
void mc::define() {
    static std::vector<std::string> fs = {"epb.cc", "epj.cc", "epb2d.cc", "epj2d.cc", "epco.cc"};
    static VD es = uniq(grid(-10000, 12000, g_thorough ? 2200001 : 220001) + generic(1800, 2200, 50000) + grid(-3000000, 3000000, 60001) + VD{0.0, -0.0, 1e-300, 1e7, -1e7, 1e9} + around({1900, 1950, 1975, 1984, 2000, 2050, 15019.81352, 51544.5, 33281.92345905}, {1e-9, 1e-6, 1e-3, 1}) + litset(fs, -1e7, 1e7));
    domain("epochs", "epochs/MJDs: grid -10000..12000, +-3e6, fundamental epochs with neighbours, constants of the sources", es.size(), [](u64 i, Ctx& c) { one(es[i], c); });
    static VD ee = uniq(grid(-4000, 6000, 201) + VD{1900, 1950, 1975, 2000, 1949.9997904423, 2000.001277513665, 0.0, 1e5, -1e5} + litset(fs, -1e6, 1e6, 1, 60));
    domain("types", "all 256 x 256 pairs of epoch type characters x epochs", 65536 * ee.size(), [](u64 i, Ctx& c) { Dec q(i); char r = char(q.take(256)), g = char(q.take(256)); conv(r, g, q.pick(ee), c); });
}
