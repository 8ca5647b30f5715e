// Greenwich mean sidereal time from UT1, single- and split-argument forms.
#include "alpha.h"
#include "slalib.h"
using namespace mc;
static const bool full_depth = (g_deep = true);
static L gmst_ref(L d, L f, L& mag) {
    L jc = (f + (d - 51544.5L)) / 36525;
    L drift = (24110.54841L + (8640184.812866L + (0.093104L - 6.2e-6L * jc) * jc) * jc);
    L day = (d - std::floor(d)) + (f - std::floor(f));
    L a = drift / 86400;
    mag = absL(drift) / 86400 * 2 * PI_L + 20;
    return ((a - std::floor(a)) + day) * 2 * PI_L;
}
static void one(double ut, Ctx& c) {
    c.say("gmst(%.17g)", ut);
    L mag; L e = gmst_ref(ut, 0, mag); double g = sla::gmst(ut); N(1);
    L tol = mag * 4.8e-15L;
    CHECK(g >= 0 && g <= 2 * PI, "gmst(%.17g) = %.17g out of range", ut, g);
    CHECK(absL(wrapL(g - e)) <= tol, "gmst(%.17g) = %.17g, expected %.17Lg (mod 2pi)", ut, g, wrapL(e));
}
static void split(double d, double f, Ctx& c) {
    c.say("gmsta(%.17g,%.17g)", d, f);
    L mag; L e = gmst_ref(d, f, mag); double g = sla::gmsta(d, f), h = sla::gmsta(f, d); N(2);
    L tol = mag * 4.8e-15L;
    CHECK(g >= 0 && g <= 2 * PI, "gmsta(%.17g,%.17g) = %.17g out of range", d, f, g);
    CHECK(absL(wrapL(g - e)) <= tol, "gmsta(%.17g,%.17g) = %.17g, expected %.17Lg (mod 2pi)", d, f, g, wrapL(e));
    CHECK(absL(wrapL(L(g) - h)) <= tol, "gmsta depends on the order of its arguments at %.17g,%.17g", d, f);
}
void mc::define() {
    static std::vector<std::string> fs = {"gmst.cc", "gmsta.cc", "dranrm.cc"};
    static VD tod = uniq(VD{0.0, 0.5, 0.25, 1e-9, 0.999999} + generic(0, 1, 24));
    domain("days", "every MJD -100000..200000 x times of day", 300001 * tod.size(), [](u64 i, Ctx& c) { Dec q(i); double f = q.pick(tod); one(double(int64_t(q.i) - 100000) + f, c); });
    static VD xs = uniq(around({51544.5, 51544, 0, 33282, 15020}, {1e-12, 1e-9, 1e-6, 1e-3, 0.1}) + litset(fs, -1e7, 1e7) + grid(-2400000, 2400000, 48001) + generic(40000, 70000, 1000000));
    domain("instants", "remote and generic instants, J2000 neighbourhood, constants of the sources", xs.size(), [](u64 i, Ctx& c) { one(xs[i], c); });
    static VD ds = uniq(VD{0, 51544, 51544.5, 60000, -3000, 40000.25} + around({51544.5}, {1e-6, 0.1}) + grid(-400000, 400000, 8001) + litset(fs, -1e6, 1e6, 1, 100));
    static VD fd = uniq(VD{0.0, -0.0, 0.25, 0.5, 0.75, 1.0, -0.25, -0.5, 1.5, -1.5, 51544.5, 60000.125, -60000.125, 2.0, 1e-12, -1e-12} + generic(-1, 2, 200) + around({0.0, 1.0}, {1e-12, 1e-6}) + litset(fs, -1e5, 1e5, 1, 60));
    domain("splits", "date x apportioned part, both argument orders", ds.size() * fd.size(), [](u64 i, Ctx& c) { Dec q(i); double d = q.pick(ds); split(d, q.pick(fd), c); });
    domain("days-split", "every MJD -100000..200000 x times of day as separate arguments", 300001 * tod.size(), [](u64 i, Ctx& c) { Dec q(i); double f = q.pick(tod); split(double(int64_t(q.i) - 100000), f, c); });
}
