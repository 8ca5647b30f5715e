// Sexagesimal fields -> radians / days, with field validation.
#include "alpha.h"
#include "slalib.h"
using namespace mc;
static const bool full_depth = (g_deep = true);
enum Kind { DAF2R, CAF2R, DTF2D, CTF2D, DTF2R, CTF2R };
static const char* KN[] = {"daf2r", "caf2r", "dtf2d", "ctf2d", "dtf2r", "ctf2r"};
static void one(int kind, int a, int b, double s, Ctx& c) {
    bool single = kind & 1; if (single) s = float(s);
    c.say("%s %d %d %.17g", KN[kind], a, b, s);
    double r = -7e77; float rf = -7e30f; int st = -1; L unit; int amax;
    switch (kind) {
        case DAF2R: st = sla::daf2r(a, b, s, r); unit = PI_L / 648000; amax = 359; break;
        case CAF2R: st = sla::caf2r(a, b, float(s), rf); unit = PI_L / 648000; amax = 359; break;
        case DTF2D: st = sla::dtf2d(a, b, s, r); unit = 1.0L / 86400; amax = 23; break;
        case CTF2D: st = sla::ctf2d(a, b, float(s), rf); unit = 1.0L / 86400; amax = 23; break;
        case DTF2R: st = sla::dtf2r(a, b, s, r); unit = PI_L / 43200; amax = 23; break;
        default: st = sla::ctf2r(a, b, float(s), rf); unit = PI_L / 43200; amax = 23; break;
    }
    N(1);
    if (single) r = rf;
    L u = (L(a) * 60 + b) * 60 + s, mag = (absL(a) * 60 + absL(b)) * 60 + absL(s);
    CHECK(near(r, u * unit, mag * unit * (single ? 9e-07L : 3.6e-15L) + (single ? 1e-36L : 1e-300L)), "%s %d %d %.17g: value %.17g, expected %.17Lg", KN[kind], a, b, s, r, u * unit);
    bool ba = a < 0 || a > amax, bb = b < 0 || b > 59, bs = !(s >= 0 && s < 60);
    bool ok = (!ba && !bb && !bs) ? st == 0 : (st == 1 && ba) || (st == 2 && bb) || (st == 3 && bs);
    CHECK(ok, "%s %d %d %.17g: status %d", KN[kind], a, b, s, st);
}
void mc::define() {
    static std::vector<std::string> fs = {"daf2r.cc", "caf2r.cc", "dtf2d.cc", "ctf2d.cc", "dtf2r.cc", "ctf2r.cc"};
    static VD ss = uniq(VD{0.0, -0.0, 59.999, 30.5, 1e-10, -1e-10, 60.5, -1, 61, 100, -100, 1e5, 3600} + around({0.0, 60.0, 59.0, 1.0}, {1e-12, 1e-9, 1e-6, 1e-3}) + generic(0, 60, 12) + litset(fs, -1e5, 1e5));
    static VF ssf = tof(uniq(ss + VD{std::nextafterf(60.f, 0.f), std::nextafterf(60.f, 100.f), std::nextafterf(0.f, -1.f)}));
    static VI as, bs;
    for (int k = -5; k <= 400; k++) as.push_back(k); for (int k = -5; k <= 70; k++) bs.push_back(k);
    for (double v: lits(fs)) if (v < 1e6) for (int s: {-1, 1}) for (int o = -1; o <= 1; o++) { as.push_back(s * int(v) + o); bs.push_back(s * int(v) + o); }
    for (int v: {-1000000, 1000000, -360, 1 << 20}) { as.push_back(v); bs.push_back(v); }
    for (VI* v: {&as, &bs}) { std::sort(v->begin(), v->end()); v->erase(std::unique(v->begin(), v->end()), v->end()); }
    for (int kind = 0; kind < 6; kind++) {
        bool single = kind & 1; u64 ns = single ? ssf.size() : ss.size();
        domain(std::string("fields/") + KN[kind], "first field -5..400 and extremes x minutes -5..70 and extremes x seconds alphabet with neighbours of 0 and 60", as.size() * bs.size() * ns, [=](u64 i, Ctx& c) {
            Dec q(i); double s = single ? double(q.pick(ssf)) : q.pick(ss); int b = q.pick(bs); one(kind, q.pick(as), b, s, c); });
        u64 na = kind < 2 ? 360 : 24;
        domain(std::string("all-valid/") + KN[kind], "every valid degree/hour x minute x whole and half second", na * 60 * 120, [=](u64 i, Ctx& c) { Dec q(i); double s = q.take(120) * 0.5; int b = int(q.take(60)); one(kind, int(q.i), b, s, c); });
    }
}
