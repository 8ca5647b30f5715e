// Plate fits: fitting, applying, inverting, decomposing linear models.
#include "alpha.h"
#include "slalib.h"
using namespace mc;
typedef sla::FitCoeffs FC;
static const VI A3 = {-1, 0, 2}, G = {0, 1, 3};
struct Fit { L c[6]; bool ok; L ill; };
static Fit fit6(int n, const double (*e)[2], const double (*m)[2]) {
    Fit r; L mx = 0, my = 0, ex = 0, ey = 0; for (int i = 0; i < n; i++) mx += m[i][0], my += m[i][1], ex += e[i][0], ey += e[i][1]; mx /= n; my /= n; ex /= n; ey /= n;
    L xx = 0, xy = 0, yy = 0, a = 0, b = 0, p = 0, q = 0; for (int i = 0; i < n; i++) { L x = m[i][0] - mx, y = m[i][1] - my; xx += x * x; xy += x * y; yy += y * y; a += x * (e[i][0] - ex); b += y * (e[i][0] - ex); p += x * (e[i][1] - ey); q += y * (e[i][1] - ey); }
    L d = xx * yy - xy * xy; r.ok = d > 1e-14L * xx * yy && d > 0; if (!r.ok) return r;
    r.c[1] = (a * yy - b * xy) / d; r.c[2] = (b * xx - a * xy) / d; r.c[4] = (p * yy - q * xy) / d; r.c[5] = (q * xx - p * xy) / d; r.c[0] = ex - r.c[1] * mx - r.c[2] * my; r.c[3] = ey - r.c[4] * mx - r.c[5] * my;
    r.ill = (xx + yy + mx * mx + my * my + 1) * (xx + yy + n) / d * (1 + mx * mx + my * my); return r;
}
static Fit fit4(int n, const double (*e)[2], const double (*m)[2], L sg, L& res) {
    Fit r; L mx = 0, my = 0, ex = 0, ey = 0; for (int i = 0; i < n; i++) mx += m[i][0], my += m[i][1], ex += sg * e[i][0], ey += e[i][1]; mx /= n; my /= n; ex /= n; ey /= n;
    L s = 0, b = 0, c = 0; for (int i = 0; i < n; i++) { L x = m[i][0] - mx, y = m[i][1] - my, u = sg * e[i][0] - ex, v = e[i][1] - ey; s += x * x + y * y; b += x * u + y * v; c += x * v - y * u; }
    r.ok = s > 0; if (!r.ok) return r; b /= s; c /= s; // sg*xe = a + b x - c y; ye = d + c x + b y
    L a = ex - b * mx + c * my, d = ey - c * mx - b * my; res = 0; for (int i = 0; i < n; i++) { L u = a + b * m[i][0] - c * m[i][1] - sg * e[i][0], v = d + c * m[i][0] + b * m[i][1] - e[i][1]; res += u * u + v * v; }
    r.c[0] = sg * a; r.c[1] = sg * b; r.c[2] = -sg * c; r.c[3] = d; r.c[4] = c; r.c[5] = b; r.ill = (s + mx * mx + my * my + 1) * (1 + mx * mx + my * my) / s; return r;
}
static std::string pts(int n, const double (*e)[2], const double (*m)[2]) { std::string s; char b[120]; for (int i = 0; i < n; i++) { snprintf(b, sizeof b, " (%g,%g)<-(%g,%g)", e[i][0], e[i][1], m[i][0], m[i][1]); s += b; } return s; }
static void fit(bool sbr, int n, const double (*e)[2], const double (*m)[2], Ctx& c) {
    FC k; for (int i = 0; i < 6; i++) k[i] = 1000 + i; c.say("sbr %d n %d%s", sbr, n, pts(n, e, m).c_str());
    sla::FITStatus st = sla::fitxy(sbr, n, e, m, k); N(1);
    if (n < (sbr ? 2 : 3)) { CHECK(st == sla::FIT_INSUFFICIENT, "sbr %d n %d: status %d for too few samples", sbr, n, st); for (int i = 0; i < 6; i++) CHECK(k[i] == 1000 + i, "sbr %d n %d: model changed", sbr, n); return; }
    L em = 1, mm = 1; bool zero = true, coin = true; for (int i = 0; i < n; i++) for (int j = 0; j < 2; j++) { em = std::max<L>(em, absL(e[i][j])); mm = std::max<L>(mm, absL(m[i][j])); if (m[i][j] != 0) zero = false; if (m[i][j] != m[0][j]) coin = false; }
    bool col = false; if (!sbr) for (int j = 0; j < 2; j++) { bool z = true; for (int i = 0; i < n; i++) if (m[i][j] != 0) z = false; if (z) col = true; } 
    if (zero || col) { CHECK(st == sla::FIT_NONE, "sbr %d%s: no unique model exists but status %d", sbr, pts(n, e, m).c_str(), st); return; }
    if (!sbr) {
        Fit r = fit6(n, e, m); if (!r.ok) { CHECK(st == sla::FIT_OK || st == sla::FIT_NONE, "status %d", st); return; }
        CHECK(st == sla::FIT_OK, "sbr 0%s: status %d", pts(n, e, m).c_str(), st);
        for (int i = 0; i < 6; i++) CHECK(near(k[i], r.c[i], 4e-14L * r.ill * em * mm), "sbr 0%s: coefficient %d is %.17g, least squares gives %.17Lg", pts(n, e, m).c_str(), i, k[i], r.c[i]);
    } else {
        L s1 = 0, s2 = 0; Fit a = fit4(n, e, m, 1, s1), b = fit4(n, e, m, -1, s2); if (coin || !a.ok) { CHECK(st == sla::FIT_NONE || n > 2, "sbr 1%s: all measured points coincide but status %d", pts(n, e, m).c_str(), st); return; }
        CHECK(st == sla::FIT_OK, "sbr 1%s: status %d", pts(n, e, m).c_str(), st);
        L t = 4e-14L * a.ill * em * mm; bool m1 = true, m2 = true; for (int i = 0; i < 6; i++) { if (!near(k[i], a.c[i], t)) m1 = false; if (!near(k[i], b.c[i], t)) m2 = false; }
        bool want1 = n == 2 || s1 <= s2 + 1e-11L * (1 + s1 + s2) * a.ill, want2 = n > 2 && s2 < s1 + 1e-11L * (1 + s1 + s2) * a.ill;
        CHECK((want1 && m1) || (want2 && m2), "sbr 1%s: model (%.9g %.9g %.9g %.9g %.9g %.9g) is not the better rotation fit (residuals %.6Lg without, %.6Lg with reversal)", pts(n, e, m).c_str(), k[0], k[1], k[2], k[3], k[4], k[5], s1, s2);
    }
}
static void model(const double* q, double x, double y, Ctx& c) {
    FC k; for (int i = 0; i < 6; i++) k[i] = q[i]; c.say("model (%.9g %.9g %.9g %.9g %.9g %.9g) point (%.9g,%.9g)", q[0], q[1], q[2], q[3], q[4], q[5], x, y);
#define MW "model (%.17g %.17g %.17g %.17g %.17g %.17g) "
#define MA q[0], q[1], q[2], q[3], q[4], q[5]
    double u = -9, v = -9; sla::xy2xy(x, y, k, u, v); N(1);
    L sx = absL(q[0]) + absL(q[1] * L(x)) + absL(q[2] * L(y)), sy = absL(q[3]) + absL(q[4] * L(x)) + absL(q[5] * L(y));
    CHECK(near(u, q[0] + L(q[1]) * x + L(q[2]) * y, 5e-16L * sx) && near(v, q[3] + L(q[4]) * x + L(q[5]) * y, 5e-16L * sy), MW "point (%.17g,%.17g): (%.17g,%.17g)", MA, x, y, u, v);
    { double x2 = x, y2 = y; sla::xy2xy(x2, y2, k, x2, y2); CHECK(x2 == u && y2 == v, MW "in-place transformation differs", MA); }
    L det = L(q[1]) * q[5] - L(q[2]) * q[4], dn = absL(L(q[1]) * q[5]) + absL(L(q[2]) * q[4]);
    FC inv; for (int i = 0; i < 6; i++) inv[i] = 5; bool ok = sla::invf(k, inv); N(1);
    if (dn == 0) CHECK(!ok, MW "inverted though singular", MA);
    if (absL(det) > 1e-12L * dn && dn > 0) {
        CHECK(ok, MW "not inverted", MA); L cn = dn / absL(det);
        L r0 = inv.get_a() + L(inv.get_b()) * q[0] + L(inv.get_c()) * q[3], r1 = L(inv.get_b()) * q[1] + L(inv.get_c()) * q[4], r2 = L(inv.get_b()) * q[2] + L(inv.get_c()) * q[5], r3 = inv.get_d() + L(inv.get_e()) * q[0] + L(inv.get_f()) * q[3], r4 = L(inv.get_e()) * q[1] + L(inv.get_f()) * q[4], r5 = L(inv.get_e()) * q[2] + L(inv.get_f()) * q[5];
        L lm = 0; for (int i: {1, 2, 4, 5}) lm = std::max<L>(lm, absL(q[i])); L li = 0; for (int i: {1, 2, 4, 5}) li = std::max<L>(li, absL(inv[i])); L tz = std::max<L>(absL(q[0]), absL(q[3])), t = 4e-15L * cn * lm * li;
        CHECK(near(r1, 1, t) && near(r2, 0, t) && near(r4, 0, t) && near(r5, 1, t) && near(r0, 0, 4e-15L * cn * li * tz) && near(r3, 0, 4e-15L * cn * li * tz), MW "the inverse (%.9g %.9g %.9g %.9g %.9g %.9g) does not undo it", MA, inv[0], inv[1], inv[2], inv[3], inv[4], inv[5]);
        FC al = k; sla::invf(al, al); bool same = true; for (int i = 0; i < 6; i++) if (al[i] != inv[i]) same = false; CHECK(same, MW "in-place inversion differs", MA);
    }
    double xz = 99, yz = 99, xs = 99, ys = 99, pe = 99, o = 99; sla::dcmpf(k, xz, yz, xs, ys, pe, o); N(1);
    L b = hypotl(q[1], q[4]), f = hypotl(q[2], q[5]);
    CHECK(fin(xz) && fin(yz) && ys >= 0 && std::fabs(pe) <= PI + 1e-15 && std::fabs(o) <= PI + 1e-15, MW "decomposition (%.9g %.9g %.9g %.9g %.9g %.9g) out of range", MA, xz, yz, xs, ys, pe, o);
    CHECK(near(absL(xs), b, 1e-15L * b) && near(ys, f, 1e-15L * f) && (absL(det) <= 1e-14L * dn || (xs < 0) == (det < 0)), MW "scales (%.17g,%.17g)", MA, xs, ys);
    if (b < 1e-9L * f || f < 1e-9L * b || b == 0 || f == 0) return;
    L h = L(pe) / 2, B = xs * (cosl(o) * cosl(h) + sinl(o) * sinl(h)), C = ys * (cosl(o) * sinl(h) + sinl(o) * cosl(h)), E = xs * (-sinl(o) * cosl(h) + cosl(o) * sinl(h)), F = ys * (-sinl(o) * sinl(h) + cosl(o) * cosl(h));
    // when the axes are opposed (B,E antiparallel to the rotated C,F) the orientation is ill-defined
    L wc = q[1] * f + q[5] * b, ws = q[2] * b - q[4] * f; if (det < 0) { wc = -q[1] * f + q[5] * b; ws = q[2] * b + q[4] * f; } L wn = hypotl(wc, ws) / (b * f); if (wn < 1e-7L) return;
    L t = 3e-15L / wn;
    CHECK(near(B, q[1], t * b) && near(E, q[4], t * b) && near(C, q[2], t * f) && near(F, q[5], t * f), MW "decomposition scales (%.9g,%.9g) perp %.17g orient %.17g recomposes to (%.9Lg %.9Lg %.9Lg %.9Lg)", MA, xs, ys, pe, o, B, C, E, F);
    if (absL(det) > 1e-8L * b * f) { L cn = b * f / absL(det) / wn; L tz = 1e-14L * cn * (absL(q[0]) + absL(q[3])) * cn; CHECK(near(L(q[1]) * xz + L(q[2]) * yz, q[0], tz * (1 + b / f + f / b)) && near(L(q[4]) * xz + L(q[5]) * yz, q[3], tz * (1 + b / f + f / b)), MW "zero points (%.17g,%.17g) do not reproduce A, D", MA, xz, yz); }
}
static void pred(int n, int cap, const double (*e)[2], const double (*m)[2], const double* q, Ctx& c) {
    FC k; for (int j = 0; j < 6; j++) k[j] = q[j]; double p[16][2]; for (auto& r: p) r[0] = r[1] = 55; c.say("pxy n %d%s model (%.9g %.9g %.9g %.9g %.9g %.9g)", n, pts(std::max(n, 0), e, m).c_str(), q[0], q[1], q[2], q[3], q[4], q[5]);
    double a = -9, b = -9, r = -9; sla::pxy(n, e, m, k, p, a, b, r); N(1); L sx = 0, sy = 0;
    for (int j = 0; j < cap; j++) { if (j >= n) { CHECK(p[j][0] == 55 && p[j][1] == 55, "n %d: prediction %d written", n, j); continue; } L x = k.get_a() + L(k.get_b()) * m[j][0] + L(k.get_c()) * m[j][1], y = k.get_d() + L(k.get_e()) * m[j][0] + L(k.get_f()) * m[j][1]; CHECK(near(p[j][0], x, 1e-14L) && near(p[j][1], y, 1e-14L), "n %d: prediction %d (%.17g,%.17g)", n, j, p[j][0], p[j][1]); sx += (x - e[j][0]) * (x - e[j][0]); sy += (y - e[j][1]) * (y - e[j][1]); }
    int d = std::max(1, n); CHECK(near(a, sqrtl(sx / d), 1e-13L) && near(b, sqrtl(sy / d), 1e-13L) && near(r, sqrtl((sx + sy) / d), 1e-13L), "n %d: rms %.17g %.17g %.17g, expected %.17Lg %.17Lg", n, a, b, r, sqrtl(sx / d), sqrtl(sy / d));
}
void mc::define() {
    domain("few-samples", "sample counts -2..3, both model kinds", 12, [](u64 i, Ctx& c) { Dec q(i); bool s = q.take(2); int n = int(q.take(6)) - 2; double e[4][2] = {{1, 2}, {3, 5}, {-1, 4}, {2, 2}}, m[4][2] = {{0, 1}, {1, 1}, {1, 0}, {3, 3}}; fit(s, n, e, m, c); });
    domain("3-points", "all 9^3 measured triples x all 9^3 expected triples on a 3x3 lattice, both model kinds", 531441ull * 2, [](u64 i, Ctx& c) { Dec q(i); bool s = q.take(2); double e[3][2], m[3][2]; for (int k = 0; k < 3; k++) for (int j = 0; j < 2; j++) m[k][j] = G[q.take(3)], e[k][j] = A3[q.take(3)]; fit(s, 3, e, m, c); });
    domain("2-points", "all measured and expected pairs on 5x5 lattices, rotation model", 390625, [](u64 i, Ctx& c) { Dec q(i); double e[2][2], m[2][2]; for (int k = 0; k < 2; k++) for (int j = 0; j < 2; j++) m[k][j] = double(int(q.take(5)) - 2), e[k][j] = 0.5 * (int(q.take(5)) - 1); fit(true, 2, e, m, c); });
    domain("4-points", "all 9^4 measured quadruples x 20 expected patterns, both model kinds", 6561ull * 20 * 2, [](u64 i, Ctx& c) { Dec q(i); bool s = q.take(2); double e[4][2], m[4][2]; int p = int(q.take(20)); for (int k = 0; k < 4; k++) for (int j = 0; j < 2; j++) m[k][j] = G[q.take(3)]; for (int k = 0; k < 4; k++) { double x = m[k][0], y = m[k][1], fl = p & 1 ? -1 : 1, a = 0.3 * p, r = 1 + 0.1 * p; e[k][0] = fl * (2 + r * (x * cos(a) - y * sin(a))) + (p % 5 == 4 ? 0.1 * k * k : 0); e[k][1] = -1 + r * (x * sin(a) + y * cos(a)) + (p % 3 == 2 ? 0.2 * ((k * 3) % 4) : 0); } fit(s, 4, e, m, c); });
    domain("many-points", "5 to 40 samples x orientation x scale x reversal x offset x noise, both model kinds", 8 * 12 * 3 * 2 * 4 * 3 * 2, [](u64 i, Ctx& c) { Dec q(i); bool s = q.take(2); int n = 5 * (1 + int(q.take(8))); double a = q.take(12) * 0.55, sc = std::pow(10.0, int(q.take(3)) - 1), fl = q.take(2) ? -1 : 1, of = 10.0 * q.take(4), no = 0.01 * q.take(3); static thread_local double e[40][2], m[40][2];
        for (int k = 0; k < n; k++) { double x = std::fmod(k * 0.618 * 7, 5) + of, y = std::fmod(k * 0.414 * 5, 3) - of / 2; m[k][0] = x; m[k][1] = y; e[k][0] = fl * (sc * (x * cos(a) - y * sin(a)) - of) + no * ((k * 7) % 5 - 2); e[k][1] = sc * (x * sin(a) + y * cos(a)) + 1 + no * ((k * 3) % 7 - 3); } fit(s, n, e, m, c); });
    domain("residuals", "predictions and RMS: 0 to 3 samples on lattices x models", 6 * 729 * 8, [](u64 i, Ctx& c) {
        Dec q(i); int n = int(q.take(6)) - 1; double e[4][2], m[4][2]; for (int k = 0; k < 4; k++) for (int j = 0; j < 2; j++) e[k][j] = k + 2 * j; for (int k = 0; k < 3; k++) for (int j = 0; j < 2; j++) m[k][j] = A3[q.take(3)] * 1.1; m[3][0] = 0.3; m[3][1] = -2; double k[6]; u64 t = q.take(8); for (int j = 0; j < 6; j++) k[j] = double((t * 3 + j * 5) % 7) / 2 - 1;
        pred(n, 4, e, m, k, c); });
    domain("residual-spread", "0 to 11 samples and models on a lattice of generic values", g_thorough ? 1000000 : 60000, [](u64 i, Ctx& c) {
        Dec q(i); int n = int(q.take(12)); double e[12][2], m[12][2], k[6], u[54]; for (int j = 0; j < 54; j++) { double t = double(q.i + 1) * std::sqrt(double(j * j + 3 * j + 2) + 0.7); u[j] = 4 * (t - std::floor(t)) - 2; }
        for (int j = 0; j < 12; j++) m[j][0] = u[j], m[j][1] = u[12 + j], e[j][0] = u[24 + j], e[j][1] = u[36 + j]; for (int j = 0; j < 6; j++) k[j] = u[48 + j]; pred(n, 12, e, m, k, c); });
    static VD mv = {-2.5, -1, 0, 0.7, 1, 3}, px = {0, 1, -2.25};
    domain("models", "all six-coefficient models over 6 values x points: apply, invert, decompose", 46656ull * 9, [](u64 i, Ctx& c) { Dec q(i); double k[6]; for (double& x: k) x = q.pick(mv); double x = q.pick(px), y = q.pick(px); model(k, x, y, c); });
    static VD sx = {1, -1, 0.01, 250, -3}, an = uniq(grid(-PI, PI, g_thorough ? 97 : 37) + VD{1e-9, -1e-7, PI / 2 - 1e-6, 0.1}), pe = {0, 0.01, -0.3, 1.2, 1e-7, -1.5}, zz = {0, 1, -20};
    domain("composed-models", "models composed from scales x perpendicularity x orientation x zero points", sx.size() * sx.size() * an.size() * pe.size() * 9, [](u64 i, Ctx& c) { Dec q(i); double s = q.pick(sx), t = std::fabs(q.pick(sx)), o = q.pick(an), h = q.pick(pe) / 2, x = q.pick(zz), y = q.pick(zz); double k[6]; k[1] = s * (cos(o) * cos(h) + sin(o) * sin(h)); k[2] = t * (cos(o) * sin(h) + sin(o) * cos(h)); k[4] = s * (-sin(o) * cos(h) + cos(o) * sin(h)); k[5] = t * (-sin(o) * sin(h) + cos(o) * cos(h)); k[0] = k[1] * x + k[2] * y; k[3] = k[4] * x + k[5] * y; model(k, 0.5, -1, c);
        if (c.failed) return; FC f; for (int j = 0; j < 6; j++) f[j] = k[j]; double a, b, d, e, p, r; sla::dcmpf(f, a, b, d, e, p, r); N(1); CHECK(near(d, s, 1e-14L * absL(s)) && near(e, t, 1e-14L * t) && near(p, 2 * h, 1e-14L) && absL(wrapL(r - o)) <= 1e-13L && near(a, x, 4e-13L * (1 + t / absL(s)) * 30 * (1 + absL(y))) && near(b, y, 4e-13L * (1 + absL(s) / t) * 30 * (1 + absL(x))), "composed from scales (%.9g,%.9g) perp %.9g orient %.9g zero (%g,%g): decomposed to (%.9g,%.9g) %.9g %.9g (%.9g,%.9g)", s, t, 2 * h, o, x, y, d, e, p, r, a, b); });
    VD cf = uniq(generic(-4, 4, 200) + grid(-2, 2, 81) + VD{0.0, 1, -1, PI, -PI, 1e-6, 1e3} + litset({"xy2xy.cc", "invf.cc", "dcmpf.cc"}, -1e3, 1e3)), cc = {0.0, 1, -0.8, 2.3}, ct = {1, 0.4}, cu = {-0.3, 1.7};
    static Star ms = star({{cf, cc, ct}, {cf, cc, ct}, {cf, cc, cu}, {cf, cc, ct}, {cf, cc, cu}, {cf, cc, ct}, {cf, cc, {0.6, -1.9}}, {cf, cc, {-0.2}}}, true, 0);
    domain("model-spread", "six coefficients and a point: star and pair products over wide alphabets, lattice over all eight", ms.total, [](u64 i, Ctx& c) { double x[8]; ms.get(i, x); model(x, x[6], x[7], c); });
    domain("fit-spread", "2 to 9 samples placed on a lattice of generic positions, both model kinds, exact, reversed and noisy", g_thorough ? 2000000 : 120000, [](u64 i, Ctx& c) {
        Dec q(i); bool s = q.take(2); int n = 2 + int(q.take(8)), kind = int(q.take(3)); double e[10][2], m[10][2], u[24]; for (int k = 0; k < 24; k++) { double t = double(q.i + 1) * std::sqrt(double(k * k + k + 2) + 0.3); u[k] = 2 * (t - std::floor(t)) - 1; }
        double b = 2 * u[20], d = 2 * u[21], fl = kind == 1 ? -1 : 1; for (int k = 0; k < n; k++) { double x = 3 * u[2 * k], y = 3 * u[2 * k + 1]; m[k][0] = x; m[k][1] = y; e[k][0] = fl * (u[22] + b * x - d * y) + (kind == 2 ? 0.3 * u[(k + 3) % 20] : 0); e[k][1] = u[23] + d * x + b * y + (kind == 2 ? 0.2 * u[(k + 11) % 20] : 0); }
        fit(s, n, e, m, c); });
}
