// Reference models of the ephemerides (long double; rates by automatic differentiation).
#pragma once
#include "astro.h"
namespace mc {
#include "epv_table.inc"
#include "dmoon_table.inc"
#include "evp_table.inc"
struct D { L v, d; };   // value and time derivative
inline D operator+(D a, D b) { return {a.v + b.v, a.d + b.d}; }
inline D operator-(D a, D b) { return {a.v - b.v, a.d - b.d}; }
inline D operator*(D a, D b) { return {a.v * b.v, a.v * b.d + a.d * b.v}; }
inline D operator*(L a, D b) { return {a * b.v, a * b.d}; }
inline D operator/(D a, D b) { return {a.v / b.v, (a.d * b.v - a.v * b.d) / (b.v * b.v)}; }
inline D sinD(D a) { return {sinl(a.v), a.d * cosl(a.v)}; }
inline D cosD(D a) { return {cosl(a.v), -a.d * sinl(a.v)}; }
inline D K(L c) { return {c, 0}; }
struct PV { V3 p, v; };
static const L DEG = PI_L / 180;
inline PV sph_pv(D l, D b, D r) { D x = r * cosD(b) * cosD(l), y = r * cosD(b) * sinD(l), z = r * sinD(b); return {{x.v, y.v, z.v}, {x.d, y.d, z.d}}; }
inline PV turnx(PV q, L e) { L c = cosl(e), s = sinl(e); return {{q.p.x, q.p.y * c - q.p.z * s, q.p.y * s + q.p.z * c}, {q.v.x, q.v.y * c - q.v.z * s, q.v.y * s + q.v.z * c}}; }
inline D poly(const L* k, int n, D t) { D s = K(0); for (int i = n; i--;) s = s * t + K(k[i]); return s; }
template<int N> D series(const L (&tab)[N][6], int n, const D* a, D e, bool cosine) {
    D s = K(0);
    for (int i = 0; i < n; i++) { D th = tab[i][1] * a[0] + tab[i][2] * a[1] + tab[i][3] * a[2] + tab[i][4] * a[3]; D w = cosine ? cosD(th) : sinD(th); for (int k = 0; k < int(tab[i][5]); k++) w = w * e; s = s + tab[i][0] * w; }
    return s;
}
// Meeus 1984, full
inline PV dmoon_ref(L mjd) {
    D t = {(mjd - 15019.5L) / 36525, 1 / 3155760000.0L}; // per second
    auto arg = [&](L a, L b, L c, L d) { L k[4] = {a, b, c, d}; return DEG * poly(k, 4, t); };
    D elp = arg(270.434164L, 481267.8831L, -0.001133L, 0.0000019L), a[4] = {arg(358.475833L, 35999.0498L, -0.000150L, -0.0000033L), arg(296.104608L, 477198.8491L, 0.009192L, 0.0000144L), arg(350.737486L, 445267.1142L, -0.001436L, 0.0000019L), arg(11.250889L, 483202.0251L, -0.003211L, -0.0000003L)}, om = arg(259.183275L, -1934.1420L, 0.002078L, 0.0000022L);
    D wa = sinD(DEG * (K(51.2L) + 20.2L * t)), wb = 0.003964L * sinD(arg(346.560L, 132.870L, -0.0091731L, 0)), so = sinD(om), wo = om + DEG * (K(275.05L) + (-2.30L) * t);
    elp = elp + DEG * (0.000233L * wa + wb + 0.001964L * so); a[0] = a[0] + DEG * (-0.001778L * wa); a[1] = a[1] + DEG * (0.000817L * wa + wb + 0.002541L * so); a[2] = a[2] + DEG * (0.002011L * wa + wb + 0.001964L * so); a[3] = a[3] + DEG * (wb + (-0.024691L) * so + (-0.004328L) * sinD(wo));
    L ek[3] = {1, -0.002495L, -0.00000752L}; D e = poly(ek, 3, t);
    D l = elp + DEG * series(DM_L, 50, a, e, false), b = DEG * series(DM_B, 45, a, e, false) * (K(1) - 0.0004664L * cosD(om) - 0.0000754L * cosD(wo)), p = DEG * series(DM_P, 31, a, e, true);
    PV q = sph_pv(l, b, K(4.2635212653763e-5L) / sinD(p));
    L T = (mjd - 51544.5L) / 36525, eq = PI_L / 43200 * (0.035L + 0.00085L * (2000 + 100 * T - 1949.9997904423L)), ep = obl80(mjd);
    auto f = [&](V3 v) { L y = v.y * cosl(ep) - v.z * sinl(ep), z = v.y * sinl(ep) + v.z * cosl(ep); return V3{v.x - eq * y, y + eq * v.x, z}; };
    return {f(q.p), f(q.v)};
}
// days from J1900.0 in the Julian calendar aligned to 1900-2100
inline L j1900_days(int year, int day, L frac) { L k = L(year) - 1900; L leaps = floorl((k + 3) / 4); return -0.5L + (L(day) - 1) + 365 * k + leaps + frac; }
// Meeus 1984, abridged
inline PV moon_ref(int year, int day, L frac) {
    D t = {j1900_days(year, day, frac) / 365.25L, 1 / 31557600.0L};
    auto arg = [&](L a, L b) { return DEG * (K(a) + b * t); };
    D elp = arg(270.434164L, 4812.678831L), a[4] = {arg(358.475833L, 359.990498L), arg(296.104608L, 4771.988491L), arg(350.737486L, 4452.671142L), arg(11.250889L, 4832.020251L)};
    D l = elp + DEG * series(DM_L, 39, a, K(1), false), b = DEG * series(DM_B, 29, a, K(1), false), p = DEG * series(DM_P, 5, a, K(1), true);
    return turnx(sph_pv(l, b, K(4.2635212653763e-5L) / sinD(p)), DEG * (23.45229L - 0.00013L * t.v));
}
inline PV earth_ref(int year, int day, L frac) {
    L t = j1900_days(year, day, frac) / 365.25L, yf = t - (L(year) - 1900);
    L m = 4.881628L + 2 * PI_L * yf + 0.00013420L * t, g = 4.908230L + 3.0005e-4L * t, an = m - g, ep = 0.40931975L - 2.27e-6L * t, e = 0.016751L - 4.2e-7L * t;
    L v = an + 2 * e * sinl(an) + 1.25L * e * e * sinl(2 * an), l = v + g, r = (1 - e * e) / (1 + e * cosl(v)), mm = 4.72L + 83.9971L * t;
    const L n = 1.9913e-7L, d = 3.12e-5L, s = 8.31e-11L;
    L w1 = -r * sinl(l), w2 = -n * (cosl(l) + e * cosl(g));
    return {{-r * cosl(l) - d * cosl(mm), (w1 - d * sinl(mm)) * cosl(ep), w1 * sinl(ep)}, {n * (sinl(l) + e * sinl(g)) + s * sinl(mm), (w2 - s * cosl(mm)) * cosl(ep), w2 * sinl(ep)}};
}
// Stumpff 1980
inline void evp_ref(L mjd, L deqx, PV& bary, PV& helio) {
    L t = (mjd - 15019.5L) / 36525, t2 = t * t, fel[8], sel[17], e, pl = 0, pld = 0, pr = 0, prd = 0;
    for (int k = 0; k < 8; k++) fel[k] = DCFEL[k][0] + t * DCFEL[k][1] + t2 * DCFEL[k][2];
    for (int k = 0; k < 17; k++) sel[k] = CCSEL[k][0] + t * CCSEL[k][1] + t2 * CCSEL[k][2];
    L eps = 4.093198e-01L - 2.271110e-04L * t - 2.860401e-08L * t2; e = sel[0];
    for (int k = 0; k < 4; k++) pl += (CCSEC[k][0] + (k == 2 ? t * -7.757020e-08L : 0)) * sinl(CCSEC[k][1] + t * CCSEC[k][2]);
    for (int k = 0; k < 15; k++) { L a = DCARGS[k][0] + t * DCARGS[k][1], c = cosl(a), s = sinl(a); pl += CCAMPS[k][0] * c + CCAMPS[k][1] * s; pr += CCAMPS[k][2] * c + CCAMPS[k][3] * s; if (k < 10) { pld += (CCAMPS[k][1] * c - CCAMPS[k][0] * s) * CCAMPS[k][4]; prd += (CCAMPS[k][3] * c - CCAMPS[k][2] * s) * CCAMPS[k][4]; } }
    const L sld = 1.990987e-07L, sgd = 1.990969e-07L; L g = fel[1], phi = 2 * e * ((1 - e * e / 8) * sinl(g) + e * 0.625L * sinl(2 * g) + e * e * 0.54166667L * sinl(3 * g)), f = g + phi, psi = (1 - e * e) / (1 + e * cosl(f));
    L phid = 2 * e * sgd * ((1 + 1.5L * e * e) * cosl(f) + e * (1.25L - sinl(f) * sinl(f) / 2)), psid = sgd * e * sinl(f) / sqrtl(1 - e * e);
    L rd = (1 + pr) * (psid + psi * prd), rld = (1 + pr) * psi * (sld + phid + pld), l = fel[0] + phi + pl, r = psi * (1 + pr);
    PV h = {{r * cosl(l), r * sinl(l), 0}, {rd * cosl(l) - rld * sinl(l), rd * sinl(l) + rld * cosl(l), 0}};
    L ml = 0, mld = 0, mp = 0, mpd = 0; for (int k = 0; k < 3; k++) { L a = DCARGM[k][0] + t * DCARGM[k][1]; ml += CCAMPM[k][0] * sinl(a); mld += CCAMPM[k][1] * cosl(a); mp += CCAMPM[k][2] * cosl(a); mpd -= CCAMPM[k][3] * sinl(a); }
    L tl = fel[2] + ml, sg = 3.122140e-05L / (1 + mp), a = sg * (2.661699e-06L + mld), b = sg * mpd, fl = 8.978749e-2L * sinl(fel[3]);
    h.v = h.v + V3{a * sinl(tl) + b * cosl(tl), -a * cosl(tl) + b * sinl(tl), -sg * 2.399485e-07L * cosl(fel[3])};
    h.p = h.p - V3{sg * cosl(fl) * cosl(tl), sg * cosl(fl) * sinl(tl), sg * sinl(fl)};
    PV s = {0.99999696L * h.p, 0.99999696L * h.v};
    for (int k = 0; k < 4; k++) {
        L lo = fel[k + 4], po = sel[k + 1], ec = sel[k + 9], lp = lo + 2 * ec * sinl(lo - po), in = sel[k + 13], nd = sel[k + 5], la = in * sinl(lo - nd), q = CCPAM[k][0] * (1 - ec * cosl(lo - po));
        s.v = s.v + CCPAMV[k][0] * V3{sinl(lp) + ec * sinl(po), -(cosl(lp) + ec * cosl(po)), -in * cosl(lo - nd)};
        s.p = s.p - q * V3{cosl(la) * cosl(lp), cosl(la) * sinl(lp), sinl(la)};
    }
    L ej = epj_ref(mjd), eq = 0.7272205216643e-4L * (0.035L + 0.00085L * (ej - 1949.9997904423L));
    M3 P = prec_ref(ej, deqx > 0 ? deqx : ej);
    auto out = [&](V3 v) { L y = cosl(eps) * v.y - sinl(eps) * v.z, z = sinl(eps) * v.y + cosl(eps) * v.z; V3 w = {v.x - eq * y, y + eq * v.x, z}; return deqx > 0 ? P * w : w; };
    bary = {out(s.p), out(s.v)}; helio = {out(h.p), out(h.v)};
}
template<int N> void vsop(const L (&tab)[N][3], int power, D t, D& s) { D w = K(0); for (auto& r: tab) w = w + r[0] * cosD(K(r[1]) + r[2] * t); for (int k = 0; k < power; k++) w = w * t; s = s + w; }
// simplified VSOP2000
inline void epv_ref(L mjd, PV& bary, PV& helio) {
    D t = {(mjd - 51544.5L) / 365.25L, 1 / 365.25L}, h[3] = {K(0), K(0), K(0)}, b[3];
#define AX(j) vsop(E0_##j, 0, t, h[j]); vsop(E1_##j, 1, t, h[j]); vsop(E2_##j, 2, t, h[j]); b[j] = h[j]; vsop(S0_##j, 0, t, b[j]); vsop(S1_##j, 1, t, b[j]); vsop(S2_##j, 2, t, b[j]);
    AX(0) AX(1) AX(2)
#undef AX
    auto r = [](L x, L y, L z) { return V3{x + 0.000000211284L * y - 0.000000091603L * z, -0.000000230286L * x + 0.917482137087L * y - 0.397776982902L * z, 0.397776982902L * y + 0.917482137087L * z}; };
    helio = {r(h[0].v, h[1].v, h[2].v), r(h[0].d, h[1].d, h[2].d)}; bary = {r(b[0].v, b[1].v, b[2].v), r(b[0].d, b[1].d, b[2].d)};
}
}
