// Reference refraction model (Hohenkerk & Sinclair two-layer atmosphere), by composite Gauss-Legendre quadrature.
#pragma once
#include "alpha.h"
namespace mc {
inline L clampL(L x, L a, L b) { return x < a ? a : x > b ? b : x; }
inline L psat_gill(L t, L p) { L c = t - 273.15L; return powl(10, (0.7859L + 0.03477L * c) / (1 + 0.00412L * c)) * (1 + p * (4.5e-6L + 6e-10L * c * c)); }
struct Air {
    bool optic; L r0, rt, rs, t0, al, gamal, g, pw, w, c1, c2, c5, tt, nt;
    void trop(L r, L& n, L& rdn) const {
        L t = clampL(t0 - al * (r - r0), 100, 320), q = t / t0, qg = powl(q, g - 1), qd = powl(q, 17.36L);
        // n - 1 = c1 q^(g-1) - (c2 - c5/t) q^(d-1)
        n = 1 + c1 * qg - (c2 - c5 / t) * qd;
        // d/dr with dq/dr = -al/t0; c5 term: c5/t q^(d-1) = (c5/t0) q^(d-2)
        rdn = r * (-al / t0) * ((g - 1) * c1 * qg / q - 17.36L * c2 * qd / q + 16.36L * (c5 / t0) * qd / (q * q));
    }
    void strat(L r, L& n, L& rdn) const { L b = gamal / tt, e = (nt - 1) * expl(-b * (r - rt)); n = 1 + e; rdn = -r * b * e; }
};
inline L refro_ref(double ozd, double h, double t, double p, double rh, double wl, double phi, double tlr) {
    static const L GX[5] = {0.1488743389816312108848260L, 0.4333953941292471907992659L, 0.6794095682990244062343274L, 0.8650633666889845107320967L, 0.9739065285171717200779640L},
                   GW[5] = {0.2955242247147528701738930L, 0.2692667193099963550912269L, 0.2190863625159820439955349L, 0.1494513491505805931457763L, 0.0666713443086881375935688L};
    Air a; L z = wrapL(ozd), zo = std::min<L>(absL(z), 1.623156204L), hm = clampL(h, -1e3L, 8e4L), P = clampL(p, 0, 1e4L), R = clampL(rh, 0, 1), W = std::max<L>(wl, 0.1L);
    a.t0 = clampL(t, 100, 500); a.al = clampL(absL(tlr), 0.001L, 0.01L); a.optic = W <= 100;
    L gb = 9.784L * (1 - 0.0026L * cosl(2 * L(phi)) - 0.00000028L * hm); a.gamal = gb * 28.9644L / 8314.32L; a.g = a.gamal / a.al;
    L A = a.optic ? (287.6155L + (1.62887L + 0.01360L / (W * W)) / (W * W)) * 273.15e-6L / 1013.25L : 77.6890e-6L, ps = psat_gill(a.t0, P);
    a.pw = P > 0 ? R * ps / (1 - (1 - R) * ps / P) : 0;
    a.w = a.pw * (1 - 18.0152L / 28.9644L) * a.g / (18.36L - a.g);
    a.c1 = A * (P + a.w) / a.t0; a.c2 = (A * a.w + (a.optic ? 11.2684e-6L : 6.3938e-6L) * a.pw) / a.t0; a.c5 = a.optic ? 0 : 0.375463L * a.pw / a.t0;
    a.r0 = 6378120.0L + hm; a.rt = 6378120.0L + std::max<L>(11000, hm); a.rs = 6378120.0L + 80000;
    L n0, d; a.trop(a.r0, n0, d); L sk = n0 * a.r0 * sinl(zo); a.trop(a.rt, a.nt, d); a.tt = clampL(a.t0 - a.al * (a.rt - a.r0), 100, 320);
    auto zat = [&](L r, L n) { L s = sk / (r * n); return atan2l(s, sqrtl(std::max<L>(1 - s * s, 0))); };
    L ns; a.strat(a.rs, ns, d);
    L zt = zat(a.rt, a.nt), zs = zat(a.rs, ns), sum = 0;
    if (zo < 1.4L) { // integrate over radius: R = - int (dn/dr)/n tan z dr
        for (int k = 0; k < 2; k++) {
            L ra = k ? a.rt : a.r0, rb = k ? a.rs : a.rt; const int M = 12; L hh = (rb - ra) / M;
            if (hh == 0) continue;
            for (int m = 0; m < M; m++) for (int q = 0; q < 10; q++) {
                int u = q < 5 ? 4 - q : q - 5; L x = q < 5 ? -GX[u] : GX[u], r = ra + hh * (m + (x + 1) / 2), n, rd;
                if (k) a.strat(r, n, rd); else a.trop(r, n, rd);
                L s = sk / (r * n); sum -= hh / 2 * GW[u] * rd / (r * n) * s / sqrtl(1 - s * s);
            }
        }
        return z < 0 ? -sum : sum;
    }
    for (int k = 0; k < 2; k++) {
        L za = k ? zt : zo, zb = k ? zs : zt, r = k ? a.rt : a.r0; const int M = 24; L hh = (zb - za) / M;
        if (hh == 0) continue;
        for (int m = 0; m < M; m++) for (int q = 0; q < 10; q++) {
            int u = q < 5 ? 4 - q : q - 5; L x = q < 5 ? -GX[u] : GX[u], zz = za + hh * (m + (x + 1) / 2), s = sinl(zz), n, rd;
            for (int it = 0; it < 40; it++) { if (k) a.strat(r, n, rd); else a.trop(r, n, rd); if (s <= 1e-20L) break; L dr = (r * n - sk / s) / (n + rd); r -= dr; if (absL(dr) < 1e-7L) break; }
            if (k) a.strat(r, n, rd); else a.trop(r, n, rd);
            sum += hh / 2 * GW[u] * rd / (n + rd);
        }
    }
    return z < 0 ? -sum : sum;
}
}
