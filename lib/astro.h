// Reference models shared by several checks: precession, nutation, obliquity, E-terms (long double).
#pragma once
#include "alpha.h"
namespace mc {
static const L AS = PI_L / 648000.0L;
inline L epj_ref(L mjd) { return 2000 + (mjd - 51544.5L) / 365.25L; }
inline M3 zyz(L zeta, L th, L z) { return rot(2, -z) * rot(1, th) * rot(2, -zeta); }
inline M3 prec_ref(L e0, L e1) {
    L T = (e0 - 2000) / 100, t = (e1 - e0) / 100, w = 2306.2181L + 1.39656L * T - 0.000139L * T * T;
    return zyz((w * t + (0.30188L - 0.000344L * T) * t * t + 0.017998L * t * t * t) * AS,
        ((2004.3109L - 0.85330L * T - 0.000217L * T * T) * t - (0.42665L + 0.000217L * T) * t * t - 0.041833L * t * t * t) * AS,
        (w * t + (1.09468L + 0.000066L * T) * t * t + 0.018203L * t * t * t) * AS);
}
inline M3 prebn_ref(L e0, L e1) {
    L T = (e0 - 1850) / 100, t = (e1 - e0) / 100, w = 2303.5548L + 1.39720L * T + 0.000059L * T * T;
    return zyz((w * t + (0.30242L - 0.000269L * T) * t * t + 0.017996L * t * t * t) * AS,
        ((2005.1125L - 0.85294L * T - 0.000365L * T * T) * t + (-0.42647L - 0.000365L * T) * t * t - 0.041802L * t * t * t) * AS,
        (w * t + (1.09478L + 0.000387L * T) * t * t + 0.018324L * t * t * t) * AS);
}
// sum over t^(i+1) of polynomials in T (Simon et al. 1994)
inline L poly2(const std::vector<std::vector<L>>& k, L T, L t) { L s = 0, tt = t; for (auto& p: k) { L q = 0, w = 1; for (L a: p) { q += a * w; w *= T; } s += q * tt; tt *= t; } return s; }
inline M3 precl_ref(L e0, L e1) {
    L T = (e0 - 2000) / 1000, t = (e1 - e0) / 1000;
    static const std::vector<L> w = {23060.9097L, 139.7459L, -0.0038L, -0.5918L, -0.0037L, 0.0007L};
    static const std::vector<std::vector<L>> ze = {w, {30.2226L, -0.2523L, -0.3840L, -0.0014L, 0.0007L}, {18.0183L, -0.1326L, 0.0006L, 0.0005L}, {-0.0583L, -0.0001L, 0.0007L}, {-0.0285L}, {-0.0002L}};
    static const std::vector<std::vector<L>> z = {w, {109.5270L, 0.2446L, -1.3913L, -0.0134L, 0.0026L}, {18.2667L, -1.1400L, -0.0173L, 0.0044L}, {-0.2821L, -0.0093L, 0.0032L}, {-0.0301L, 0.0006L}, {-0.0001L}};
    static const std::vector<std::vector<L>> th = {{20042.0207L, -85.3131L, -0.2111L, 0.3642L, 0.0008L, -0.0005L}, {-42.6566L, -0.2111L, 0.5463L, 0.0017L, -0.0012L}, {-41.8238L, 0.0359L, 0.0027L, -0.0001L}, {-0.0731L, 0.0019L, 0.0009L}, {-0.0127L, 0.0011L}, {0.0004L}};
    return zyz(poly2(ze, T, t) * AS, poly2(th, T, t) * AS, poly2(z, T, t) * AS);
}
inline L obl80(L mjd) { L t = (mjd - 51544.5L) / 36525; return (84381.448L - 46.8150L * t - 0.00059L * t * t + 0.001813L * t * t * t) * AS; }
inline void nut80_ref(L mjd, L& psi, L& eps) {
    static const L tab[][9] = {
#include "nut80_table.inc"
    };
    L t = (mjd - 51544.5L) / 36525; const L R = 1296000;
    L a[5] = {485866.733L + (1325 * R + 715922.633L) * t + 31.310L * t * t + 0.064L * t * t * t,
        1287099.804L + (99 * R + 1292581.224L) * t - 0.577L * t * t - 0.012L * t * t * t,
        335778.877L + (1342 * R + 295263.137L) * t - 13.257L * t * t + 0.011L * t * t * t,
        1072261.307L + (1236 * R + 1105601.328L) * t - 6.891L * t * t + 0.019L * t * t * t,
        450160.280L - (5 * R + 482890.539L) * t + 7.455L * t * t + 0.008L * t * t * t};
    psi = eps = 0;
    for (auto& r: tab) { L x = 0; for (int k = 0; k < 5; k++) x += r[k] * a[k]; x = fmodl(x, R) * AS; psi += (r[5] + r[6] * t) * sinl(x); eps += (r[7] + r[8] * t) * cosl(x); }
    psi *= AS * 1e-4L; eps *= AS * 1e-4L;
}
inline void nut_ref(L mjd, L& psi, L& eps, L& eps0) {
    static const L fa[][9] = {
#include "nutc_fa.inc"
    };
    static const L lp[][4] = {
#include "nutc_psi.inc"
    };
    static const L oe[][4] = {
#include "nutc_eps.inc"
    };
    L t = (mjd - 51544.5L) / 36525; const L D = 3600;
    L a[9] = {134.96340251L * D + t * (1717915923.2178L + t * (31.8792L + t * (0.051635L - t * 0.00024470L))),
        357.52910918L * D + t * (129596581.0481L + t * (-0.5532L + t * (0.000136L - t * 0.00001149L))),
        93.27209062L * D + t * (1739527262.8478L + t * (-12.7512L + t * (-0.001037L + t * 0.00000417L))),
        297.85019547L * D + t * (1602961601.209L + t * (-6.3706L + t * (0.006539L - t * 0.00003169L))),
        125.04455501L * D + t * (-6962890.5431L + t * (7.4722L + t * (0.007702L - t * 0.00005939L))),
        181.97980085L * D + 210664136.433548L * t, 355.43299958L * D + 68905077.493988L * t, 34.35151874L * D + 10925660.377991L * t, 50.07744430L * D + 4399609.855732L * t};
    L dp = -153.1L * sinl(fmodl(a[1], 1296000) * AS) - 1.9L * sinl(fmodl(2 * a[1], 1296000) * AS), de = 0;
    for (size_t i = 0; i < sizeof fa / sizeof fa[0]; i++) {
        L x = 0; for (int k = 0; k < 9; k++) x += fa[i][k] * a[k];
        x = fmodl(x, 1296000) * AS; L s = sinl(x), c = cosl(x);
        dp += (lp[i][0] + lp[i][2] * t) * c + (lp[i][1] + lp[i][3] * t) * s;
        de += (oe[i][0] + oe[i][2] * t) * c + (oe[i][1] + oe[i][3] * t) * s;
    }
    psi = (dp * 1e-6L - 0.042888L - 0.29856L * t) * AS; eps = (de * 1e-6L - 0.005171L - 0.02408L * t) * AS;
    eps0 = (84381.412L + t * (-46.80927L + t * (-0.000152L + t * (0.0019989L + t * (-0.00000051L - t * 0.000000025L))))) * AS;
}
inline M3 nutmat_ref(L mjd) { L p, e, e0; nut_ref(mjd, p, e, e0); return rot(0, -(e0 + e)) * rot(2, -p) * rot(0, e0); }
inline V3 eterms_ref(L be) {
    L t = (be - 1950) * 1.00002135903e-2L, e = 0.01673011L - 0.00004193L * t - 0.000000126L * t * t, o = (84404.836L - 46.8495L * t - 0.00319L * t * t - 0.00181L * t * t * t) * AS, p = (1015489.951L + 6190.67L * t + 1.65L * t * t + 0.012L * t * t * t) * AS, k = e * 20.49552L * AS;
    return {k * sinl(p), -k * cosl(p) * cosl(o), -k * cosl(p) * sinl(o)};
}
inline V3 add_et(V3 v, L be) { return v + eterms_ref(be); }
inline V3 sub_et(V3 v, L be) { V3 e = eterms_ref(be); return (1 + dot(v, e)) * v - e; }
// result (a, b) of a spherical transformation must be this vector's direction; lon0: 0 -> range [0,2pi], else [-pi,pi]
inline bool dir_ok(double a, double b, V3 v, L tol) { return fin(a) && fin(b) && a >= 0 && L(a) <= 2 * PI_L + 1e-15L && absL(b) <= PI_L / 2 + 1e-15L && angsep(dirv(a, b), v) <= tol; }
}
