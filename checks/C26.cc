// Singular value decomposition, least-squares solution, covariance.
#include "alpha.h"
#include "slalib.h"
using namespace mc;
static std::string show(int m, int n, const L* a) { std::string s; char b[40]; for (int i = 0; i < m * n; i++) { snprintf(b, sizeof b, "%s%.6Lg", i % n ? " " : i ? "; " : "", a[i]); s += b; } return s; }
static const double CAN = 123456.789;
static void one(int m, int n, int pm, int pn, const L* A, Ctx& c) {
    int mp = m + pm, np = n + pn; c.say("%dx%d in %dx%d [%s]", m, n, mp, np, show(m, n, A).c_str());
    std::vector<double> a(mp * np + 2, CAN), w(np + 2, CAN), v(np * np + 2, CAN), ws(np + 2, CAN);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a[1 + i * np + j] = double(A[i * n + j]);
    int st = sla::svd(m, n, mp, np, &a[1], &w[1], &v[1], &ws[1]); N(1);
#define WHERE "%dx%d matrix [%s] (physical %dx%d): "
#define WARG m, n, show(m, n, A).c_str(), mp, np
    if (m < n) { CHECK(st == -1, WHERE "status %d for a wrong shape", WARG, st); return; }
    CHECK(st == 0, WHERE "status %d", WARG, st);
    for (int i = 0; i < mp; i++) for (int j = 0; j < np; j++) if (i >= m || j >= n) CHECK(a[1 + i * np + j] == CAN, WHERE "element outside the logical matrix written", WARG);
    for (int i = 0; i < np; i++) for (int j = 0; j < np; j++) if (i >= n || j >= n) CHECK(v[1 + i * np + j] == CAN, WHERE "element outside the logical V written", WARG);
    for (int j = n; j < np; j++) CHECK(w[1 + j] == CAN, WHERE "element outside W written", WARG);
    CHECK(a[0] == CAN && a.back() == CAN && w[0] == CAN && w.back() == CAN && v[0] == CAN && v.back() == CAN && ws[0] == CAN && ws.back() == CAN, WHERE "memory outside the arrays written", WARG);
    L sc = 0, wm = 0; for (int i = 0; i < m * n; i++) sc += A[i] * A[i]; sc = sqrtl(sc);
    const L e = 2e-15L * (m + n);
    for (int j = 0; j < n; j++) { CHECK(w[1 + j] >= 0, WHERE "singular value %.17g", WARG, w[1 + j]); wm = std::max<L>(wm, w[1 + j]); }
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
        L s = 0; for (int k = 0; k < n; k++) s += L(a[1 + i * np + k]) * w[1 + k] * v[1 + j * np + k];
        CHECK(near(s, A[i * n + j], e * sc), WHERE "U W V^T (%d,%d) = %.17Lg", WARG, i, j, s);
    }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        L s = 0, t = 0; for (int k = 0; k < n; k++) s += L(v[1 + k * np + i]) * v[1 + k * np + j]; for (int k = 0; k < m; k++) t += L(a[1 + k * np + i]) * a[1 + k * np + j];
        CHECK(near(s, i == j, e), WHERE "V not orthogonal: column product (%d,%d) = %.17Lg", WARG, i, j, s);
        CHECK(near(t, i == j, e), WHERE "U not orthogonal: column product (%d,%d) = %.17Lg", WARG, i, j, t);
    }
    // least squares: zero the negligible singular values as documented, solve, check the normal equations
    L wmin = wm; bool cut = false; for (int j = 0; j < n; j++) { if (w[1 + j] <= 1e-11L * wm) { w[1 + j] = 0; cut = true; } else wmin = std::min<L>(wmin, w[1 + j]); }
    if (wm == 0) return;
    L kap = wm / wmin; if (kap > 1e6L) return;
    std::vector<double> b(m), x(n + 2, CAN), u2 = a, v2 = v, w2 = w; L nb = 0; for (int i = 0; i < m; i++) { b[i] = (i * 5 + 2) % 7 - 3.25; nb += absL(b[i]); }
    std::vector<double> b2 = b; for (auto& z: ws) z = CAN;
    sla::svdsol(m, n, mp, np, b.data(), &a[1], &w[1], &v[1], &ws[1], &x[1]); N(1);
    CHECK(a == u2 && v == v2 && w == w2 && b == b2, WHERE "svdsol changed its inputs", WARG);
    CHECK(x[0] == CAN && x.back() == CAN && ws[0] == CAN && ws[1 + n] == CAN, WHERE "svdsol wrote outside its arrays", WARG);
    L t = 60 * e * kap * kap * nb / wmin;
    for (int j = 0; j < n; j++) { // A^T (b - A x) = 0
        L s = 0; for (int i = 0; i < m; i++) { L r = b[i]; for (int k = 0; k < n; k++) r -= A[i * n + k] * x[1 + k]; s += A[i * n + j] * r; }
        CHECK(near(s, 0, t * wm * wm), WHERE "solution does not satisfy the normal equations: residual %.6Lg", WARG, s);
    }
    if (cut) for (int j = 0; j < n; j++) if (w[1 + j] == 0) { L s = 0; for (int k = 0; k < n; k++) s += L(v[1 + k * np + j]) * x[1 + k]; CHECK(near(s, 0, t), WHERE "solution has a component %.6Lg along a null direction", WARG, s); }
    // covariance = V diag(1/w^2) V^T = inverse of A^T A on its range
    int nc = n + pm; std::vector<double> cv(nc * nc + 2, CAN); for (auto& z: ws) z = CAN;
    sla::svdcov(n, np, nc, &w[1], &v[1], &ws[1], &cv[1]); N(1);
    CHECK(v == v2 && w == w2 && cv[0] == CAN && cv.back() == CAN && ws[0] == CAN && ws[1 + n] == CAN, WHERE "svdcov changed its inputs or wrote outside its arrays", WARG);
    for (int i = 0; i < nc; i++) for (int j = 0; j < nc; j++) if (i >= n || j >= n) CHECK(cv[1 + i * nc + j] == CAN, WHERE "svdcov wrote outside the logical matrix", WARG);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        L s = 0; for (int k = 0; k < n; k++) if (w[1 + k] != 0) s += L(v[1 + i * np + k]) * v[1 + j * np + k] / (L(w[1 + k]) * w[1 + k]);
        CHECK(near(cv[1 + i * nc + j], s, 1e-14L / (wmin * wmin)), WHERE "covariance(%d,%d) = %.17g, expected %.17Lg", WARG, i, j, cv[1 + i * nc + j], s);
    }
}
static void all(const char* nm, int m, int n, std::vector<int> al, int pads = 2) {
    u64 sz = pads; for (int i = 0; i < m * n; i++) sz *= al.size();
    std::string b = "all " + std::to_string(m) + "x" + std::to_string(n) + " matrices over {"; for (int v: al) b += std::to_string(v) + " "; b += "}, tight and padded storage";
    domain(nm, b, sz, [=](u64 i, Ctx& c) { Dec q(i); int p = int(q.take(pads)); L a[64]; for (int k = 0; k < m * n; k++) a[k] = al[q.take(al.size())]; one(m, n, p, 2 * p, a, c); });
}
// direct checks of svdsol/svdcov on arbitrary factors
void mc::define() {
    all("1x1", 1, 1, {-5, -1, 0, 1, 2, 9}); all("3x1", 3, 1, {-3, -1, 0, 1, 2, 7}); all("2x2", 2, 2, {-5, -2, -1, 0, 1, 2, 3, 7}); all("3x2", 3, 2, {-2, -1, 0, 1, 3});
    all("5x2", 5, 2, g_thorough ? std::vector<int>{-1, 0, 1, 2} : std::vector<int>{-1, 0, 2}); all("3x3", 3, 3, g_thorough ? std::vector<int>{-1, 0, 1, 3} : std::vector<int>{-1, 0, 1}); all("4x3", 4, 3, g_thorough ? std::vector<int>{-1, 0, 2} : std::vector<int>{0, 1, -2}, 1); all("4x4", 4, 4, {0, 1}, 1); all("6x3", 6, 3, {0, 1}, 1); all("5x4", 5, 4, {0, 1}, 1);
    all("3x3-wide", 3, 3, g_thorough ? std::vector<int>{-3, -2, -1, 0, 1, 2, 3} : std::vector<int>{-3, -2, 0, 3}, 1);
    domain("equal singular values", "reflections in every vector over {-2..2} of 2 to 5 components, times every cyclic and reversed column order, two blocks of two scales", u64(3125) * 4 * 10 * 9, [](u64 i, Ctx& c) {
        Dec q(i); int sc = int(q.take(9)), o = int(q.take(10)), n = 2 + int(q.take(4)); double v[5], d = 0; for (int k = 0; k < 5; k++) { v[k] = int(q.take(5)) - 2; if (k >= n && v[k] != 0) return; if (k < n) d += v[k] * v[k]; }
        if (d == 0 || o % 5 >= n) return; static const double S[3] = {1, 3, 0.1}; L a[25];
        for (int y = 0; y < n; y++) for (int z = 0; z < n; z++) { int t = o < 5 ? (z + o) % n : (2 * n - 1 - z + o - 5) % n; a[y * n + z] = L(((y == t) - 2 * v[y] * v[t] / d) * S[z < n / 2 ? sc / 3 : sc % 3]); }
        one(n, n, 0, 0, a, c); });
    all("wrong-shape-2x3", 2, 3, {-1, 0, 1, 2}); all("wrong-shape-1x2", 1, 2, {-1, 0, 1, 2});
    static VD sc = {1, 1e-3, 1e4, 1e-6, 30};
    domain("graded", "3x3 matrices {-1,0,1} with every combination of 5 row scales", 19683 * 125, [](u64 i, Ctx& c) { Dec q(i); L a[9], r[3]; for (int k = 0; k < 9; k++) a[k] = int(q.take(3)) - 1; for (int k = 0; k < 3; k++) r[k] = q.pick(sc); for (int k = 0; k < 9; k++) a[k] = L(double(a[k] * r[k / 3])); one(3, 3, 0, 0, a, c); });
    domain("polynomial", "design matrices of polynomial fits: degree 0..4, 5..12 points, spread and offset", 5 * 8 * 6 * 5, [](u64 i, Ctx& c) { Dec q(i); int n = 1 + int(q.take(5)), m = 5 + int(q.take(8)); L s = 0.3L * (1 + q.take(6)), o = q.take(5); L a[64]; for (int y = 0; y < m; y++) { L x = o + s * (y - m / 2.0L) + 0.07L * y * y, p = 1; for (int z = 0; z < n; z++) a[y * n + z] = L(double(p)), p *= x; } one(m, n, 1, 1, a, c); });
    domain("larger shapes", "1 to 14 (thorough 20) columns, 0 to 12 more rows, seven families (smooth, banded, scaled rows, scaled columns, repeated columns, zero columns, indicator), physical excess 0..1", u64(g_thorough ? 20 : 14) * 13 * 7 * 2 * 3, [](u64 i, Ctx& c) {
        Dec q(i); int e = int(q.take(2)), f = int(q.take(7)), k = int(q.take(3)), m0 = int(q.take(13)), n = 1 + int(q.i), m = n + m0; std::vector<L> a(m * n);
        for (int y = 0; y < m; y++) for (int z = 0; z < n; z++) { double g = std::sin((y + 1) * (z + 1) * (0.37 + 0.2 * k)) + (y == z) * 0.5; int d = y > z ? y - z : z - y;
            double v = f == 0 ? g : f == 1 ? (d <= k ? 1.0 + (y + z) % 3 : 0) : f == 2 ? g * std::pow(10.0, (y % 5 - 2) * (k + 1) * 0.5) : f == 3 ? g * std::pow(10.0, (z % 4 - 1) * (k + 1) * 0.5) : f == 4 ? std::sin((y + 1) * (z / 2 + 1) * 0.7 + k) : f == 5 ? (z % 3 == k ? 0 : g) : (y % n == z || y / 2 == z) * (1.0 + k);
            a[y * n + z] = v; }
        one(m, n, e, e, a.data(), c); });
    domain("factors", "solution and covariance from arbitrary U, W (with zeros), V over {-1,0,2}", 19683ull * 27 * 9, [](u64 i, Ctx& c) {
        Dec q(i); const int m = 3, n = 2, np = 3; double u[9] = {0}, v[9] = {0}, w[2], b[3], x[2] = {-9, -9}, ws[2], cv[9]; static const VD al = {-1, 0, 2};
        for (int y = 0; y < m; y++) for (int z = 0; z < n; z++) u[y * np + z] = q.pick(al); for (int z = 0; z < n; z++) w[z] = std::fabs(q.pick(al)); for (int y = 0; y < m; y++) b[y] = q.pick(al) * 1.25 + 0.5; for (int y = 0; y < n; y++) for (int z = 0; z < n; z++) v[y * np + z] = y == 1 && z == 1 ? 2 : q.pick(al);
        sla::svdsol(m, n, m, np, b, u, w, v, ws, x); sla::svdcov(n, np, 3, w, v, ws, cv); N(2);
        for (int k = 0; k < n; k++) { L s = 0; for (int l = 0; l < n; l++) if (w[l] != 0) { L t = 0; for (int y = 0; y < m; y++) t += L(u[y * np + l]) * b[y]; s += v[k * np + l] * t / w[l]; } CHECK(near(x[k], s, 1e-13L), "factors: x[%d] = %.17g, expected %.17Lg", k, x[k], s);
            for (int l = 0; l < n; l++) { L t = 0; for (int y = 0; y < n; y++) if (w[y] != 0) t += L(v[k * np + y]) * v[l * np + y] / (L(w[y]) * w[y]); CHECK(near(cv[k * 3 + l], t, 1e-13L), "factors: covariance(%d,%d) = %.17g, expected %.17Lg", k, l, cv[k * 3 + l], t); } } });
    static VD wv = uniq(VD{0, 1, 2, 3e-3, 1e-9, 1e9, 1e-20, 1e20, 1e-14, 7e6, 1e-6, 1e-5, 1e-100} + litset({"svdsol.cc", "svdcov.cc", "svd.cc"}, 1e-300, 1e300, 1, 30));
    domain("factor-scales", "solution and covariance with singular values of every magnitude, in every order of three", wv.size() * wv.size() * wv.size() * 27, [](u64 i, Ctx& c) {
        Dec q(i); const int m = 3, n = 3; double u[9], v[9], w[3], b[3] = {1.5, -2, 0.75}, x[3] = {-9, -9, -9}, ws[3], cv[9]; for (double& z: w) z = q.pick(wv); static const double pu[3][9] = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {0.6, 0.8, 0, -0.8, 0.6, 0, 0, 0, 1}, {2, 1, 0.5, -1, 3, 1, 1, -2, 1}};
        c.say("w %.17g %.17g %.17g", w[0], w[1], w[2]);
        int a = int(q.take(3)), d = int(q.take(3)), sc = int(q.take(3)); for (int k = 0; k < 9; k++) { u[k] = pu[a][k]; v[k] = pu[d][k]; } for (double& z: b) z *= sc == 0 ? 1 : sc == 1 ? 1e-8 : 1e8;
        sla::svdsol(m, n, m, n, b, u, w, v, ws, x); sla::svdcov(n, n, 3, w, v, ws, cv); N(2);
        for (int k = 0; k < n; k++) { L s = 0, g = 0; for (int l = 0; l < n; l++) if (w[l] != 0) { L t = 0, h = 0; for (int y = 0; y < m; y++) { t += L(u[y * n + l]) * b[y]; h += absL(L(u[y * n + l]) * b[y]); } s += v[k * n + l] * t / w[l]; g += absL(v[k * n + l] * h / w[l]); } CHECK(near(x[k], s, 4e-15L * g) || g > 1e300L, "w %.17g %.17g %.17g: x[%d] = %.17g, expected %.17Lg", w[0], w[1], w[2], k, x[k], s);
            for (int l = 0; l < n; l++) { L t = 0, h = 0; for (int y = 0; y < n; y++) if (w[y] != 0) { L z = L(v[k * n + y]) * v[l * n + y] / (L(w[y]) * w[y]); t += z; h += absL(z); } CHECK(h > 1e290L || near(cv[k * 3 + l], t, 4e-15L * h), "w %.17g %.17g %.17g: covariance(%d,%d) = %.17g, expected %.17Lg", w[0], w[1], w[2], k, l, cv[k * 3 + l], t); } } });
}
