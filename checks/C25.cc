// Linear equations: inverse, determinant, solution.
#include "alpha.h"
#include "slalib.h"
using namespace mc;
typedef __int128 I;
static long idet(int n, const int* a) { // exact, by cofactors
    if (n == 1) return a[0]; if (n == 2) return long(a[0]) * a[3] - long(a[1]) * a[2];
    long s = 0; int b[64];
    for (int k = 0; k < n; k++) if (a[k]) { int q = 0; for (int i = 1; i < n; i++) for (int j = 0; j < n; j++) if (j != k) b[q++] = a[i * n + j]; s += (k & 1 ? -1 : 1) * long(a[k]) * idet(n - 1, b); }
    return s;
}
template<class T> struct Fn; 
template<> struct Fn<double> { static bool f(int n, double* m, double* v, double& d, int* w) { return sla::dmat(n, m, v, d, w); } static constexpr L e = 2.3e-16L; };
template<> struct Fn<float> { static bool f(int n, float* m, float* v, float& d, int* w) { return sla::smat(n, m, v, d, w); } static constexpr L e = 1.2e-7L; };
static std::string show(int n, const L* a) { std::string s; char b[40]; for (int i = 0; i < n * n; i++) { snprintf(b, sizeof b, "%s%.9Lg", i % n ? " " : i ? "; " : "", a[i]); s += b; } return s; }
// reference inverse in long double with full pivoting; returns false when numerically singular
static bool linv(int n, const L* a0, L* inv, L& det, L& condn) {
    L a[900], b[900]; int pc[30]; det = 1; for (int i = 0; i < n * n; i++) a[i] = a0[i]; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) b[i * n + j] = i == j; for (int i = 0; i < n; i++) pc[i] = i;
    for (int k = 0; k < n; k++) {
        int pi = k, pj = k; for (int i = k; i < n; i++) for (int j = k; j < n; j++) if (absL(a[i * n + j]) > absL(a[pi * n + pj])) pi = i, pj = j;
        L p = a[pi * n + pj]; if (p == 0) return false;
        if (pi != k) { for (int j = 0; j < n; j++) std::swap(a[pi * n + j], a[k * n + j]), std::swap(b[pi * n + j], b[k * n + j]); det = -det; }
        if (pj != k) { for (int i = 0; i < n; i++) std::swap(a[i * n + pj], a[i * n + k]); std::swap(pc[pj], pc[k]); det = -det; }
        det *= p; for (int j = 0; j < n; j++) a[k * n + j] /= p, b[k * n + j] /= p;
        for (int i = 0; i < n; i++) if (i != k) { L f = a[i * n + k]; for (int j = 0; j < n; j++) a[i * n + j] -= f * a[k * n + j], b[i * n + j] -= f * b[k * n + j]; }
    }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) inv[pc[i] * n + j] = b[i * n + j];
    L na = 0, nb = 0; for (int i = 0; i < n; i++) { L s = 0, t = 0; for (int j = 0; j < n; j++) s += absL(a0[i * n + j]), t += absL(inv[i * n + j]); na = std::max(na, s); nb = std::max(nb, t); }
    condn = na * nb; return true;
}
template<class T> static void one(int n, const L* a, const L* x, int exact /* 1 nonsingular, 0 unknown, -1 singular, -2 must be flagged */, Ctx& c) {
    T m[902], v[32]; int w[32]; T det = -77; for (int i = 0; i < n * n + 2; i++) m[i] = T(777); for (int i = 0; i < n + 2; i++) v[i] = T(777), w[i] = 777;
    for (int i = 0; i < n * n; i++) m[1 + i] = T(a[i]); for (int i = 0; i < n; i++) v[1 + i] = T(x[i]);
    bool s = Fn<T>::f(n, m + 1, v + 1, det, w + 1); N(1);
    CHECK(m[0] == 777 && m[1 + n * n] == 777 && v[0] == 777 && v[1 + n] == 777 && w[0] == 777 && w[1 + n] == 777, "n %d matrix [%s]: memory outside the arguments was written", n, show(n, a).c_str());
    if (s) CHECK(det == 0, "n %d matrix [%s]: singular but determinant %.9g", n, show(n, a).c_str(), double(det));
    if (exact == -2) { CHECK(s, "n %d matrix [%s]: singular matrix not reported", n, show(n, a).c_str()); return; }
    L inv[900], d = 0, k = 1; bool ok = exact < 0 ? false : linv(n, a, inv, d, k);
    L big = 0; for (int i = 0; i < n * n; i++) big = std::max(big, absL(a[i]));
    if (!ok) { CHECK(s || absL(det) <= 400 * Fn<T>::e * powl(big * n, n), "n %d matrix [%s]: singular, but determinant %.9g", n, show(n, a).c_str(), double(det)); return; }
    L tol = 8 * Fn<T>::e * k * n;
    if (tol > 0.3L || absL(d) < 1e-18L || absL(d) > (sizeof(T) == 4 ? 1e36L : 1e290L)) return;
    CHECK(!s, "n %d matrix [%s]: reported singular, determinant is %.9Lg", n, show(n, a).c_str(), d);
    CHECK(near(det, d, tol * absL(d)), "n %d matrix [%s]: determinant %.9g, expected %.17Lg", n, show(n, a).c_str(), double(det), d);
    L nb = 0, nx = 0; for (int i = 0; i < n * n; i++) nb = std::max(nb, absL(inv[i])); for (int i = 0; i < n; i++) nx = std::max(nx, absL(x[i]));
    for (int i = 0; i < n; i++) {
        L y = 0; for (int j = 0; j < n; j++) { y += inv[i * n + j] * x[j]; CHECK(near(m[1 + i * n + j], inv[i * n + j], tol * nb), "n %d matrix [%s]: inverse(%d,%d) = %.9g, expected %.17Lg", n, show(n, a).c_str(), i, j, double(m[1 + i * n + j]), inv[i * n + j]); }
        CHECK(near(v[1 + i], y, tol * nb * nx * n), "n %d matrix [%s]: solution[%d] = %.9g, expected %.17Lg", n, show(n, a).c_str(), i, double(v[1 + i]), y);
    }
}
static void both(int n, const L* a, const L* x, int ex, Ctx& c) { c.say("n %d [%s]", n, show(n, a).c_str()); one<double>(n, a, x, ex, c); if (!c.failed) one<float>(n, a, x, ex, c); }
static int classify(int n, const int* a) {
    long d = idet(n, a); if (d) return 1;
    for (int i = 0; i < n; i++) { bool zr = true, zc = true; for (int j = 0; j < n; j++) { if (a[i * n + j]) zr = false; if (a[j * n + i]) zc = false; } if (zr || zc) return -2; }
    return -1;
}
static void ints(const char* name, int n, std::vector<int> al, u64 lim = 0) {
    u64 sz = 1; for (int i = 0; i < n * n; i++) sz *= al.size();
    std::string b = "all " + std::to_string(n) + "x" + std::to_string(n) + " matrices over {"; for (int v: al) b += std::to_string(v) + " "; b += "}, both precisions";
    domain(name, b, sz, [n, al](u64 i, Ctx& c) { Dec q(i); int a[64]; L l[64], x[8]; for (int k = 0; k < n * n; k++) l[k] = a[k] = al[q.take(al.size())]; for (int k = 0; k < n; k++) x[k] = (k * 7 + 3) % 5 - 1 + k; both(n, l, x, classify(n, a), c); });
}
void mc::define() {
    std::vector<std::string> f = {"dmat.cc", "smat.cc"};
    static VD v1 = uniq(VD{1, -1, 2, 0, 1e-10, -1e-10, 1e10, 0.3} + generic(-50, 50, 300) + litset(f, -1e6, 1e6));
    domain("1x1", "one equation, coefficients x right-hand sides", v1.size() * v1.size(), [](u64 i, Ctx& c) { Dec q(i); L a = q.pick(v1), x = q.pick(v1); both(1, &a, &x, a == 0 ? -2 : absL(a) < 1e-17L ? 0 : 1, c); });
    ints("2x2", 2, {-7, -5, -3, -2, -1, 0, 1, 2, 3, 4, 6, 9});
    ints("3x3", 3, g_thorough ? std::vector<int>{-2, -1, 0, 1, 3} : std::vector<int>{-1, 0, 1, 3});
    ints("4x4-binary", 4, {0, 1});
    if (g_thorough) ints("4x4-ternary", 4, {-1, 0, 2});
    static VD sc = {1, 1e-4, 1e3, 3e-2};
    domain("3x3-graded", "3x3 matrices {-1,0,1} with every row and column scale of 4 magnitudes", 19683 * 4ull * 4 * 4, [](u64 i, Ctx& c) { Dec q(i); int a[9]; L l[9], x[3] = {1, -2, 0.5L}; for (int k = 0; k < 9; k++) a[k] = int(q.take(3)) - 1; L r[3]; for (int k = 0; k < 3; k++) r[k] = q.pick(sc); for (int k = 0; k < 9; k++) l[k] = L(double(a[k] * r[k / 3] * (k % 3 == 1 ? 0.25L : 1))); both(3, l, x, classify(3, a), c); });
    domain("permutations", "every row permutation of diagonally dominant matrices of order 2 to 7", 5912, [](u64 i, Ctx& c) {
        int n = 2; u64 fct = 2, o = 0; while (i - o >= fct) { o += fct; n++; fct *= n; } u64 k = i - o; std::vector<int> p, r; for (int j = 0; j < n; j++) p.push_back(j);
        while (!p.empty()) { u64 q = k % p.size(); k /= p.size(); r.push_back(p[q]); p.erase(p.begin() + q); }
        L a[64], x[8]; for (int y = 0; y < n; y++) for (int z = 0; z < n; z++) a[y * n + z] = r[y] == z ? 4 + z : L((y * 5 + z * 3) % 4 - 1) / 4; for (int y = 0; y < n; y++) x[y] = y - 1.5L; both(n, a, x, 0, c); });
    domain("rank-deficient", "order 3 to 6: one row a combination of the others, every choice of row and zero row/column", 4 * 6 * 6 * 3, [](u64 i, Ctx& c) {
        Dec q(i); int n = 3 + int(q.take(4)), r = int(q.take(6)), s = int(q.take(6)), kind = int(q.take(3)); if (r >= n || s >= n || r == s) return; L a[64], x[8]; for (int y = 0; y < n; y++) for (int z = 0; z < n; z++) a[y * n + z] = (y * y * 3 + z * 5 + y * z) % 7 - 3 + (y == z ? 5 : 0); for (int y = 0; y < n; y++) x[y] = y;
        for (int z = 0; z < n; z++) { if (kind == 0) a[r * n + z] = 2 * a[s * n + z]; if (kind == 1) a[r * n + z] = 0; if (kind == 2) a[z * n + r] = 0; } both(n, a, x, kind ? -2 : -1, c); });
    domain("larger orders", "orders 8 to 24 (thorough 30): eight structured families, row orders cyclic, reversed and strided, right-hand sides of two scales", u64(g_thorough ? 23 : 17) * 8 * 9 * 2, [](u64 i, Ctx& c) {
        Dec q(i); int sc = int(q.take(2)), o = int(q.take(9)), f = int(q.take(8)), n = 8 + int(q.i); L a[900], x[30], r[900];
        for (int y = 0; y < n; y++) for (int z = 0; z < n; z++) { int d = z > y ? z - y : y - z; L g = L((y * 5 + z * 3 + y * z) % 11 - 5);
            r[y * n + z] = f == 0 ? (d == 0 ? 2 : d == 1 ? -1 : 0) : f == 1 ? L(std::min(y, z) + 1) / (std::max(y, z) + 1) : f == 2 ? (d == 0 ? 12 + y : 0) + g / 4 : f == 3 ? (z <= y ? 1 + (y + z) % 3 : 0) : f == 4 ? (z >= y ? 2 - (y * z) % 2 : 0) : f == 5 ? (d == 0 ? 6 : 0) + (z == n - 1 ? 1 + y % 4 : 0) - (y == n - 1 ? z % 3 : 0) : f == 6 ? (y + z == n - 1 ? 3 + y : 0) + (d == 0 ? 1 : 0) : (d == 0 ? std::ldexp(4.0, y % 7) : std::ldexp(g / 16, (y + z) / 2 % 7 - 3)); }
        for (int y = 0; y < n; y++) { int p = o < 4 ? (y + o * n / 4) % n : o < 8 ? (n - 1 - (y + (o - 4) * n / 4) % n) : n % 2 ? (y * 2) % n : (y ^ 1); for (int z = 0; z < n; z++) a[y * n + z] = L(float(r[p * n + z])); x[y] = ((y * 7) % 5 - 1.5L) * (sc ? 1e6L : 1); }
        c.say("order %d family %d rows %d scale %d", n, f, o, sc); one<double>(n, a, x, 0, c); if (!c.failed) one<float>(n, a, x, 0, c); });
}
