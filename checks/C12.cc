// Rotations: axial vectors, Euler sequences, matrix and vector products; in-place use where documented.
#include "alpha.h"
#include "slalib.h"
using namespace mc;
static M3 rodrigues(L x, L y, L z) { // frame rotation clockwise as seen looking along the axis from the origin
    L p = sqrtl(x * x + y * y + z * z); if (p == 0) return ident();
    L s = sinl(p), k = cosl(p), w = 2 * sinl(p / 2) * sinl(p / 2); x /= p; y /= p; z /= p;
    return {{{x * x * w + k, x * y * w + z * s, x * z * w - y * s}, {x * y * w - z * s, y * y * w + k, y * z * w + x * s}, {x * z * w + y * s, y * z * w - x * s, z * z * w + k}}};
}
static L det3(const M3& a) { return a.m[0][0] * (a.m[1][1] * a.m[2][2] - a.m[1][2] * a.m[2][1]) - a.m[0][1] * (a.m[1][0] * a.m[2][2] - a.m[1][2] * a.m[2][0]) + a.m[0][2] * (a.m[1][0] * a.m[2][1] - a.m[1][1] * a.m[2][0]); }
template<class T> static void axial(double x, double y, double z, Ctx& c) {
    const bool dbl = sizeof(T) == 8; T v[3] = {T(x), T(y), T(z)}, m[3][3], b[3] = {-9, -9, -9};
    c.say("axial (%.17g,%.17g,%.17g)", x, y, z);
    if constexpr (sizeof(T) == 8) sla::dav2m(v, m); else sla::av2m(v, m);
    N(1);
    L mag = norm(v3(v)), eps = dbl ? 3.6e-15L + mag * 1.2e-15L : 1e-06L + mag * 3e-07L;
    M3 M = m3(m), E = rodrigues(v[0], v[1], v[2]);
    CHECK(mdiff(M, E) <= eps, "axial (%.17g,%.17g,%.17g): matrix differs from the rotation by %.3Lg", x, y, z, mdiff(M, E));
    CHECK(mdiff(M * transp(M), ident()) <= eps * 4 && near(det3(M), 1, eps * 6), "axial (%.17g,%.17g,%.17g): not a proper rotation", x, y, z);
    if constexpr (sizeof(T) == 8) sla::dm2av(m, b); else sla::m2av(m, b);
    N(1);
    if (mag < PI_L - (dbl ? 1e-3L : 0.1L)) {
        // near a half turn the recovered direction is ill-conditioned: error ~ eps / sin(angle)
        L s = sinl(mag); L tol = mag < 0.5L ? (dbl ? 1.6e-15L : 6e-07L) * (1 + mag * 2) : (dbl ? 3.6e-14L : 3e-6L) / std::max(s, (L) 1e-4);
        CHECK(vdiff(v3(b), v3(v)) <= tol, "axial (%.17g,%.17g,%.17g) recovered as (%.17g,%.17g,%.17g)", x, y, z, double(b[0]), double(b[1]), double(b[2]));
    } else CHECK(fin(b[0]) && fin(b[1]) && fin(b[2]) && norm(v3(b)) <= PI_L + 1e-5L, "axial (%.17g,%.17g,%.17g): recovered vector not finite or longer than a half turn", x, y, z);
}
static int axis_of(char ch) { switch (ch) { case 'X': case 'x': case '1': return 0; case 'Y': case 'y': case '2': return 1; case 'Z': case 'z': case '3': return 2; } return -1; }
static void eul(const char* o, double a, double b, double g, Ctx& c) {
    c.say("euler '%s' %.9g %.9g %.9g", o, a, b, g);
    double ang[3] = {a, b, g}; double m[3][3]; float f[3][3];
    sla::deuler(o, a, b, g, m); sla::euler(o, float(a), float(b), float(g), f); N(2);
    M3 E = ident(), F = ident();
    for (int k = 0; k < 3 && o[k] && axis_of(o[k]) >= 0; k++) { E = rot(axis_of(o[k]), ang[k]) * E; F = rot(axis_of(o[k]), float(ang[k])) * F; }
    CHECK(mdiff(m3(m), E) <= 8e-15L, "euler '%s' (%.17g,%.17g,%.17g): double precision matrix wrong by %.3Lg", o, a, b, g, mdiff(m3(m), E));
    CHECK(mdiff(m3(f), F) <= 6e-07L, "euler '%s' (%.17g,%.17g,%.17g): single precision matrix wrong by %.3Lg", o, a, b, g, mdiff(m3(f), F));
}
static const int MI[] = {-1, 0, 2};
template<class T> static void products_of(const T (&A)[3][3], const T (&B)[3][3], const T (&v)[3], const T (&w)[3], u64 i, Ctx& c);
template<class T> static void products(u64 i, Ctx& c) { // ma: matrices over a 3-letter alphabet, mb derived, exhaustive
    Dec q(i); T A[3][3], B[3][3], v[3], w[3];
    for (auto& r: A) for (T& e: r) e = T(MI[q.take(3)]);
    u64 h = i; for (int k = 0; k < 9; k++) { B[k / 3][k % 3] = T(int(h % 5) - 2) + T(k) / 8; h = h / 5 + k * 7 + 3; }
    for (int k = 0; k < 3; k++) { v[k] = A[k][(k + 1) % 3] + T(k + 1) / 4; w[k] = B[(k + 2) % 3][k] - T(1) / 2; }
    products_of<T>(A, B, v, w, i, c);
}
// the 24 operands of a product (two matrices, two vectors) as one list of slots
static const VD PV = {0.0, 1, -1, 0.5, -0.37, 2.6, -3.1, 1e-8, 100, -0.0, 0.9, -0.06}, PT = {0.0, 1, -1, 0.44, -2.3};
template<class T> static void slots(const double* x, u64 i, Ctx& c) {
    T A[3][3], B[3][3], v[3], w[3];
    for (int k = 0; k < 9; k++) A[k / 3][k % 3] = T(x[k]), B[k / 3][k % 3] = T(x[9 + k]);
    for (int k = 0; k < 3; k++) v[k] = T(x[18 + k]), w[k] = T(x[21 + k]);
    products_of<T>(A, B, v, w, i, c);
}
template<class T> static void vecs(double x, double y, double z, double u, double v, double w, Ctx& c);
static void both(const double* x, u64 i, Ctx& c) {
    slots<double>(x, i, c); if (!c.failed) slots<float>(x, i, c);
    if (!c.failed) vecs<double>(x[18], x[19], x[20], x[21], x[22], x[23], c);
    if (!c.failed) vecs<float>(x[18], x[19], x[20], x[21], x[22], x[23], c);
}
static double lattice(u64 f, int k) { double t = double(f + 1) * sqrt(double(2 + 3 * k + (k % 2))) * 0.618; return f == 0 ? (k % 4 ? 0 : 1) : 3 * (t - floor(t)) - 1.5; }
template<class T> static void products_of(const T (&A)[3][3], const T (&B)[3][3], const T (&v)[3], const T (&w)[3], u64 i, Ctx& c) {
    c.say("products #%llu", (unsigned long long) i);
    M3 a = m3(A), b = m3(B), e = a * b; T R[3][3], C1[3][3], C2[3][3], r[3], s[3];
    L big = 1; for (int k = 0; k < 9; k++) { big = std::max<L>(big, absL(A[k / 3][k % 3])); } L bb = 1; for (int k = 0; k < 9; k++) bb = std::max<L>(bb, absL(B[k / 3][k % 3])); for (int k = 0; k < 3; k++) bb = std::max<L>(bb, std::max(absL(v[k]), absL(w[k]))); bb = std::max(bb, big);
    const L tol = (sizeof(T) == 8 ? 1.5e-15L : 8e-7L) * 1.5L * big * bb, sq = tol / bb * big, tv = tol / big * bb;
    memcpy(C1, A, sizeof A); memcpy(C2, B, sizeof B);
    if constexpr (sizeof(T) == 8) { sla::dmxm(A, B, R); sla::dmxm(C1, B, C1); sla::dmxm(A, C2, C2); } else { sla::mxm(A, B, R); sla::mxm(C1, B, C1); sla::mxm(A, C2, C2); }
    N(3);
    CHECK(mdiff(m3(R), e) <= tol, "matrix product wrong (#%llu)", (unsigned long long) i);
    CHECK(mdiff(m3(C1), e) <= tol, "matrix product in place of the first factor wrong (#%llu)", (unsigned long long) i);
    CHECK(mdiff(m3(C2), e) <= tol, "matrix product in place of the second factor wrong (#%llu)", (unsigned long long) i);
    T C3[3][3]; memcpy(C3, A, sizeof A); if constexpr (sizeof(T) == 8) sla::dmxm(C3, C3, C3); else sla::mxm(C3, C3, C3); N(1);
    CHECK(mdiff(m3(C3), a * a) <= sq, "matrix squared in place wrong (#%llu)", (unsigned long long) i);
    V3 ev = a * v3(v), et = transp(a) * v3(v);
    memcpy(s, v, sizeof v);
    if constexpr (sizeof(T) == 8) { sla::dmxv(A, v, r); sla::dmxv(A, s, s); } else { sla::mxv(A, v, r); sla::mxv(A, s, s); }
    N(2);
    CHECK(vdiff(v3(r), ev) <= tol && vdiff(v3(s), ev) <= tol, "matrix times vector wrong (#%llu)", (unsigned long long) i);
    memcpy(s, v, sizeof v);
    if constexpr (sizeof(T) == 8) { sla::dimxv(A, v, r); sla::dimxv(A, s, s); } else { sla::imxv(A, v, r); sla::imxv(A, s, s); }
    N(2);
    CHECK(vdiff(v3(r), et) <= tol && vdiff(v3(s), et) <= tol, "inverse (transpose) times vector wrong (#%llu)", (unsigned long long) i);
    V3 cr = cross(v3(v), v3(w)); T s2[3]; memcpy(s, v, sizeof v); memcpy(s2, w, sizeof w); T dt;
    if constexpr (sizeof(T) == 8) { sla::dvxv(v, w, r); sla::dvxv(s, w, s); sla::dvxv(v, s2, s2); dt = sla::dvdv(v, w); } else { sla::vxv(v, w, r); sla::vxv(s, w, s); sla::vxv(v, s2, s2); dt = sla::vdv(v, w); }
    N(4);
    CHECK(vdiff(v3(r), cr) <= tv && vdiff(v3(s), cr) <= tv && vdiff(v3(s2), cr) <= tv, "vector product wrong (#%llu)", (unsigned long long) i);
    CHECK(near(dt, dot(v3(v), v3(w)), tv), "scalar product wrong (#%llu)", (unsigned long long) i);
}
template<class T> static void vecs(double x, double y, double z, double u, double v, double w, Ctx& c) {
    const L eps = sizeof(T) == 8 ? 2.4e-15L : 8e-07L;
    T a[3] = {T(x), T(y), T(z)}, b[3] = {T(u), T(v), T(w)}, n[3], cr[3];
    c.say("vectors (%.9g,%.9g,%.9g) (%.9g,%.9g,%.9g)", x, y, z, u, v, w);
    T m, d; if constexpr (sizeof(T) == 8) { m = sla::dvn(a, n); d = sla::dvdv(a, b); sla::dvxv(a, b, cr); } else { m = sla::vn(a, n); d = sla::vdv(a, b); sla::vxv(a, b, cr); }
    N(3);
    L M = norm(v3(a)), B = norm(v3(b));
    CHECK(near(m, M, M * eps), "modulus of (%.17g,%.17g,%.17g) is %.17g", x, y, z, double(m));
    if (M == 0) CHECK(n[0] == 0 && n[1] == 0 && n[2] == 0, "normalised null vector is not null");
    else CHECK(vdiff(v3(n), (1 / M) * v3(a)) <= eps * 2, "normalised (%.17g,%.17g,%.17g) is (%.17g,%.17g,%.17g)", x, y, z, double(n[0]), double(n[1]), double(n[2]));
    CHECK(near(d, dot(v3(a), v3(b)), M * B * eps * 2), "scalar product of (%.17g,%.17g,%.17g) and (%.17g,%.17g,%.17g) is %.17g", x, y, z, u, v, w, double(d));
    CHECK(vdiff(v3(cr), cross(v3(a), v3(b))) <= M * B * eps * 2, "vector product of (%.17g,%.17g,%.17g) and (%.17g,%.17g,%.17g) wrong", x, y, z, u, v, w);
}
void mc::define() {
    static std::vector<std::string> f1 = {"av2m.cc", "dav2m.cc", "m2av.cc", "dm2av.cc"}, f2 = {"euler.cc", "deuler.cc"}, f3 = {"vn.cc", "dvn.cc", "vdv.cc", "dvdv.cc", "vxv.cc", "dvxv.cc", "mxm.cc", "dmxm.cc", "mxv.cc", "dmxv.cc", "imxv.cc", "dimxv.cc"};
    VD af = uniq(VD{0.0, -0.0, 1e-12, -1e-9, 1e-6, 1e-3, PI, -PI, PI / 2, -PI / 2, 2 * PI, 3 * PI, 10, -20} + generic(-4, 4, 300) + lit_angles(f1, -7, 7, 150) + around({PI, PI / 2}, {1e-9, 1e-6, 1e-3})), ac = uniq(VD{0.0, 1, -1, 1e-8, PI, PI / 2, -2} + generic(-3, 3, 24)), at = {0.0, 0.4, -1.3, 1e-7};
    static Star s = star({{af, ac, at}, {af, ac, at}, {af, ac, at}});
    domain("axial", "axial vectors: component star product up to several turns, both precisions", s.total, [](u64 i, Ctx& c) { double x[3]; s.get(i, x); axial<double>(x[0], x[1], x[2], c); if (!c.failed) axial<float>(x[0], x[1], x[2], c); });
    // directions x magnitudes: all rotation angles about a set of axes
    static VD mags = uniq(grid(0, 6.5, 651) + around({PI / 2, PI, 0}, {1e-12, 1e-9, 1e-7, 1e-5, 1e-4, 2e-3}) + litset(f1, 0, 7)); static VD dl = generic(-PI, PI, 21), db = uniq(VD{PI / 2, -PI / 2, 0} + generic(-1.5, 1.5, 11));
    domain("axis-angle", "rotation angle alphabet x axis directions", mags.size() * dl.size() * db.size(), [](u64 i, Ctx& c) { Dec q(i); double m = q.pick(mags); if (m < 0) m = -m; double a = q.pick(dl), b = q.pick(db); double x = m * cos(a) * cos(b), y = m * sin(a) * cos(b), z = m * sin(b); axial<double>(x, y, z, c); if (!c.failed) axial<float>(x, y, z, c); });
    static std::vector<std::string> orders; { const char al[] = "XYZxyz123wA0 "; int n = sizeof al - 1; orders.push_back("");
        for (int len = 1; len <= 4; len++) { u64 t = 1; for (int k = 0; k < len; k++) t *= n; for (u64 i = 0; i < t; i++) { std::string o; u64 r = i; for (int k = 0; k < len; k++) { o += al[r % n]; r /= n; } orders.push_back(o); } }
        for (int ch = 1; ch < 256; ch++) { orders.push_back(std::string(1, char(ch)) + "YZ"); orders.push_back("X" + std::string(1, char(ch)) + "Z"); orders.push_back("XY" + std::string(1, char(ch))); }
        orders.push_back("XYZXYZ"); orders.push_back("zxzw"); orders.push_back("123456789"); }
    static const double A3[][3] = {{0, 0, 0}, {0.3, -1.1, 2.2}, {PI / 2, PI, -PI / 2}, {1e-7, 6.5, -3}, {-2.5, 0.0, 0.9}};
    domain("euler-orders", "all order strings of length 0..4 over X,Y,Z,x,y,z,1,2,3 and four unrecognised characters, every character in every position, x angle sets", orders.size() * 5, [](u64 i, Ctx& c) { Dec q(i); const double* a = A3[q.take(5)]; eul(orders[q.i].c_str(), a[0], a[1], a[2], c); });
    VD ef = uniq(lon_fine(120) + lit_angles(f2, -7, 7, 100)), ec = uniq(lon_coarse()), et = {0.0, 0.8, -2.1};
    static Star t = star({{ef, ec, et}, {ef, ec, et}, {ef, ec, et}}); static const char* O[] = {"ZYX", "313", "zyz", "XZX", "Y", "12"};
    domain("euler-angles", "angle star product x six orders", t.total * 6, [](u64 i, Ctx& c) { Dec q(i); const char* o = O[q.take(6)]; double x[3]; t.get(q.i, x); eul(o, x[0], x[1], x[2], c); });
    domain("products", "all 3^9 matrices over {-1,0,2} times a derived second factor; separate and in-place results", 19683, products<double>);
    domain("products-single", "same, single precision", 19683, products<float>);
    domain("product-pairs", "two matrices and two vectors: every pair of the 24 operand elements over a 12-letter alphabet x 6 fills of the rest", 276 * 144 * 6, [](u64 i, Ctx& c) { Dec q(i); u64 f = q.take(6) * 5; int a = int(q.take(12)), b = int(q.take(12)); int j = 1, k = 0; u64 t = q.i; while (t >= u64(j)) t -= u64(j++); k = int(t); double x[24]; for (int s = 0; s < 24; s++) x[s] = lattice(f, s); x[j] = PV[size_t(a)]; x[k] = PV[size_t(b)]; both(x, i, c); });
    domain("product-triples", "every triple of operand elements over a 5-letter alphabet", 24 * 24 * 24 * 125, [](u64 i, Ctx& c) { Dec q(i); double x[24]; for (int s = 0; s < 24; s++) x[s] = lattice(7, s); size_t l[3] = {q.take(5), q.take(5), q.take(5)}; int j[3] = {int(q.take(24)), int(q.take(24)), int(q.take(24))}; if (!(j[0] < j[1] && j[1] < j[2])) return; for (int k = 0; k < 3; k++) x[j[k]] = PT[l[k]]; both(x, i, c); });
    domain("product-signs", "every sign pattern of both factors; every sign pattern of one factor and both vectors", (1 << 18) + (1 << 15), [](u64 i, Ctx& c) { double x[24]; for (int s = 0; s < 24; s++) { bool n = i < (1 << 18) ? (s < 18 ? i >> s : i >> (s - 15)) & 1 : s < 9 ? (i >> s) & 1 : s >= 18 ? (i >> (s - 9)) & 1 : s & 1; double m = fabs(lattice(11, s)) + 0.1; x[s] = n ? -m : m; } both(x, i, c); });
    domain("product-fills", "a lattice of generic operand fills", g_thorough ? 2000000 : 200000, [](u64 i, Ctx& c) { double x[24]; for (int s = 0; s < 24; s++) x[s] = lattice(i + 20, s); both(x, i, c); });
    VD vf = uniq(VD{0.0, -0.0, 1, -1, 1e-10, 1e10, 1e-100, -1e100, 3} + generic(-2, 2, 60) + litset(f3, -100, 100, 1, 60)), vc = {0.0, 1, -2, 0.5, 1e3}, vt = {0.0, 1.0, -0.7};
    static Star v = star({{vf, vc, vt}, {vf, vc, vt}, {vf, vc, vt}, {vf, vc, vt}, {vf, vc, vt}, {vf, vc, vt}});
    domain("vectors", "two vectors, star product over six components, 1e-100..1e100", v.total, [](u64 i, Ctx& c) { double x[6]; v.get(i, x); vecs<double>(x[0], x[1], x[2], x[3], x[4], x[5], c); if (c.failed) return; for (double& e: x) if (std::fabs(e) > 1e15 || (e != 0 && std::fabs(e) < 1e-12)) e = 0.25; vecs<float>(x[0], x[1], x[2], x[3], x[4], x[5], c); });
}
