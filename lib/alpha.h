// Alphabets: the finite, explicit value sets the domains are products of.
#pragma once
#include "engine.h"
#include <fstream>
#include <sstream>

namespace mc {

typedef std::vector<double> VD;
typedef std::vector<float> VF;
typedef std::vector<int> VI;

inline double up(double x, int n = 1) { while (n-- > 0) x = std::nextafter(x, INFINITY); return x; }
inline double dn(double x, int n = 1) { while (n-- > 0) x = std::nextafter(x, -INFINITY); return x; }

inline VD uniq(VD v) {
    // -0.0 and 0.0 are kept apart
    std::sort(v.begin(), v.end(), [](double a, double b) { return a < b || (a == b && std::signbit(a) && !std::signbit(b)); });
    VD r;
    for (double x: v) if (r.empty() || std::memcmp(&r.back(), &x, 8)) r.push_back(x);
    return r;
}
inline VD operator+(VD a, const VD& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
inline VD grid(double a, double b, int n) { VD v; for (int i = 0; i < n; i++) v.push_back(n == 1 ? a : a + (b - a) * i / (n - 1)); return v; }
inline VD scaled(VD v, double s) { for (double& x: v) x *= s; return v; }
inline VD clip(const VD& v, double lo, double hi) { VD r; for (double x: v) if (x >= lo && x <= hi) r.push_back(x); return r; }
inline VF tof(const VD& v) { VF r; std::set<std::pair<float,bool>> s; for (double x: v) { float f = float(x); if (s.insert({f, std::signbit(f)}).second) r.push_back(f); } return r; }
// drop subnormal numbers (products of them underflow; alphabets that want them name them)
inline VD normal(const VD& v) { VD r; for (double x: v) if (x == 0 || std::fabs(x) > 1e-290) r.push_back(x); return r; }
// v plus neighbours at 1, 2 ulp (double or float) and at absolute offsets
inline VD around(const VD& v, const VD& offs, bool ulps = true) {
    VD r = v;
    for (double x: v) {
        if (ulps) { r.push_back(up(x)); r.push_back(dn(x)); r.push_back(up(x, 2)); r.push_back(dn(x, 2)); }
        for (double o: offs) { r.push_back(x + o); r.push_back(x - o); }
    }
    return normal(r);
}
// low-discrepancy points in [a, b): generic positions with no special structure (fixed, deterministic)
inline VD generic(double a, double b, int n, double phase = 0.5) {
    VD v; for (int i = 0; i < n; i++) { double t = phase + i * 0.6180339887498949; v.push_back(a + (b - a) * (t - std::floor(t))); } return v;
}
// numeric constants that appear in the named source files of the tree under test (VERIF_LITS is written by run.py).
// They only widen alphabets - so that a behaviour that switches at some constant is entered on both sides - and are
// never used by an oracle.
inline VD lits(const std::vector<std::string>& files) {
    static std::map<std::string, VD> all; static bool loaded = false;
    if (!loaded) {
        loaded = true;
        const char* p = getenv("VERIF_LITS");
        if (p) { std::ifstream f(p); std::string line; while (std::getline(f, line)) { std::istringstream s(line); std::string n, x; s >> n >> x; double v = strtod(x.c_str(), nullptr); if (std::isfinite(v)) all[n].push_back(v); } }
    }
    VD r = all["*"];
    for (auto& n: files) r = r + all[n];
    return uniq(r);
}
// literals, both signs, with close neighbours, limited to [lo, hi]
inline VD litset(const std::vector<std::string>& files, double lo, double hi, double scale = 1.0, size_t cap = 400) {
    VD l = lits(files), v;
    for (double x: l) for (double s: {1.0, -1.0}) {
        double y = x * s * scale;
        if (y < lo - 1e-3 || y > hi + 1e-3) continue;
        v.push_back(y); v.push_back(up(y)); v.push_back(dn(y));
        v.push_back(y * (1 + 1e-7)); v.push_back(y * (1 - 1e-7)); v.push_back(y * 1.001); v.push_back(y * 0.999); v.push_back(y+1e-9); v.push_back(y-1e-9);
    }
    VD s = uniq(scaled(l, scale));
    for (size_t i = 0; i + 1 < s.size(); i++) { double m = (s[i] + s[i+1]) / 2; v.push_back(m); v.push_back(-m); }
    v = uniq(normal(clip(v, lo, hi)));
    if (v.size() > cap) { VD w; for (size_t i = 0; i < cap; i++) w.push_back(v[i * v.size() / cap]); v = w; }
    return v;
}
inline VD lit_angles(const std::vector<std::string>& files, double lo, double hi, size_t cap = 400) {
    return uniq(litset(files, lo, hi, 1.0, cap) + litset(files, lo, hi, PI / 180, cap) + litset(files, lo, hi, PI, cap));
}

// ---- angles ----
// special longitudes: multiples of pi/2 with neighbours, signed zeros
inline VD lon_special() {
    VD q; for (int k = -4; k <= 4; k++) q.push_back(k * PI / 2);
    return uniq(around(q, {1e-15, 1e-12, 1e-9, 1e-6, 1e-3}) + VD{0.0, -0.0, DBL_MIN, -DBL_MIN, 1e-300, 1e-30, -1e-30, 5e-324});
}
inline VD lat_special() {
    VD q = {0.0, PI / 2, -PI / 2};
    VD v = around(q, {1e-16, 1e-15, 1e-12, 1e-9, 1e-7, 1e-6, 1e-4, 1e-3}) + VD{0.0, -0.0};
    return uniq(clip(v, -PI / 2, PI / 2));
}
inline VD lon_coarse() { return uniq(VD{-PI, -PI / 2, 0.0, PI / 2, PI, 2 * PI, 3 * PI / 2} + generic(-PI, 2 * PI, 9)); }
inline VD lat_coarse() { return uniq(VD{-PI / 2, 0.0, PI / 2, 1e-9, -1e-9, PI / 2 - 1e-7} + generic(-PI / 2, PI / 2, 7)); }
inline VD lon_tiny() { return {0.0, PI, 0.7, 4.1, -2.3}; }
inline VD lat_tiny() { return {0.0, PI / 2, -PI / 2, 0.6, -1.1}; }
inline int dens(int n) { return g_extra ? n * 20 : g_thorough ? n * 10 : n * 2; }
inline VD lon_fine(int n) { n = dens(n); return uniq(lon_special() + grid(-2 * PI, 2 * PI, n) + generic(-2 * PI, 2 * PI, n) + VD{10, -10, 100, -100, 1e3, -1e3, 1e4}); }
inline VD lat_fine(int n) { n = dens(n); return uniq(lat_special() + grid(-PI / 2, PI / 2, n) + generic(-PI / 2, PI / 2, n)); }

// product spaces.  Each axis has three alphabets: fine (F), coarse (C), tiny (T).
// star: for each axis k: F_k x prod_{j != k} T_j;  plus pairs: C_i x C_j x T_rest; plus prod of C when small.
struct Axis { VD fine, coarse, tiny, lit; };
// a thinner set around the constants, for pair products of axes
inline VD litpair(const std::vector<std::string>& files, double lo, double hi, bool angle, size_t cap = 120) {
    VD l = lits(files), v;
    for (double sc: angle ? VD{1.0, PI / 180} : VD{1.0}) {
        VD s = uniq(scaled(l, sc));
        for (size_t i = 0; i < s.size(); i++) for (double g: {1.0, -1.0}) {
            v.push_back(g * s[i]); v.push_back(g * s[i] * 1.0005); v.push_back(g * s[i] * 0.9995);
            if (i + 1 < s.size()) v.push_back(g * (s[i] + s[i + 1]) / 2);
        }
    }
    v = uniq(normal(clip(v, lo, hi)));
    if (v.size() > cap) { VD w; for (size_t i = 0; i < cap; i++) w.push_back(v[i * v.size() / cap]); v = w; }
    return v;
}
inline u64 prod_size(const std::vector<VD>& v) { u64 n = 1; for (auto& x: v) n *= x.size(); return n; }
struct Star {
    std::vector<std::vector<VD>> blocks; std::vector<u64> off; u64 total = 0, lat_off = ~0ull; std::vector<VD> lat; VD alpha;
    // n points of a lattice over all the fine alphabets at once: every box of some size in any few of the axes has a point
    void lattice(const std::vector<VD>& fine, u64 n) {
        double d = double(fine.size()), g = 2; for (int k = 0; k < 60; k++) g = std::pow(1 + g, 1 / (d + 1));
        lat = fine; lat_off = total; total += n; for (size_t j = 0; j < fine.size(); j++) alpha.push_back(std::pow(1 / g, double(j + 1)));
    }
    void add(const std::vector<VD>& b) { blocks.push_back(b); off.push_back(total); total += prod_size(b); }
    void get(u64 i, double* x) const {
        if (i >= lat_off) { for (size_t j = 0; j < lat.size(); j++) { double t = 0.5 + double(i - lat_off) * alpha[j]; x[j] = lat[j][size_t((t - std::floor(t)) * double(lat[j].size()))]; } return; }
        size_t k = std::upper_bound(off.begin(), off.end(), i) - off.begin() - 1;
        u64 r = i - off[k];
        for (size_t j = 0; j < blocks[k].size(); j++) { x[j] = blocks[k][j][r % blocks[k][j].size()]; r /= blocks[k][j].size(); }
    }
};
inline Star star(const std::vector<Axis>& ax, bool pairs = true, u64 full_cap = 3000000) {
    Star s; size_t n = ax.size();
    for (size_t k = 0; k < n; k++) {
        std::vector<VD> b; for (size_t j = 0; j < n; j++) b.push_back(j == k ? ax[j].fine : ax[j].tiny);
        s.add(b);
    }
    std::vector<VD> full; for (auto& a: ax) full.push_back(a.coarse);
    double sz = 1; for (auto& a: full) sz *= double(a.size());
    if (sz <= double(full_cap)) s.add(full);
    else if (pairs) for (size_t i = 0; i < n; i++) for (size_t k = i + 1; k < n; k++) {
        std::vector<VD> b; for (size_t j = 0; j < n; j++) b.push_back(j == i || j == k ? ax[j].coarse : ax[j].tiny);
        s.add(b);
    }
    for (size_t i = 0; i < n; i++) for (size_t k = i + 1; k < n; k++) if (!ax[i].lit.empty() || !ax[k].lit.empty()) {
        std::vector<VD> b; for (size_t j = 0; j < n; j++) b.push_back(j != i && j != k ? ax[j].tiny : ax[j].lit.empty() ? ax[j].coarse : ax[j].lit);
        s.add(b);
    }
    { // a full product of evenly thinned fine alphabets, as dense as the budget allows
        double budget = (g_extra ? 1e8 : g_thorough ? 2.5e7 : 3e6) / g_cost; std::vector<VD> b; size_t m = size_t(std::pow(budget, 1.0 / double(n)));
        for (auto& a: ax) { VD w; size_t k = std::min(m, a.fine.size()); for (size_t j = 0; j < k; j++) w.push_back(a.fine[(2 * j + 1) * a.fine.size() / (2 * k)]); b.push_back(w); }
        s.add(b);
    }
    if (n >= 3) { std::vector<VD> fine; for (auto& a: ax) fine.push_back(a.fine); s.lattice(fine, u64((g_extra ? 4e7 : g_thorough ? 1e7 : 1e6) / g_cost)); }
    // neighbouring pairs of fine axes against each other are added by checks that need them
    return s;
}
inline Axis lon_axis(const std::vector<std::string>& f, int n = 400) { return {uniq(lon_fine(n) + lit_angles(f, -7, 7)), lon_coarse(), lon_tiny(), litpair(f, -7, 7, true)}; }
inline Axis lat_axis(const std::vector<std::string>& f, int n = 400) { return {uniq(lat_fine(n) + lit_angles(f, -PI / 2, PI / 2)), lat_coarse(), lat_tiny(), litpair(f, -PI / 2, PI / 2, true)}; }
inline Axis lin_axis(const std::vector<std::string>& f, double lo, double hi, int n, const VD& special, const VD& tiny) {
    n = dens(n);
    return {uniq(clip(around(special, {1e-12, 1e-9, 1e-6, 1e-3}) + litset(f, lo, hi), lo, hi) + grid(lo, hi, n) + generic(lo, hi, n)),
        uniq(clip(special, lo, hi) + generic(lo, hi, 8)), tiny, litpair(f, lo, hi, false)};
}

// ---- comparisons ----
inline bool fin(double x) { return std::isfinite(x); }
inline L absL(L x) { return x < 0 ? -x : x; }
inline L wrapL(L x) { // to [-pi, pi]
    return x - 2 * PI_L * std::round(x / (2 * PI_L));
}
struct V3 { L x, y, z; };
inline V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V3 operator*(L s, V3 b) { return {s * b.x, s * b.y, s * b.z}; }
inline L dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline L norm(V3 a) { return std::sqrt(dot(a, a)); }
inline V3 dirv(L lon, L lat) { return {std::cos(lon) * std::cos(lat), std::sin(lon) * std::cos(lat), std::sin(lat)}; }
inline L angsep(V3 a, V3 b) { return std::atan2(norm(cross(a, b)), dot(a, b)); }
inline V3 v3(const double* p) { return {p[0], p[1], p[2]}; }
inline V3 v3(const float* p) { return {p[0], p[1], p[2]}; }
struct M3 { L m[3][3]; };
inline M3 operator*(const M3& a, const M3& b) { M3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { L s = 0; for (int k = 0; k < 3; k++) s += a.m[i][k] * b.m[k][j]; r.m[i][j] = s; } return r; }
inline V3 operator*(const M3& a, V3 v) { return {a.m[0][0] * v.x + a.m[0][1] * v.y + a.m[0][2] * v.z, a.m[1][0] * v.x + a.m[1][1] * v.y + a.m[1][2] * v.z, a.m[2][0] * v.x + a.m[2][1] * v.y + a.m[2][2] * v.z}; }
inline M3 transp(const M3& a) { M3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.m[i][j] = a.m[j][i]; return r; }
inline M3 ident() { return {{{1,0,0},{0,1,0},{0,0,1}}}; }
// frame rotation ("passive") about axis 0,1,2 as in astronomy: R1, R2, R3
inline M3 rot(int ax, L a) {
    L s = std::sin(a), c = std::cos(a);
    if (ax == 0) return {{{1,0,0},{0,c,s},{0,-s,c}}};
    if (ax == 1) return {{{c,0,-s},{0,1,0},{s,0,c}}};
    return {{{c,s,0},{-s,c,0},{0,0,1}}};
}
template<class T> inline M3 m3(const T m[3][3]) { M3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.m[i][j] = m[i][j]; return r; }
inline L nmax(L a, L b) { return a != a ? a : b != b ? b : a < b ? b : a; } // NaN if either is
inline L mdiff(const M3& a, const M3& b) { L d = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) d = nmax(d, absL(a.m[i][j] - b.m[i][j])); return d; }
inline L vdiff(V3 a, V3 b) { L d = 0; for (L e: {absL(a.x - b.x), absL(a.y - b.y), absL(a.z - b.z)}) d = nmax(d, e); return d; }
inline bool near(L a, L b, L tol) { return absL(a - b) <= tol; } // false on NaN

#define N(k) (c.calls += (k))
#define CHECK(cond, ...) do { c.checked++; if (!(cond)) { c.fail(__VA_ARGS__); return; } } while (0)

} // mc
