// Data holders of the interface: explicit-state exploration of store operations against a plain model; every reading name after each.
#include "alpha.h"
#include "slalib.h"
using namespace mc;
// a holder under test: slots of the model, and the operations that store into and read from them
template<class H, class V> struct Set { const char* name; int slot; std::function<void(H&, V)> f; };
template<class H, class V> struct Get { const char* name; int slot; std::function<V(H&)> f; };
template<class H, class V> struct Spec {
    const char* name; int slots; std::function<void(H&, const V*)> init; std::vector<Set<H, V>> set; std::vector<Get<H, V>> get; std::vector<V> val;
};
template<class V> static bool same(V a, V b) { if constexpr (std::is_floating_point<V>::value) return std::memcmp(&a, &b, sizeof a) == 0; else return a == b; }
template<class H, class V> static void agree(const Spec<H, V>& s, H& h, const V* m, const std::string& how, Ctx& c) {
    for (auto& g: s.get) { V v = g.f(h); N(1); CHECK(same(v, m[g.slot]), "%s: after %s, %s reads %.17g, expected %.17g", s.name, how.c_str(), g.name, double(v), double(m[g.slot])); }
}
template<class H, class V> static u64 letters(const Spec<H, V>& s) { return s.set.size() * s.val.size(); }
template<class H, class V> static void run(const Spec<H, V>& s, u64 i, int depth, Ctx& c) { // i encodes the sequence: digit 0 = stop
    V m[16]; for (int k = 0; k < s.slots; k++) m[k] = V(k % 2 ? 20 + k : -20 - k); if (std::is_same<V, char>::value) m[0] = '+';
    H h; s.init(h, m); std::string how = "initialisation"; c.say("%s: sequence #%llu", s.name, (unsigned long long) i); agree(s, h, m, how, c);
    Dec q(i); u64 A = letters(s); H old = h; V mo[16]; std::copy(m, m + s.slots, mo);
    for (int d = 0; d < depth && !c.failed; d++) {
        u64 t = q.take(A + 1); if (!t) continue; t--; auto& op = s.set[t / s.val.size()]; V v = s.val[t % s.val.size()];
        old = h; std::copy(m, m + s.slots, mo);
        op.f(h, v); m[op.slot] = v; char b[80]; snprintf(b, sizeof b, "; %s(%.9g)", op.name, double(v)); how += b; agree(s, h, m, how, c);
        if (!c.failed) { agree(s, old, mo, how + " on a copy", c); H k(h); agree(s, k, m, how + " and copying", c); }
    }
}
template<class H, class V> static void holder(const char* name, const char* bounds, const Spec<H, V>& s, int depth) {
    static std::vector<std::pair<Spec<H, V>, int>> keep; static std::vector<std::string> nm; size_t id = keep.size(); keep.reserve(8); keep.push_back({s, g_thorough ? depth + 1 : depth});
    u64 n = 1; for (int d = 0; d < keep[id].second; d++) n *= letters(s) + 1;
    domain(name, bounds, n, [id](u64 i, Ctx& c) { run(keep[id].first, i, keep[id].second, c); });
}
#define ST(H, V, n, k) {"set_" #n, k, [](H& h, V v) { h.set_##n(v); }}
#define GT(H, V, n, k) {"get_" #n, k, [](H& h) -> V { const H& q = h; return q.get_##n(); }}
template<class T> static void spherical(const char* nm, const char* np, const char* nv, const char* nq) {
    std::vector<T> val = {T(1.5), T(-2.25), T(0), T(-0.0), T(3e30), T(INFINITY), T(1e-35), T(0.1)};
    { typedef sla::Spherical<T> H; Spec<H, T> s{"Spherical", 2, [](H& h, const T* m) { h.s_a = m[0]; h.s_b = m[1]; },
        {ST(H, T, longitude, 0), ST(H, T, ra, 0), ST(H, T, ha, 0), ST(H, T, latitude, 1), ST(H, T, dec, 1)},
        {GT(H, T, longitude, 0), GT(H, T, ra, 0), GT(H, T, ha, 0), GT(H, T, latitude, 1), GT(H, T, dec, 1), {"field a", 0, [](H& h) { return h.s_a; }}, {"field b", 1, [](H& h) { return h.s_b; }}}, val};
      holder(nm, "every sequence of up to 3 stores (5 names x 8 values)", s, 3); }
    { typedef sla::SphericalPos<T> H; Spec<H, T> s{"SphericalPos", 3, [](H& h, const T* m) { h.s_a = m[0]; h.s_b = m[1]; h.sp_dist = m[2]; },
        {ST(H, T, longitude, 0), ST(H, T, ra, 0), ST(H, T, ha, 0), ST(H, T, latitude, 1), ST(H, T, dec, 1), ST(H, T, dist, 2)},
        {GT(H, T, longitude, 0), GT(H, T, ra, 0), GT(H, T, ha, 0), GT(H, T, latitude, 1), GT(H, T, dec, 1), GT(H, T, dist, 2), {"field dist", 2, [](H& h) { return h.sp_dist; }}}, val};
      holder(np, "every sequence of up to 3 stores (6 names x 8 values)", s, 3); }
    val.resize(4); val[1] = T(-0.1);
    { typedef sla::VectorPV<T> H; Spec<H, T> s{"VectorPV", 6, [](H& h, const T* m) { T p[3] = {m[0], m[1], m[2]}, v[3] = {m[3], m[4], m[5]}; h = H(p, v); },
        {ST(H, T, x, 0), ST(H, T, y, 1), ST(H, T, z, 2), ST(H, T, dx, 3), ST(H, T, dy, 4), ST(H, T, dz, 5)},
        {GT(H, T, x, 0), GT(H, T, y, 1), GT(H, T, z, 2), GT(H, T, dx, 3), GT(H, T, dy, 4), GT(H, T, dz, 5)}, val};
      for (int k = 0; k < 3; k++) { s.get.push_back({"position element", k, [k](H& h) { const H& q = h; return q.get_position()[k]; }}); s.get.push_back({"velocity element", 3 + k, [k](H& h) { const H& q = h; return q.get_velocity()[k]; }}); }
      holder(nv, "every sequence of up to 3 stores (6 names x 4 values)", s, 3); }
    { typedef sla::SphericalPV<T> H; typedef sla::SphericalPos<T> P; Spec<H, T> s{"SphericalPV", 6, [](H& h, const T* m) { P p, v; p.s_a = m[0]; p.s_b = m[1]; p.sp_dist = m[2]; v.s_a = m[3]; v.s_b = m[4]; v.sp_dist = m[5]; h = H(p, v); },
        {ST(H, T, longitude, 0), ST(H, T, ra, 0), ST(H, T, latitude, 1), ST(H, T, dec, 1), ST(H, T, dist, 2), ST(H, T, dlong, 3), ST(H, T, dra, 3), ST(H, T, dlat, 4), ST(H, T, ddec, 4), ST(H, T, ddist, 5)},
        {GT(H, T, longitude, 0), GT(H, T, ra, 0), GT(H, T, latitude, 1), GT(H, T, dec, 1), GT(H, T, dist, 2), GT(H, T, dlong, 3), GT(H, T, dra, 3), GT(H, T, dlat, 4), GT(H, T, ddec, 4), GT(H, T, ddist, 5)}, val};
      s.get.push_back({"direction a", 0, [](H& h) { return h.get_direction().s_a; }}); s.get.push_back({"direction b", 1, [](H& h) { return h.get_direction().s_b; }});
      s.get.push_back({"position a", 0, [](H& h) { return h.get_position().s_a; }}); s.get.push_back({"position b", 1, [](H& h) { return h.get_position().s_b; }}); s.get.push_back({"position distance", 2, [](H& h) { return h.get_position().sp_dist; }});
      s.get.push_back({"velocity a", 3, [](H& h) { return h.get_velocity().s_a; }}); s.get.push_back({"velocity b", 4, [](H& h) { return h.get_velocity().s_b; }}); s.get.push_back({"velocity distance", 5, [](H& h) { return h.get_velocity().sp_dist; }});
      holder(nq, "every sequence of up to 3 stores (10 names x 4 values)", s, 3); }
}
void mc::define() {
    spherical<double>("direction", "direction-distance", "vector-pv", "spherical-pv"); spherical<float>("direction-single", "direction-distance-single", "vector-pv-single", "spherical-pv-single");
    { typedef sla::AltazMount H; Spec<H, double> s{"AltazMount", 9, {}, {ST(H, double, azimuth, 0), ST(H, double, az_velocity, 1), ST(H, double, az_acceleration, 2), ST(H, double, elevation, 3), ST(H, double, el_velocity, 4), ST(H, double, el_acceleration, 5), ST(H, double, pangle, 6), ST(H, double, pa_velocity, 7), ST(H, double, pa_acceleration, 8)},
        {GT(H, double, azimuth, 0), GT(H, double, az_velocity, 1), GT(H, double, az_acceleration, 2), GT(H, double, elevation, 3), GT(H, double, el_velocity, 4), GT(H, double, el_acceleration, 5), GT(H, double, pangle, 6), GT(H, double, pa_velocity, 7), GT(H, double, pa_acceleration, 8)}, {1.5, -0.1, 0, -0.0}};
      s.init = [](H& h, const double* m) { h.set_azimuth(m[0]); h.set_az_velocity(m[1]); h.set_az_acceleration(m[2]); h.set_elevation(m[3]); h.set_el_velocity(m[4]); h.set_el_acceleration(m[5]); h.set_pangle(m[6]); h.set_pa_velocity(m[7]); h.set_pa_acceleration(m[8]); };
      holder("mount", "every sequence of up to 3 stores (9 names x 4 values)", s, 3); }
    // slot 4 is the sign, as a character code
    { typedef sla::ConversionResult H; Spec<H, int> s{"ConversionResult", 5, [](H& h, const int* m) { h.set_hours(m[0]); h.set_minutes(m[1]); h.set_seconds(m[2]); h.set_fraction(m[3]); h.set_sign(true); const_cast<int*>(m)[4] = '+'; },
        {ST(H, int, hours, 0), ST(H, int, degrees, 0), ST(H, int, minutes, 1), ST(H, int, arcminutes, 1), ST(H, int, seconds, 2), ST(H, int, arcseconds, 2), ST(H, int, fraction, 3)},
        {GT(H, int, hours, 0), GT(H, int, degrees, 0), GT(H, int, minutes, 1), GT(H, int, arcminutes, 1), GT(H, int, seconds, 2), GT(H, int, arcseconds, 2), GT(H, int, fraction, 3), GT(H, int, sign, 4)}, {0, 59, -7, 999999999, 2147483647}};
      holder("conversion-result", "every sequence of up to 3 stores (7 names x 5 values), sign kept", s, 3);
      Spec<H, int> g = s; g.val = {'+', '-'}; g.set = {{"set_sign(char)", 4, [](H& h, int v) { h.set_sign(char(v)); }}, {"set_sign(bool)", 4, [](H& h, int v) { h.set_sign(v == '+'); }}, {"set_hours", 0, [](H& h, int v) { h.set_hours(v); }}, {"set_arcminutes", 1, [](H& h, int v) { h.set_arcminutes(v); }}, {"set_seconds", 2, [](H& h, int v) { h.set_seconds(v); }}, {"set_fraction", 3, [](H& h, int v) { h.set_fraction(v); }}};
      holder("conversion-sign", "every sequence of up to 4 stores, both ways to give the sign", g, 4); }
    { typedef sla::FitCoeffs H; Spec<H, double> s{"FitCoeffs", 6, [](H& h, const double* m) { h.set_a(m[0]); h.set_b(m[1]); h.set_c(m[2]); h.set_d(m[3]); h.set_e(m[4]); h.set_f(m[5]); },
        {ST(H, double, a, 0), ST(H, double, b, 1), ST(H, double, c, 2), ST(H, double, d, 3), ST(H, double, e, 4), ST(H, double, f, 5)}, {GT(H, double, a, 0), GT(H, double, b, 1), GT(H, double, c, 2), GT(H, double, d, 3), GT(H, double, e, 4), GT(H, double, f, 5)}, {0.1, -0.0}};
      for (int k = 0; k < 6; k++) {
        s.set.push_back({"element store", k, [k](H& h, double v) { h[k] = v; }}); s.get.push_back({"element", k, [k](H& h) { return h[k]; }}); s.get.push_back({"array element", k, [k](H& h) { return h()[k]; }}); s.set.push_back({"array store", k, [k](H& h, double v) { h()[k] = v; }});
        s.set.push_back({"triplet store", k, [k](H& h, double v) { if (k < 3) h.get_abc()[k] = v; else h.get_def()[k - 3] = v; }}); s.get.push_back({"triplet element", k, [k](H& h) { return k < 3 ? h.get_abc()[k] : h.get_def()[k - 3]; }}); }
      s.get.push_back({"number of fields plus a", 0, [](H& h) { return h.get_nfields() - 6 + h.get_a(); }}); s.get.back().f = [](H& h) { return h.get_nfields() == 6 ? h.get_a() : NAN; };
      holder("fit-coefficients", "every sequence of up to 3 stores (by name, element, array and triplet x 2 values)", s, 3); }
    domain("version", "the package version as a number and as text", 1, [](u64, Ctx& c) {
        int n = sla::veri(); const char* t = sla::vers(); int a = -1, b = -1, d = -1; char z = 0; N(2); c.say("veri() = %d, vers() = %s", n, t);
        CHECK(sscanf(t, "%d.%d-%d%c", &a, &b, &d, &z) == 3 && n == a * 1000000 + b * 1000 + d && a == 2 && b == 5 && d == 7, "version %d and \"%s\" are not both 2.5-7", n, t); });
    domain("square-overload", "the three-by-three equation solver gives what the general one gives: all matrices over {-1,0,2}", 19683, [](u64 i, Ctx& c) {
        Dec q(i); double A[3][3], v[3], B[9], w[3], d1 = 7, d2 = 7; int k1[3], k2[3]; for (int k = 0; k < 9; k++) A[k / 3][k % 3] = B[k] = k == 4 ? 0.25 + double(q.take(3)) : double(int(q.take(3)) * 3 / 2 - 1); for (int k = 0; k < 3; k++) v[k] = w[k] = k + 0.5;
        c.say("matrix #%llu", (unsigned long long) i); bool s = sla::dmat(A, v, d1, k1), t = sla::dmat(3, B, w, d2, k2); N(2); CHECK(s == t && d1 == d2, "3x3 solver: singular %d determinant %.17g, general solver %d %.17g", s, d1, t, d2);
        for (int k = 0; k < 9; k++) CHECK(same(A[k / 3][k % 3], B[k]), "inverse element %d differs", k); for (int k = 0; k < 3; k++) CHECK(same(v[k], w[k]), "solution element %d differs", k); });
}
