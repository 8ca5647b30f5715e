// Memory safety: every access of every call stays inside live objects, with no arithmetic the language leaves undefined.
// The library and this harness are built with AddressSanitizer and UndefinedBehaviorSanitizer; every argument array is a
// heap block of exactly the documented size, so the monitor sees the first byte outside it.
// VARIANT: san
#include "ops.h"
#include <climits>
using namespace mc;
extern "C" const char* __asan_default_options() { return "detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=1:allocator_may_return_null=1:quarantine_size_mb=8:malloc_context_size=0"; }
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:abort_on_error=1"; }
static std::vector<Step> st;
static double sink = 0;
static void run(const Step& s, Ctx& c) { c.say("%s", step_text(s).c_str()); static Out o; o.clear(); all_ops()[size_t(s.op)].run(s.x.data(), o); N(1); auto b = o.result(); for (auto x: b) sink += x; c.checked++; }
// exact-size heap arrays
template<class T> struct Arr { T* p; size_t n; Arr(size_t n, double k = 0.3): p((T*) malloc(n * sizeof(T))), n(n) { for (size_t i = 0; i < n; i++) p[i] = T(std::is_integral<T>::value ? 0 : sin(i * 2.3 + k) + 0.1 * double(i % 7)); } ~Arr() { free(p); } operator T*() { return p; } };
struct Str { char* p; Str(const std::string& s): p((char*) malloc(s.size() + 1)) { memcpy(p, s.c_str(), s.size() + 1); } ~Str() { free(p); } };
static bool wide(char k, VD& w) { // extreme but legitimate values of one kind of argument
    switch (k) {
        case 'a': w = {1e6, -1e6, 1e-300, -0.0, 1e5, 6.283185307179586, -3.141592653589793}; return true;
        case 'b': w = {1.5707963267948966, -1.5707963267948966, -0.0, 1e-300}; return true;
        case 'm': w = {0, -1e5, 1e6, -2399963.5, 1e5}; return true;
        case 'U': w = {0, -1e5, 1e6, 1e9}; return true;
        case 'D': w = {-5000, 1e4, 1599.999, 1708.185, 947.95}; return true;
        case 'e': w = {-4000, 6000, 0, 1e4}; return true;
        case 'v': w = {1e150, -1e150, 1e-300, -0.0, 1e-20, 1, -1}; return true;
        case 'u': w = {0.9999999999999999, -0.9999999999999999, 1.0, -1.0, 1e5, -1e5}; return true;
        case 'y': w = {-4700, 49, 50, 99, 100, 10000, -100000, 100000}; return true;
        case 'o': w = {-1, 100000, -100000}; return true;
        case 'd': w = {-1, 100000, -100000}; return true;
        case 'j': w = {0, -1, 367, 1000, -1000}; return true;
        case 'h': case 'i': w = {INT_MAX, INT_MIN, 1000}; return true;
        case 's': w = {1e9, -1e9, 60.000001}; return true;
        case 'z': w = {1.5707963267948966, 1.6231562043547265, 3.0, -1.5, -3.0, 1e-9}; return true;
        case 't': w = {100, 500, 0, 1000}; return true;
        case 'p': w = {0, 10000, -5, 20000}; return true;
        case 'r': w = {1, -1, 2}; return true;
        case 'w': w = {0.1, 99.9999, 100, 100.0001, 1e9, 0.01}; return true;
        case 'H': w = {-1e4, -1000, 10000, 11000, 80000, 1e5}; return true;
        case 'T': w = {0.001, 0.01, 0.02, 0}; return true;
        case 'E': w = {1e-12, 0.1, 1e-15, 1}; return true;
        case 'x': w = {1e9, -1e9, 1e-300, -0.0}; return true;
        case 'c': w = {1e9, -1e9, 1e-12, -0.04}; return true;
        case 'g': w = {3, -3, 1e-9}; return true;
        case 'f': w = {1e-30, 1e30, 1e9}; return true;
    }
    return false;
}
void mc::define() {
    st = all_steps(100, g_thorough ? 2000 : 60);
    domain("steps", "every operation: base, every one-argument and a fixed set of two-argument variations", st.size(), [](u64 i, Ctx& c) { run(st[i], c); });
    static std::vector<Step> ws; auto& v = all_ops();
    for (size_t k = 0; k < v.size(); k++) {
        std::vector<double> base; for (const char* p = v[k].kinds; *p; p++) base.push_back(kind_values(*p)[0]);
        size_t n = base.size(); VD w, w2;
        for (size_t i = 0; i < n; i++) if (wide(v[k].kinds[i], w)) for (double y: w) { auto b = base; b[i] = y; ws.push_back({int(k), b});
            for (size_t j = 0; j < i; j++) if (wide(v[k].kinds[j], w2)) for (double z: w2) { b[j] = z; ws.push_back({int(k), b}); b[j] = base[j]; } }
    }
    static std::vector<Step> sp = lattice_steps(g_thorough ? 40000 : 3000);
    domain("spread", "every operation over a lattice through the ranges of all its arguments at once", sp.size(), [](u64 i, Ctx& c) { run(sp[i], c); });
    domain("extreme arguments", "every operation, every extreme value of every argument and every pair of them", ws.size(), [](u64 i, Ctx& c) { run(ws[i], c); });
    static const int M = g_thorough ? 24 : 12;
    domain("linear systems", "orders 1..M x 6 matrix families (regular, zero, rank one, identity, lower, upper), both precisions", u64(M * 6), [](u64 i, Ctx& c) {
        int n = int(i % M) + 1, f = int(i / M); c.say("order %d family %d", n, f); Arr<double> a(n * n), y(n); Arr<float> af(n * n), yf(n); Arr<int> w(n), wf(n); double d; float df;
        for (int r = 0; r < n; r++) for (int k = 0; k < n; k++) { double q = a[r * n + k]; q = f == 0 ? q + (r == k) * 3 : f == 1 ? 0 : f == 2 ? (r + 1) * (k + 1) : f == 3 ? r == k : f == 4 ? (k <= r) : (k >= r && k != r + 1); a[r * n + k] = q; af[r * n + k] = float(q); }
        sla::dmat(n, a, y, d, w); sla::smat(n, af, yf, df, wf); N(2); c.checked++;
    });
    static const int K = g_thorough ? 11 : 8;
    domain("singular values", "all shapes up to KxK with every physical excess 0..2 in both directions, 5 families; decomposition, solution and covariance", u64(K * K * 3 * 3 * 5), [](u64 i, Ctx& c) {
        Dec x(i); int m = int(x.take(K)) + 1, n = int(x.take(K)) + 1, mp = m + int(x.take(3)), np = n + int(x.take(3)), f = int(x.take(5)); c.say("svd %dx%d in %dx%d family %d", m, n, mp, np, f);
        Arr<double> a(mp * np), w(n), v(np * np), wk(n), b(m), xo(n), wk2(n), cov(np * np), wk3(n);
        for (int r = 0; r < mp; r++) for (int k = 0; k < np; k++) a[r * np + k] = f == 0 ? a[r * np + k] : f == 1 ? 0 : f == 2 ? (r + 1) * (k + 1) : f == 3 ? r == k : (k == r + 1);
        sla::svd(m, n, mp, np, a, w, v, wk); N(1);
        if (m >= n) { sla::svdsol(m, n, mp, np, b, a, w, v, wk2, xo); sla::svdcov(n, np, np, w, v, wk3, cov); N(2); }
        c.checked++;
    });
    domain("combinations", "complete histories of all combinations and permutations up to size 6, from exact-size state arrays", 6 * 7 + 6, [](u64 i, Ctx& c) {
        if (i < 42) { int n = int(i % 6) + 1, k = int(i / 6) + 1; c.say("combn %d of %d", k, n); Arr<int> l(k > 0 ? k : 1); for (int t = 0; t < 200; t++) { sla::combn(k, n, l); N(1); } }
        else { int n = int(i - 42) + 1; c.say("permut %d", n); Arr<int> s(n), o(n); s[0] = -1; for (int t = 0; t < 1000; t++) { sla::permut(n, s, o); N(1); } }
        c.checked++;
    });
    domain("plate fits", "0..8 stars x both models, fit, residuals, inverse and decomposition", 9 * 2 * 3, [](u64 i, Ctx& c) {
        int n = int(i % 9), six = int(i / 9 % 2), f = int(i / 18); c.say("fitxy %d stars, model %d, family %d", n, six ? 6 : 4, f); typedef const double (*XY)[2];
        Arr<double> e(2 * n, 0.3), m(2 * n, 0.8), p(2 * n); if (f == 1) for (int k = 0; k < 2 * n; k++) e[k] = m[k] = 1; if (f == 2) for (int k = 0; k < n; k++) { e[2 * k] = -m[2 * k]; e[2 * k + 1] = m[2 * k + 1]; }
        auto co = (sla::FitCoeffs*) malloc(sizeof(sla::FitCoeffs)), iv = (sla::FitCoeffs*) malloc(sizeof(sla::FitCoeffs)); memset(co, 0, sizeof *co); memset(iv, 0, sizeof *iv);
        sla::fitxy(!six, n, (XY) (double*) e, (XY) (double*) m, *co); double q[6]; if (n > 0) sla::pxy(n, (XY) (double*) e, (XY) (double*) m, *co, (double (*)[2]) (double*) p, q[0], q[1], q[2]); sla::invf(*co, *iv); sla::dcmpf(*co, q[0], q[1], q[2], q[3], q[4], q[5]); N(4); free(co); free(iv); c.checked++;
    });
    static const char AL[] = {0, 'X', 'y', '3', 'A', 'K', 'L', '1', ' ', '?', char(0xFF)};
    domain("strings", "every string of up to 5 characters over 10 characters as rotation order and as station identifier, in exact-size storage", 11ull * 11 * 11 * 11 * (g_thorough ? 11 : 4), [](u64 i, Ctx& c) {
        Dec x(i); std::string s; for (int k = 0; k < 5; k++) { char ch = AL[x.take(11)]; if (!ch) break; s += ch; } c.say("string \"%s\"", s.c_str());
        Str q(s); Arr<double> m(9); Arr<float> mf(9); sla::deuler(q.p, 0.1, 0.2, 0.3, (double (*)[3]) (double*) m); sla::euler(q.p, 0.1f, 0.2f, 0.3f, (float (*)[3]) (float*) mf);
        sla::Observatory o{}; sla::obs(-1, q.p, o); sink += strlen(o.o_id) + strlen(o.o_name); N(3); c.checked++;
    });
    domain("station numbers", "station numbers around the ends of the list and of the number range", 400, [](u64 i, Ctx& c) { int n = i < 300 ? int(i) - 100 : i < 350 ? INT_MAX - int(i - 300) : INT_MIN + int(i - 350); c.say("obs %d", n); sla::Observatory o{}; sla::obs(n, n % 2 ? nullptr : "LPO", o); sink += strlen(o.o_id) + strlen(o.o_name); N(1); c.checked++; });
    domain("random", "both generators over seeds and deviations", 64, [](u64 i, Ctx& c) { c.say("random %d", int(i)); for (int k = 0; k < 2000; k++) { sink += sla::random(float(i) * 0.37f - 5) + sla::gresid(float(i) * 0.1f); N(2); } c.checked++; });
    domain("leap seconds", "every day 1958..2060 and every tenth year to +-10000", 40000, [](u64 i, Ctx& c) { double m = i < 38000 ? 36000.0 + double(i) : (double(i) - 39000) * 3652; c.say("dat %g", m); sink += sla::dat(m) + sla::dtt(m) + sla::dt(1858 + m / 365); N(3); c.checked++; });
    domain("years", "every epoch of the Delta-T and calendar functions, years -6000..6000", 12001, [](u64 i, Ctx& c) { int y = int(i) - 6000; c.say("year %d", y); double d; int a, b; sink += sla::dt(y); for (int mo = 0; mo < 14; mo++) for (int da: {0, 1, 28, 29, 30, 31, 32}) { sla::caldj(y, mo, da, d); sla::cldj(y, mo, da, d); sla::clyd(y, mo, da, a, b); sla::calyd(y, mo, da, a, b); N(4); } c.checked++; });
}
