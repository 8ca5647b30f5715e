// The two random generators: range, reproducibility, seeding, independence, distribution, over call histories and over
// every state the generators can reach.
#include "alpha.h"
#include "slalib.h"
using namespace mc;
static const VD SEEDS = {0, 1, -1, 0.5, 2, 7.25, 123456, -3.5e7, 1e-20, 3e38, 9, 1.5}, SIGMAS = {1, 0.5, 3, 0, -2, 1e-6};
// runs f in a fresh process (the generators start unseeded) and returns the floats it produced
static std::vector<float> fresh(const std::function<void(std::vector<float>&)>& f) {
    int fd[2]; if (pipe(fd)) abort();
    pid_t p = fork();
    if (!p) { close(fd[0]); std::vector<float> v; f(v); size_t k = 0, n = v.size() * sizeof(float); while (k < n) { ssize_t w = write(fd[1], (char*) v.data() + k, n - k); if (w <= 0) break; k += size_t(w); } _exit(0); }
    close(fd[1]); std::vector<float> v; char buf[8192]; std::string s; ssize_t n; while ((n = read(fd[0], buf, sizeof buf)) > 0) s.append(buf, size_t(n));
    close(fd[0]); int w; waitpid(p, &w, 0);
    v.resize(s.size() / sizeof(float)); memcpy(v.data(), s.data(), v.size() * sizeof(float)); return v;
}
static const int NREF = 64;
static const std::vector<float>& uref(size_t k) { static std::map<size_t, std::vector<float>> m; auto& v = m[k]; if (v.empty()) v = fresh([&](std::vector<float>& o) { for (int i = 0; i < NREF; i++) o.push_back(sla::random(float(SEEDS[k]))); }); return v; }
static const std::vector<float>& gref() { static std::vector<float> v; if (v.empty()) v = fresh([&](std::vector<float>& o) { for (int i = 0; i < NREF; i++) o.push_back(sla::gresid(1.0f)); }); return v; }
// a history of operations: 0..nu-1 random(seed), nu.. gresid(sigma)
static void history(const std::vector<int>& ops, Ctx& c) {
    std::string t; for (int o: ops) { char b[40]; o < int(SEEDS.size()) ? snprintf(b, sizeof b, "random(%g);", SEEDS[size_t(o)]) : snprintf(b, sizeof b, "gresid(%g);", SIGMAS[size_t(o) - SEEDS.size()]); t += b; }
    c.say("%s", t.c_str());
    auto g = fresh([&](std::vector<float>& r) { for (int o: ops) r.push_back(o < int(SEEDS.size()) ? sla::random(float(SEEDS[size_t(o)])) : sla::gresid(float(SIGMAS[size_t(o) - SEEDS.size()]))); }); N(ops.size());
    CHECK(g.size() == ops.size(), "the history %s did not complete", t.c_str()); if (g.size() != ops.size()) return;
    int first = -1; size_t nu = 0, ng = 0;
    for (size_t i = 0; i < ops.size(); i++) {
        if (ops[i] < int(SEEDS.size())) {
            if (first < 0) first = ops[i];
            float e = uref(size_t(first))[nu++];
            CHECK(g[i] == e, "call %zu of %s: uniform deviate %.9g, but draw %zu of the stream started with seed %g is %.9g", i + 1, t.c_str(), g[i], nu, SEEDS[size_t(first)], e);
            CHECK(g[i] >= 0 && g[i] < 1, "uniform deviate %.9g outside 0 <= x < 1", g[i]);
        } else {
            float e = gref()[ng++] * float(SIGMAS[size_t(ops[i]) - SEEDS.size()]);
            CHECK(g[i] == e || absL(g[i] - e) <= 1e-6L * absL(e), "call %zu of %s: normal deviate %.9g, expected deviate %zu of the stream scaled: %.9g", i + 1, t.c_str(), g[i], ng, e);
        }
    }
}
// distribution over the first n draws of a stream
static void uniform(size_t k, u64 n, Ctx& c) {
    c.say("%llu draws with seed %g", (unsigned long long) n, SEEDS[k]);
    auto g = fresh([&](std::vector<float>& r) {
        double s = 0, s2 = 0, lag = 0, prev = 0; std::vector<u64> bin(64), pairb(256); float lo = 2, hi = -1, bad = 0; u64 eq = 0;
        for (u64 i = 0; i < n; i++) { float x = sla::random(float(SEEDS[k])); if (!(x >= 0 && x < 1)) { bad = 1; break; } s += x; s2 += double(x) * x; bin[size_t(x * 64)]++; if (i) { lag += x * prev; pairb[size_t(x * 16) * 16 + size_t(prev * 16)]++; if (x == float(prev)) eq++; } prev = x; lo = std::min(lo, x); hi = std::max(hi, x); }
        double chi = 0, chi2 = 0, e = double(n) / 64, e2 = double(n) / 256; for (u64 b: bin) chi += (b - e) * (b - e) / e; for (u64 b: pairb) chi2 += (b - e2) * (b - e2) / e2;
        r = {bad, float(s / n), float(s2 / n), float(chi), float(chi2), lo, hi, float(eq), float(lag / n)};
    }); N(n);
    CHECK(g.size() == 9 && g[0] == 0, "a uniform deviate of the stream with seed %g is outside 0 <= x < 1", SEEDS[k]); if (g.size() != 9) return;
    double sg = 1 / sqrt(double(n));
    CHECK(fabs(g[1] - 0.5) < 2 * sg && fabs(g[2] - 1.0 / 3) < 2 * sg && fabs(g[8] - 0.25) < 2 * sg, "seed %g: mean %.6g, mean square %.6g, lag product %.6g are not those of independent uniform deviates", SEEDS[k], g[1], g[2], g[8]);
    CHECK(g[3] < 63 + 8 * sqrt(2 * 63.0) && g[4] < 255 + 8 * sqrt(2 * 255.0), "seed %g: not uniform, chi-square %.4g over 64 cells, %.4g over 256 pair cells", SEEDS[k], g[3], g[4]);
    CHECK(g[7] < 20, "seed %g: %g consecutive equal deviates", SEEDS[k], g[7]);
}
static void normal_(u64 n, u64 from, Ctx& c) {
    c.say("normal deviates, %llu draws", (unsigned long long) n);
    auto g = fresh([&](std::vector<float>& r) {
        double s[5] = {0}, lag = 0, lag2 = 0, p1 = 0, p2 = 0; u64 bad = 0, eq = 0, cnt = 0, t2 = 0, t3 = 0;
        for (u64 i = 0; i < from; i++) sla::gresid(1);
        for (u64 i = 0; i < n; i++) { double x = sla::gresid(1.0f); if (!std::isfinite(x)) { bad++; continue; } cnt++; double y = x; for (int k = 1; k < 5; k++, y *= x) s[k] += y; lag += x * p1; lag2 += x * p2; if (i && x == p1) eq++; if (fabs(x) > 2) t2++; if (fabs(x) > 3) t3++; p2 = p1; p1 = x; }
        r = {float(bad), float(s[1] / cnt), float(s[2] / cnt), float(s[3] / cnt), float(s[4] / cnt), float(lag / cnt), float(lag2 / cnt), float(eq), float(double(t2) / cnt), float(double(t3) / cnt)};
    }); N(n);
    CHECK(g.size() == 10 && g[0] == 0, "a normal deviate is not finite"); if (g.size() != 10) return;
    for (int k = 0; k < NREF && !from; k++) { int dup = 0; for (int j = 0; j < k; j++) if (gref()[size_t(j)] == gref()[size_t(k)]) dup++; CHECK(gref()[size_t(k)] != 0 && !dup, "normal deviate %d of a fresh generator is %.9g: not a random draw", k + 1, gref()[size_t(k)]); }
    double q = 1 / sqrt(double(n));
    CHECK(fabs(g[1]) < 6 * q && fabs(g[2] - 1) < 9 * q && fabs(g[3]) < 24 * q && fabs(g[4] - 3) < 60 * q, "moments of %llu normal deviates: %.6g %.6g %.6g %.6g, expected 0 1 0 3", (unsigned long long) n, g[1], g[2], g[3], g[4]);
    CHECK(fabs(g[5]) < 6 * q && fabs(g[6]) < 6 * q && g[7] < 20, "normal deviates are correlated: lag products %.6g %.6g, %g repeats", g[5], g[6], g[7]);
    CHECK(fabs(g[8] - 0.0455003) < 2 * q && fabs(g[9] - 0.0026998) < 1 * q, "tails of %llu normal deviates: %.6g beyond 2 sigma, %.6g beyond 3 sigma", (unsigned long long) n, g[8], g[9]);
}
// all states: draw until the generator has gone through every state it can reach (2^31 - 2)
static const u64 CYCLE = 2147483646ull;
static void cycle(bool normal, Ctx& c) {
    c.say("%s generator, every reachable state", normal ? "normal" : "uniform");
    pid_t p = fork();
    if (!p) {
        if (!normal) { for (u64 i = 0; i < CYCLE; i++) { if (!(i & 0xFFFFF)) alive(); float x = sla::random(0); if (!(x >= 0 && x < 1)) _exit(3); } }
        else for (u64 i = 0; i < 1700000000ull; i++) { if (!(i & 0xFFFFF)) alive(); float x = sla::gresid(1); if (!std::isfinite(x)) _exit(3); }
        _exit(0);
    }
    int w = 0; waitpid(p, &w, 0); N(normal ? 1700000000ull : CYCLE);
    CHECK(WIFEXITED(w) && WEXITSTATUS(w) == 0, normal ? "a reachable generator state gives a normal deviate that is not finite" : "a reachable generator state gives a uniform deviate outside 0 <= x < 1");
}
void mc::define() {
    static const size_t A = 7; static const int pick[A] = {0, 3, 5, 6, 12, 13, 16}; // 4 seeds, 3 sigmas
    static int depth = g_thorough ? 6 : 5; u64 n = 1, tot = 0; for (int d = 1; d <= depth; d++) { n *= A; tot += n; }
    static VD sg = uniq(generic(-20, 20, 150) + generic(0, 2, 100) + litset({"gresid.cc"}, 1e-6, 1e6) + VD{PI, -1, 10, 100, 1e10, 1e-10, 2, 0.1}), sd = uniq(generic(-50, 50, 150) + generic(0, 1, 100) + VD{0, -0.0, 1, -1, 100, 1e10, 1e-10, 1e30} + litset({"random.cc"}, -1e9, 1e9));
    domain("deviation sizes", "a wide alphabet of standard deviations: the same stream, scaled", sg.size(), [](u64 i, Ctx& c) {
        c.say("8 x gresid(%g) after gresid(1)", sg[i]); auto g = fresh([&](std::vector<float>& r) { r.push_back(sla::gresid(1)); for (int k = 0; k < 8; k++) r.push_back(sla::gresid(float(sg[i]))); }); N(9);
        for (size_t k = 1; k < 9; k++) { L e = L(gref()[k]) * float(sg[i]); CHECK(g.size() == 9 && absL(g[k] - e) <= 3e-7L * absL(e), "normal deviate %zu with deviation %.9g is %.9g, expected %.9Lg", k + 1, sg[i], g.size() == 9 ? g[k] : NAN, e); } });
    domain("later seeds", "a wide alphabet of seeds given after the first call: the stream goes on unchanged", sd.size(), [](u64 i, Ctx& c) {
        c.say("random(1), then 8 x random(%g)", sd[i]); auto g = fresh([&](std::vector<float>& r) { r.push_back(sla::random(1)); for (int k = 0; k < 8; k++) r.push_back(sla::random(float(sd[i]))); }); N(9);
        for (size_t k = 1; k < 9; k++) CHECK(g.size() == 9 && g[k] == uref(1)[k], "uniform deviate %zu of the stream seeded with 1 is %.9g when %.9g is given as seed later, %.9g otherwise", k + 1, g.size() == 9 ? g[k] : NAN, sd[i], uref(1)[k]); });
    domain("histories", "every sequence of random(seed) / gresid(sigma) calls up to length 5 (6), 4 seeds, 3 deviations, each in a fresh process", tot, [](u64 i, Ctx& c) { u64 b = A; int d = 1; while (i >= b) { i -= b; b *= A; d++; } Dec x(i); std::vector<int> ops; for (int k = 0; k < d; k++) ops.push_back(pick[x.take(A)]); history(ops, c); });
    domain("long histories", "each seed as first call, followed by each seed or deviation repeated, interleaved at every offset", SEEDS.size() * (SEEDS.size() + SIGMAS.size()) * 40, [](u64 i, Ctx& c) { Dec x(i); int f = int(x.take(SEEDS.size())), g = int(x.take(SEEDS.size() + SIGMAS.size())), at = int(x.take(40)); std::vector<int> o; for (int k = 0; k < 50; k++) o.push_back(k == 0 ? f : k == at || (k * at) % 7 == 1 ? g : (k + at) % 3 ? f : int(SEEDS.size())); history(o, c); });
    domain("uniform distribution", "first 2^20 draws of each of 12 streams: range, moments, cells, pairs", SEEDS.size(), [](u64 i, Ctx& c) { uniform(i, 1 << 20, c); });
    domain("seeds differ", "all pairs of seeds with different leading digits", SEEDS.size() * SEEDS.size(), [](u64 i, Ctx& c) { static const int ok[] = {0, 1, 3, 4, 5, 6, 7}; Dec x(i); size_t a = x.take(SEEDS.size()), b = x.take(SEEDS.size()); c.say("seeds %g and %g", SEEDS[a], SEEDS[b]); bool d = false; for (int k: ok) for (int l: ok) if (size_t(k) == a && size_t(l) == b && a < b) d = true; N(2); if (d) CHECK(uref(a) != uref(b), "the seeds %g and %g start the same stream", SEEDS[a], SEEDS[b]); else CHECK(uref(a).size() == NREF, "stream not produced"); });
    domain("normal distribution", "2^21 draws from 8 offsets: moments, lags, tails", 8, [](u64 i, Ctx& c) { normal_(1 << 21, i * i * 50001, c); });
    domain("all generator states", "every one of the 2^31-2 states the uniform generator can reach", 1, [](u64, Ctx& c) { cycle(false, c); });
    if (g_thorough) domain("all normal generator states", "every state of the generator behind the normal deviates", 1, [](u64, Ctx& c) { cycle(true, c); });
}
