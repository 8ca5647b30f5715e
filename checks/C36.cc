// Every API call is a pure function of its arguments: same result after any history of other calls, whatever the result
// buffers and the stack held before; inputs are not modified and nothing outside the results is written.
#include "ops.h"
#include <cfenv>
using namespace mc;
typedef std::vector<unsigned char> Bytes;
static std::vector<Step> st; static size_t nst; static std::vector<Bytes> ref;
static Bytes call(const Step& s, Out& o) { o.clear(); all_ops()[size_t(s.op)].run(s.x.data(), o); return o.result(); }
// result of the call as the first library call of a fresh process
static Bytes fresh(const Step& s) {
    int fd[2]; if (pipe(fd)) abort();
    pid_t p = fork();
    if (!p) { close(fd[0]); alarm(90); Out o; Bytes b = call(s, o); size_t k = 0; while (k < b.size()) { ssize_t n = write(fd[1], b.data() + k, b.size() - k); if (n <= 0) break; k += size_t(n); } _exit(0); }
    close(fd[1]); Bytes b; unsigned char buf[4096]; ssize_t n; while ((n = read(fd[0], buf, sizeof buf)) > 0) b.insert(b.end(), buf, buf + n);
    close(fd[0]); int w; waitpid(p, &w, 0);
    return b;
}
static const Bytes& expect(size_t i) { if (ref[i].empty()) ref[i] = fresh(st[i]); return ref[i]; }
static __attribute__((noinline)) void smear(unsigned char b) { volatile unsigned char a[24576]; for (size_t i = 0; i < sizeof a; i++) a[i] = b; }
static void same(const Bytes& g, size_t i, const char* how, Ctx& c) {
    const Bytes& e = expect(i);
    size_t k = 0; while (k < e.size() && k < g.size() && e[k] == g[k]) k++;
    CHECK(g == e, "%s %s gives a different result than as the first call of a process (first difference at result byte %zu)", step_text(st[i]).c_str(), how, k);
}
// i then j
static void pair_(size_t i, size_t j, Ctx& c) {
    static Out o; Bytes g;
    call(st[i], o); g = call(st[j], o); N(2);
    c.say("%s; %s", step_text(st[i]).c_str(), step_text(st[j]).c_str());
    std::string how = "after "; if (g != expect(j)) how += step_text(st[i]);
    same(g, j, how.c_str(), c);
}
static void buffers(size_t i, int how, Ctx& c) {
    c.say("%s with variant %d", step_text(st[i]).c_str(), how);
    Out o; o.fill = how == 0 ? 0x00 : how == 1 ? 0xFF : how == 2 ? 0x3F : 0xA5; smear(how == 3 ? 0x7F : how == 4 ? 0xFF : how == 5 ? 0x00 : 0x40);
    feclearexcept(FE_ALL_EXCEPT); errno = 0; Bytes g = call(st[i], o); N(1);
    CHECK(o.canaries(), "%s writes outside its result arguments", step_text(st[i]).c_str());
    CHECK(o.inputs_kept(), "%s modifies an input argument", step_text(st[i]).c_str());
    CHECK(fegetround() == FE_TONEAREST, "%s changes the rounding mode", step_text(st[i]).c_str());
    const Bytes& e = expect(i); // made with fill 0xA5: a byte may differ only where neither call wrote it
    bool ok = g.size() == e.size(); size_t k = 0;
    for (; ok && k < e.size(); k++) if (g[k] != e[k] && !(g[k] == o.fill && e[k] == 0xA5)) ok = false;
    CHECK(ok, "the result of %s depends on what memory held before the call (result byte %zu)", step_text(st[i]).c_str(), k ? k - 1 : 0);
}
void mc::define() {
    st = all_steps(100, g_thorough ? 80 : 0); ref.resize(st.size());
    static const u64 n = st.size();
    domain("buffers", "every step x 3 result-buffer and 3 stack contents", n * 6, [](u64 i, Ctx& c) { Dec x(i); int h = int(x.take(6)); buffers(x.take(n), h, c); });
    domain("pairs", "every ordered pair of steps, each executed as a two-call history", n * n, [](u64 i, Ctx& c) { Dec x(i); size_t a = x.take(n); pair_(a, x.take(n), c); });
    // same-function triples: a cache with more than one entry, or a flag that needs two calls to set
    static std::vector<std::pair<size_t, size_t>> blk; static std::vector<u64> off; static u64 tot = 0;
    for (size_t a = 0; a < st.size();) { size_t b = a; while (b < st.size() && st[b].op == st[a].op) b++; blk.push_back({a, b}); off.push_back(tot); tot += u64(b - a) * (b - a) * (b - a); a = b; }
    domain("triples", "every triple of steps of one function", tot, [](u64 i, Ctx& c) {
        size_t k = size_t(std::upper_bound(off.begin(), off.end(), i) - off.begin() - 1); Dec x(i - off[k]); size_t m = blk[k].second - blk[k].first, a = blk[k].first;
        size_t p = a + x.take(m), q = a + x.take(m), r = a + x.take(m); static Out o; call(st[p], o); call(st[q], o); Bytes g = call(st[r], o); N(3);
        c.say("%s; %s; %s", step_text(st[p]).c_str(), step_text(st[q]).c_str(), step_text(st[r]).c_str());
        std::string how = "after "; if (g != expect(r)) how += step_text(st[p]) + "; " + step_text(st[q]);
        same(g, r, how.c_str(), c);
    });
    // a larger set of calls of each function, with arguments spread over their ordinary ranges: one call twice, then another
    nst = st.size(); for (auto& e: lattice_steps(g_thorough ? 500 : 150)) st.push_back(e);
    ref.resize(st.size());
    static std::vector<std::pair<size_t, size_t>> lb; static std::vector<u64> lo; static u64 lt = 0;
    for (size_t a = nst; a < st.size();) { size_t b = a; while (b < st.size() && st[b].op == st[a].op) b++; lb.push_back({a, b}); lo.push_back(lt); lt += u64(b - a) * (b - a); a = b; }
    domain("spread", "150 further calls of each function (thorough 500) with arguments spread over their ordinary ranges: every ordered pair, the first call made twice", lt, [](u64 i, Ctx& c) {
        size_t k = size_t(std::upper_bound(lo.begin(), lo.end(), i) - lo.begin() - 1); Dec x(i - lo[k]); size_t m = lb[k].second - lb[k].first, a = lb[k].first;
        size_t p = a + x.take(m), r = a + x.take(m); static Out o; call(st[p], o); call(st[p], o); Bytes g = call(st[r], o); N(3);
        c.say("%s twice; %s", step_text(st[p]).c_str(), step_text(st[r]).c_str());
        std::string how = "after "; if (g != expect(r)) how += step_text(st[p]) + " made twice"; same(g, r, how.c_str(), c);
    });
    // state that only shows after many calls (a counter, a table that fills up): every call of the run must give the first call's result
    domain("repeats", "every step called 300 times in a row, the base step of each function 70000 times (thorough: 5000 and 1000000)", n, [](u64 i, Ctx& c) {
        c.say("%s repeated", step_text(st[i]).c_str()); bool base = i == 0 || st[i].op != st[i - 1].op; static Out o; const Bytes e = expect(i);
        u64 m = g_thorough ? (base ? 1000000 : 5000) : (base ? 70000 : 300);
        for (u64 k = 0; k < m; k++) { Bytes g = call(st[i], o); if (g != e) { same(g, i, "called repeatedly", c); return; } }
        N(m); });
    // a result remembered under a rounded, truncated or incomplete key: the same call just before with one argument slightly different
    struct Near { uint32_t s; uint8_t a, d; uint32_t far; }; static std::vector<Near> nr; static const double DL[] = {1e-14, 1e-12, 1e-10, 1e-8, 1e-6, 1e-4, 1e-3, -1e-13, -1e-9, -1e-7, -1e-5, -9e-4};
    for (size_t a = 0; a < nst; a++) for (size_t k = 0; k < st[a].x.size(); k++) { size_t far = a; for (size_t b = 0; b < nst; b++) if (st[b].op == st[a].op && std::fabs(st[b].x[k] - st[a].x[k]) > std::fabs(st[far].x[k] - st[a].x[k])) far = b; for (int d = 0; d < 12; d++) if (st[a].x[k] != 0 && std::fabs(st[a].x[k]) < 1e15 && (DL[d] > 0 || st[a].x[k] != std::floor(st[a].x[k]))) nr.push_back({uint32_t(a), uint8_t(k), uint8_t(d), uint32_t(far)}); }
    domain("close calls", "every step after a call with that argument far away and the same call with one argument changed by a relative 1e-14 to 1e-3", nr.size(), [](u64 i, Ctx& c) {
        auto q = nr[i]; static Out o; Step p = st[q.s]; p.x[q.a] *= 1 + DL[q.d]; call(st[q.far], o); call(p, o); Bytes g = call(st[q.s], o); N(3); c.say("%s; %s; %s", step_text(st[q.far]).c_str(), step_text(p).c_str(), step_text(st[q.s]).c_str());
        std::string how = "after "; if (g != expect(q.s)) how += step_text(p); same(g, q.s, how.c_str(), c); });
}
