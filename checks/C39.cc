// The pause: exactly the requested whole seconds pass, however often the sleep is interrupted by signals.
// The clock and every sleeping primitive are replaced by a virtual clock while the library call runs; at each sleep the
// environment chooses among "completes" and "a signal handler interrupts it after ...", and all choice sequences are run.
#include "alpha.h"
#include "slalib.h"
#include <climits>
#include <poll.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <sys/time.h>
using namespace mc;
static const bool full_depth = (g_deep = true);
typedef __int128 i128;
static bool virt = false; static i128 vt; static const i128 V0 = i128(1700000000) * 1000000000;
static std::vector<int> plan; static size_t at; static int sleeps, intr; static bool bad; static u64 polls;
static const char* FR[] = {"completes", "interrupted at once", "interrupted after 1 ns", "interrupted half way", "interrupted 1 ns before its end", "interrupted at its end"};
// sleep for d ns; true if interrupted, with the rest in *rest
static bool vsleep(i128 d, i128* rest) {
    sleeps++; *rest = 0;
    if (d < 0) d = 0;
    int k = at < plan.size() ? plan[at] : 0; at++;
    if (k == 0 || d == 0) { vt += d; return false; }
    i128 e = k == 1 ? 0 : k == 2 ? 1 : k == 3 ? d / 2 : k == 4 ? d - 1 : d; if (e > d) e = d;
    vt += e; *rest = d - e; intr++; errno = EINTR; return true;
}
static i128 ns(const timespec* t) { return i128(t->tv_sec) * 1000000000 + t->tv_nsec; }
static bool invalid(const timespec* t) { if (t->tv_sec < 0 || t->tv_nsec < 0 || t->tv_nsec > 999999999) { bad = true; return true; } return false; }
static void put(timespec* t, i128 d) { if (t) { t->tv_sec = time_t(d / 1000000000); t->tv_nsec = long(d % 1000000000); } }
extern "C" {
int nanosleep(const timespec* q, timespec* r) { if (!virt) return int(syscall(SYS_nanosleep, q, r)); if (invalid(q)) { errno = EINVAL; return -1; } i128 rest; i128 d = ns(q); if (vsleep(d, &rest)) { put(r, rest); return -1; } return 0; }
int clock_nanosleep(clockid_t c, int fl, const timespec* q, timespec* r) { if (!virt) { long e = syscall(SYS_clock_nanosleep, c, fl, q, r); return e ? errno : 0; } if (invalid(q)) return EINVAL; i128 rest, d = ns(q); if (fl & TIMER_ABSTIME) { d -= vt; if (d < 0) d = 0; } if (vsleep(d, &rest)) { if (!(fl & TIMER_ABSTIME)) put(r, rest); return EINTR; } return 0; }
int usleep(useconds_t u) { timespec t = {time_t(u / 1000000), long(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
unsigned sleep(unsigned s) { if (!virt) { timespec t = {time_t(s), 0}, r = {0, 0}; return nanosleep(&t, &r) ? unsigned(r.tv_sec) : 0; } i128 rest; vsleep(i128(s) * 1000000000, &rest); return unsigned((rest + 500000000) / 1000000000); }
int clock_gettime(clockid_t c, timespec* t) noexcept { if (!virt) return int(syscall(SYS_clock_gettime, c, t)); if (++polls > 50000000) { bad = true; virt = false; } vt += 1000; put(t, vt); return 0; }
int gettimeofday(timeval* t, void*) noexcept { timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t time(time_t* p) noexcept { timespec s; clock_gettime(CLOCK_REALTIME, &s); if (p) *p = s.tv_sec; return s.tv_sec; }
int poll(pollfd* f, nfds_t n, int ms) { if (!virt) return int(syscall(SYS_poll, f, n, ms)); i128 rest; return vsleep(i128(ms) * 1000000, &rest) ? -1 : 0; }
int select(int n, fd_set* a, fd_set* b, fd_set* e, timeval* t) { if (!virt) return int(syscall(SYS_select, n, a, b, e, t)); if (!t) { bad = true; return -1; } i128 rest; bool i = vsleep(i128(t->tv_sec) * 1000000000 + i128(t->tv_usec) * 1000, &rest); t->tv_sec = time_t(rest / 1000000000); t->tv_usec = suseconds_t(rest % 1000000000 / 1000); return i ? -1 : 0; }
}
static void one(float s, const std::vector<int>& p, Ctx& c) {
    plan = p; at = 0; sleeps = intr = 0; bad = false; polls = 0; vt = V0;
    std::string h; for (int k: p) { h += h.empty() ? "" : "; "; h += FR[k]; }
    c.say("wait(%.9g), sleeps: %s", s, h.c_str());
    virt = true; sla::wait(s); virt = false; N(1);
    // nearest whole number of seconds, halves away from zero, nothing for what is not positive
    L want = s > 0 ? floorl(L(s) + 0.5L) : 0, got = L(vt - V0) / 1e9L;
    CHECK(!bad, "wait(%.9g) made an invalid sleep request (%s)", s, h.c_str());
    CHECK(got >= want, "wait(%.9g) returned after %.12Lg s, before the %.12Lg s had passed (sleeps: %s)", s, got, want, h.c_str());
    CHECK(got <= want + 0.01L + want * 1e-9L, "wait(%.9g) returned after %.12Lg s instead of %.12Lg s (sleeps: %s)", s, got, want, h.c_str());
}
void mc::define() {
    static std::vector<float> S;
    for (int i = -80; i <= 800; i++) S.push_back(float(i) / 8);
    for (int i = 0; i <= 70; i++) { float h = float(i) + 0.5f; S.push_back(std::nextafterf(h, -1e9f)); S.push_back(std::nextafterf(h, 1e9f)); S.push_back(std::nextafterf(float(i), -1e9f)); S.push_back(std::nextafterf(float(i), 1e9f)); S.push_back(-h); }
    for (int k = 7; k < 31; k++) for (float d: {0.0f, 1.0f, 0.5f, 0.25f, 0.75f}) { S.push_back(std::ldexp(1.0f, k) + d); S.push_back(-std::ldexp(1.0f, k) - d); }
    for (float f: {1e-30f, -1e-30f, 0.1f, 0.49f, 0.51f, 3600.0f, 86400.0f, 604800.0f, 1e6f, 1e7f, 1e8f, 1e9f, 2e9f, 2147483520.0f, -1e-3f, -0.0f, -0.49f, -0.51f, -1e9f, -2147483648.0f}) S.push_back(f);
    static VD fine; for (double x = 0; x < (g_thorough ? 4000 : 400); x += 1.0 / 64) fine.push_back(x);
    domain("durations", "durations -10..100 in eighths, every half second and its neighbours, powers of two and round values up to 2e9, no interruption", S.size(), [](u64 i, Ctx& c) { one(S[i], {}, c); });
    domain("fine durations", "durations in 64ths of a second", fine.size(), [](u64 i, Ctx& c) { one(float(fine[i]), {}, c); });
    static const int D = g_thorough ? 5 : 3; static std::vector<float> T = {0.5f, 1.0f, 1.5f, 2.0f, 7.0f, 59.6f, 3600.0f, 86400.0f, 1e6f, 0.2f, -3.0f, 2e9f}; u64 n = 1; for (int k = 0; k < D; k++) n *= 6;
    domain("interruptions", "12 durations x all sequences of 3 (5) sleep outcomes out of 6", n * T.size(), [](u64 i, Ctx& c) { Dec x(i); float t = x.pick(T); std::vector<int> p; for (int k = 0; k < D; k++) p.push_back(int(x.take(6))); one(t, p, c); });
    static std::vector<float> all(S); domain("one interruption", "all durations x one interrupted sleep of every kind, after 0..2 complete ones", all.size() * 15, [](u64 i, Ctx& c) { Dec x(i); float t = x.pick(all); int k = int(x.take(5)) + 1, m = int(x.take(3)); std::vector<int> p(size_t(m), 0); p.push_back(k); one(t, p, c); });
    domain("many interruptions", "up to 200 interruptions in a row of every kind", 200 * 5 * 4, [](u64 i, Ctx& c) { Dec x(i); int k = int(x.take(5)) + 1; static const float U[] = {1, 2.4f, 10, 100}; float t = U[x.take(4)]; one(t, std::vector<int>(size_t(x.take(200)) + 1, k), c); });
}
