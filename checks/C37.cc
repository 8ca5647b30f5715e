// VARIANT: threads
// Concurrent calls.  The library is compiled with memory-access instrumentation whose callbacks are implemented here: two
// threads run under a controlled scheduler, every access they make is recorded with a happens-before clock, and every
// schedule that differs in the order of dependent events is executed.
#include "ops.h"
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <unordered_map>
using namespace mc;
typedef std::vector<unsigned char> Bytes;
#define NI extern "C" __attribute__((noinline))
// ---- controlled scheduler ---------------------------------------------------------------------------------------------
static const int NT = 2;
static std::atomic<int> turn{-1}, done_mask{0}; // whose turn it is; which threads have finished
static thread_local int me = -1; static thread_local bool inside = false; static thread_local char* stk_lo = nullptr; static thread_local char* stk_hi = nullptr;
static std::vector<int> plan; static size_t pos = 0; static std::vector<int> taken; static std::vector<int> width; // choices: scripted prefix, then default 0 (stay)
static u64 n_access = 0, n_sync = 0; static char race[300]; static int blocked[NT];
static u64 vc[NT][NT]; static std::map<uintptr_t, std::array<u64, NT>> lockvc;
struct Sh { u64 w[NT], r[NT]; };
static std::unordered_map<uintptr_t, Sh>* shadow;
static thread_local Out* cur = nullptr; // the current call's arguments
static void fut(std::atomic<int>* a, int op, int v) { syscall(SYS_futex, (int*) a, op, v, nullptr, nullptr, 0); }
static void give(int t) { turn.store(t); fut(&turn, FUTEX_WAKE, 10); }
static void await() { for (;;) { int v = turn.load(); if (v == me) return; fut(&turn, FUTEX_WAIT, v); } }
// a scheduling point: pick who runs next among the threads that can
static void sched_point(bool can_stay) {
    int other = 1 - me; bool can_switch = !(done_mask.load() & (1 << other)) && !blocked[other];
    if (!can_switch) { if (!can_stay) { snprintf(race, sizeof race, "deadlock"); _exit(7); } return; }
    int c = 0;
    if (can_stay) { int w = 2; if (pos < plan.size()) c = plan[pos]; width.push_back(w); taken.push_back(c); pos++; }
    if (!can_stay || c) { give(other); await(); }
}
static void hb_acquire(uintptr_t a) { auto& l = lockvc[a]; for (int t = 0; t < NT; t++) vc[me][t] = std::max(vc[me][t], l[size_t(t)]); }
static void hb_release(uintptr_t a) { auto& l = lockvc[a]; for (int t = 0; t < NT; t++) l[size_t(t)] = std::max(l[size_t(t)], vc[me][t]); vc[me][me]++; }
static void access(const volatile void* p, size_t n, bool write) {
    if (me < 0 || !inside) return;
    char* a = (char*) p; if (a >= stk_lo && a < stk_hi) return; // the thread's own stack
    inside = false; n_access++;
    if (write && cur) for (auto& q: cur->r) if (q.kind == 1 && a < (char*) cur->at(q) + q.len && a + n > (char*) cur->at(q) && !race[0]) // not even temporarily
        snprintf(race, sizeof race, "a constant input argument is written during the call");
    for (size_t k = 0; k < n; k++) {
        Sh& s = (*shadow)[uintptr_t(a) + k]; int o = 1 - me;
        bool conflict = s.w[o] > vc[me][o] || (write && s.r[o] > vc[me][o]);
        if (conflict && !race[0]) snprintf(race, sizeof race, "both threads access the same memory without synchronisation, at least one of them writing");
        (write ? s.w : s.r)[me] = vc[me][me];
    }
    inside = true;
}
static void sync_op(uintptr_t a, bool acq, bool rel) { if (me < 0 || !inside) return; inside = false; n_sync++; sched_point(true); if (acq) hb_acquire(a); if (rel) hb_release(a); inside = true; }
static void sync_reset(uintptr_t a) { if (me < 0 || !inside) return; inside = false; lockvc[a] = {}; inside = true; }
// ---- instrumentation runtime ------------------------------------------------------------------------------------------
NI void __tsan_init() {}
NI void __tsan_func_entry(void*) {}
NI void __tsan_func_exit() {}
#define RW(n) NI void __tsan_read##n(void* a) { access(a, n, false); } NI void __tsan_write##n(void* a) { access(a, n, true); } \
    NI void __tsan_volatile_read##n(void* a) { access(a, n, false); } NI void __tsan_volatile_write##n(void* a) { access(a, n, true); } \
    NI void __tsan_unaligned_read##n(void* a) { access(a, n, false); } NI void __tsan_unaligned_write##n(void* a) { access(a, n, true); } NI void __tsan_unaligned_volatile_read##n(void* a) { access(a, n, false); } NI void __tsan_unaligned_volatile_write##n(void* a) { access(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
NI void __tsan_read_range(void* a, size_t n) { access(a, n, false); }
NI void __tsan_write_range(void* a, size_t n) { access(a, n, true); }
NI void* __tsan_memcpy(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return memcpy(d, s, n); }
NI void* __tsan_memmove(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return memmove(d, s, n); }
NI void* __tsan_memset(void* d, int v, size_t n) { access(d, n, true); return memset(d, v, n); }
NI void __tsan_vptr_update(void** a, void*) { access(a, 8, true); }
NI void __tsan_vptr_read(void** a) { access(a, 8, false); }
// memory orders: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst; a relaxed operation orders nothing
static bool acq(int o) { return o == 1 || o == 2 || o >= 4; }
static bool rel(int o) { return o >= 3; }
#define RMW(n, T, name, expr) NI T __tsan_atomic##n##_##name(volatile T* a, T v, int o) { sync_op(uintptr_t(a), acq(o), rel(o)); return expr; }
#define AT(n, T) \
    NI T __tsan_atomic##n##_load(const volatile T* a, int o) { sync_op(uintptr_t(a), acq(o), false); return __atomic_load_n(a, 5); } \
    NI void __tsan_atomic##n##_store(volatile T* a, T v, int o) { sync_op(uintptr_t(a), false, rel(o)); if (!rel(o)) sync_reset(uintptr_t(a)); __atomic_store_n(a, v, 5); } \
    RMW(n, T, exchange, __atomic_exchange_n(a, v, 5)) RMW(n, T, fetch_add, __atomic_fetch_add(a, v, 5)) RMW(n, T, fetch_sub, __atomic_fetch_sub(a, v, 5)) \
    RMW(n, T, fetch_and, __atomic_fetch_and(a, v, 5)) RMW(n, T, fetch_or, __atomic_fetch_or(a, v, 5)) RMW(n, T, fetch_xor, __atomic_fetch_xor(a, v, 5)) RMW(n, T, fetch_nand, __atomic_fetch_nand(a, v, 5)) \
    NI int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int o, int) { sync_op(uintptr_t(a), acq(o), rel(o)); return __atomic_compare_exchange_n(a, c, v, false, 5, 5); } \
    NI int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int o, int) { sync_op(uintptr_t(a), acq(o), rel(o)); return __atomic_compare_exchange_n(a, c, v, false, 5, 5); } \
    NI T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T c, T v, int o, int) { sync_op(uintptr_t(a), acq(o), rel(o)); __atomic_compare_exchange_n(a, &c, v, false, 5, 5); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
NI void __tsan_atomic_thread_fence(int) {}
NI void __tsan_atomic_signal_fence(int) {}
// initialisation of function-local statics
static std::map<uintptr_t, int> guard_owner;
namespace __cxxabiv1 {
extern "C" int __cxa_guard_acquire(uint64_t* g) {
    auto b = (volatile unsigned char*) g;
    if (me < 0) return b[0] ? 0 : 1;
    bool was = inside; inside = false; n_sync++; if (was) sched_point(true);
    for (;;) {
        if (b[0]) { hb_acquire(uintptr_t(g)); inside = was; return 0; }
        auto it = guard_owner.find(uintptr_t(g));
        if (it == guard_owner.end()) { guard_owner[uintptr_t(g)] = me; hb_acquire(uintptr_t(g)); inside = was; return 1; }
        blocked[me] = 1; sched_point(false); blocked[me] = 0; // wait for the initialising thread
    }
}
extern "C" void __cxa_guard_release(uint64_t* g) {
    *(volatile unsigned char*) g = 1; if (me < 0) return;
    bool was = inside; inside = false; n_sync++; guard_owner.erase(uintptr_t(g)); hb_release(uintptr_t(g)); for (int t = 0; t < NT; t++) blocked[t] = 0; if (was) sched_point(true); inside = was;
}
extern "C" void __cxa_guard_abort(uint64_t* g) { if (me >= 0) { guard_owner.erase(uintptr_t(g)); for (int t = 0; t < NT; t++) blocked[t] = 0; } }
}
// mutexes
static std::map<uintptr_t, int>* mtx_owner;
static bool lock_mutex(void* m) {
    if (me < 0 || !inside) return false;
    inside = false; n_sync++; sched_point(true);
    while (mtx_owner->count(uintptr_t(m))) { blocked[me] = 1; sched_point(false); blocked[me] = 0; }
    (*mtx_owner)[uintptr_t(m)] = me; hb_acquire(uintptr_t(m)); inside = true; return true;
}
static bool unlock_mutex(void* m) {
    if (me < 0 || !inside) return false;
    inside = false; n_sync++; mtx_owner->erase(uintptr_t(m)); hb_release(uintptr_t(m)); for (int t = 0; t < NT; t++) blocked[t] = 0; sched_point(true); inside = true; return true;
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) { lock_mutex(m); return 0; }     // outside the library only one thread ever runs
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) { unlock_mutex(m); return 0; }
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (me < 0 || !inside) return 0;
    inside = false; n_sync++; sched_point(true); if (mtx_owner->count(uintptr_t(m))) { inside = true; return EBUSY; }
    (*mtx_owner)[uintptr_t(m)] = me; hb_acquire(uintptr_t(m)); inside = true; return 0;
}
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t* m) { lock_mutex(m); return 0; } // readers exclude each other too: fewer schedules, no new behaviours
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t* m) { lock_mutex(m); return 0; }
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t* m) { unlock_mutex(m); return 0; }
extern "C" int pthread_once(pthread_once_t* o, void (*f)()) {
    volatile int* st = (volatile int*) o; // 0 not run, 1 running, 2 done
    if (me < 0 || !inside) { if (!*st) { *st = 2; f(); } return 0; }
    inside = false; n_sync++; sched_point(true);
    while (*st == 1) { blocked[me] = 1; sched_point(false); blocked[me] = 0; }
    hb_acquire(uintptr_t(o)); if (*st == 2) { inside = true; return 0; }
    *st = 1; inside = true; f(); inside = false; *st = 2; hb_release(uintptr_t(o)); for (int t = 0; t < NT; t++) blocked[t] = 0; sched_point(true); inside = true; return 0;
}
// heap blocks: freeing is a write access; a newly allocated block has no history, whichever thread used the memory before
#include <malloc.h>
extern "C" void* __libc_malloc(size_t); extern "C" void __libc_free(void*); extern "C" void* __libc_calloc(size_t, size_t); extern "C" void* __libc_realloc(void*, size_t);
static void fresh_block(void* p) { if (me < 0 || !inside || !p) return; inside = false; size_t n = malloc_usable_size(p); for (size_t k = 0; k < n; k++) shadow->erase(uintptr_t(p) + k); inside = true; }
extern "C" void* malloc(size_t n) { void* p = __libc_malloc(n); fresh_block(p); return p; }
extern "C" void* calloc(size_t n, size_t m) { void* p = __libc_calloc(n, m); fresh_block(p); return p; }
extern "C" void free(void* p) { if (p && me >= 0 && inside) { access(p, malloc_usable_size(p), true); fresh_block(p); } __libc_free(p); }
extern "C" void* realloc(void* p, size_t n) { if (p && me >= 0 && inside) { access(p, malloc_usable_size(p), true); fresh_block(p); } void* q = __libc_realloc(p, n); fresh_block(q); return q; }
// C library functions with hidden shared state
static char hidden[8];
#define HID(decl, k, body) extern "C" decl { access(&hidden[k], 1, true); body; }
static unsigned hidden_rng = 1; static unsigned hidden_next() { return hidden_rng = (hidden_rng * 1103515245u + 12345u) & 0x7FFFFFFF; }
HID(int rand(), 0, return int(hidden_next())) HID(void srand(unsigned s), 0, hidden_rng = s) HID(long random(), 1, return hidden_next()) HID(void srandom(unsigned s), 1, hidden_rng = s) HID(double drand48(), 2, return hidden_next() / 2147483648.0) HID(void srand48(long s), 2, hidden_rng = unsigned(s))
// ---- exploration ------------------------------------------------------------------------------------------------------
struct Prog { std::vector<Step> s; };
static std::vector<Op> ops2; // all_ops plus the two generators
static std::vector<Step> steps; static std::vector<std::vector<size_t>> by_op;
static Bytes run_step(const Step& s, Out& o) { o.clear(); ops2[size_t(s.op)].run(s.x.data(), o); return o.result(); }
struct Th { int id; std::vector<Step> prog; std::vector<Bytes> res; Out out; };
static void* body(void* p) {
    Th& t = *(Th*) p; me = t.id; pthread_attr_t at; void* lo; size_t sz; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); stk_lo = (char*) lo; stk_hi = stk_lo + sz; pthread_attr_destroy(&at);
    await();
    for (auto& s: t.prog) { Bytes b; { t.out.clear(); cur = &t.out; inside = true; ops2[size_t(s.op)].run(s.x.data(), t.out); inside = false; b = t.out.result(); } t.res.push_back(b); if (!t.out.inputs_kept() && !race[0]) snprintf(race, sizeof race, "an input argument was modified"); }
    done_mask.fetch_or(1 << me); int other = 1 - me; if (!(done_mask.load() & (1 << other))) give(other);
    return nullptr;
}
struct Report { int status; u64 acc, syn; char race[300]; int nw; int w[64], c[64]; };
static void put(int fd, const void* p, size_t n) { const char* q = (const char*) p; while (n) { ssize_t k = write(fd, q, n); if (k <= 0) _exit(9); q += k; n -= size_t(k); } }
static bool get(int fd, void* p, size_t n) { char* q = (char*) p; while (n) { ssize_t k = read(fd, q, n); if (k <= 0) return false; q += k; n -= size_t(k); } return true; }
// one execution in a fresh process: thread `first` starts; the plan scripts the scheduling choices
static bool execute(const std::vector<Step> (&prog)[NT], int first, const std::vector<int>& pl, Report& rep, std::vector<Bytes> (&res)[NT]) {
    int fd[2]; if (pipe(fd)) abort();
    pid_t p = fork();
    if (!p) {
        close(fd[0]); alarm(20); plan = pl; shadow = new std::unordered_map<uintptr_t, Sh>(); shadow->reserve(1 << 14); mtx_owner = new std::map<uintptr_t, int>();
        for (int t = 0; t < NT; t++) for (int u = 0; u < NT; u++) vc[t][u] = t == u;
        static Th th[NT]; pthread_t id[NT]; turn = -1;
        for (int t = 0; t < NT; t++) { th[t].id = t; th[t].prog = prog[t]; pthread_create(&id[t], nullptr, body, &th[t]); }
        give(first); for (int t = 0; t < NT; t++) pthread_join(id[t], nullptr);
        Report r{}; r.acc = n_access; r.syn = n_sync; memcpy(r.race, race, sizeof race); r.nw = int(std::min<size_t>(width.size(), 64)); for (int k = 0; k < r.nw; k++) { r.w[k] = width[size_t(k)]; r.c[k] = taken[size_t(k)]; }
        put(fd[1], &r, sizeof r); for (auto& t: th) for (auto& b: t.res) { size_t n = b.size(); put(fd[1], &n, sizeof n); put(fd[1], b.data(), n); }
        _exit(0);
    }
    close(fd[1]); bool ok = get(fd[0], &rep, sizeof rep);
    for (int t = 0; t < NT && ok; t++) { res[t].clear(); for (size_t k = 0; k < prog[t].size() && ok; k++) { size_t n = 0; ok = get(fd[0], &n, sizeof n) && n < 100000; Bytes b(n); ok = ok && get(fd[0], b.data(), n); res[t].push_back(b); } }
    close(fd[0]); int w; waitpid(p, &w, 0);
    return ok && WIFEXITED(w) && WEXITSTATUS(w) == 0;
}
static std::string text(const std::vector<Step>& v) { std::string t; for (auto& s: v) { t += ops2[size_t(s.op)].name; t += "("; for (size_t i = 0; i < s.x.size(); i++) { char b[32]; snprintf(b, sizeof b, "%s%.17g", i ? "," : "", s.x[i]); t += b; } t += ");"; } return t; }
// results of the thread's calls when it is the only thread of a fresh process
static std::map<std::string, std::vector<Bytes>> alone_cache;
static const std::vector<Bytes>& alone(const std::vector<Step>& v) {
    std::string k = text(v); auto it = alone_cache.find(k); if (it != alone_cache.end()) return it->second;
    int fd[2]; if (pipe(fd)) abort(); pid_t p = fork();
    if (!p) { close(fd[0]); Out o; for (auto& s: v) { Bytes b = run_step(s, o); size_t n = b.size(); put(fd[1], &n, sizeof n); put(fd[1], b.data(), n); } _exit(0); }
    close(fd[1]); std::vector<Bytes> r; for (size_t i = 0; i < v.size(); i++) { size_t n = 0; if (!get(fd[0], &n, sizeof n)) break; Bytes b(n); get(fd[0], b.data(), n); r.push_back(b); } close(fd[0]); int w; waitpid(p, &w, 0);
    return alone_cache[k] = r;
}
static void explore(const std::vector<Step> (&prog)[NT], int bound, Ctx& c) {
    std::string a = text(prog[0]), b = text(prog[1]); c.say("thread 1: %s  thread 2: %s", a.c_str(), b.c_str());
    for (int first = 0; first < NT; first++) {
        std::vector<std::vector<int>> todo = {{}}; u64 n = 0;
        while (!todo.empty() && n < 3000) {
            std::vector<int> pl = todo.back(); todo.pop_back(); n++;
            Report r{}; std::vector<Bytes> res[NT]; bool ok = execute(prog, first, pl, r, res); N(prog[0].size() + prog[1].size());
            CHECK(ok, "threads {%s} and {%s}: a schedule does not complete", a.c_str(), b.c_str()); if (!ok) return;
            CHECK(!r.race[0], "threads {%s} and {%s}: %s", a.c_str(), b.c_str(), r.race); if (r.race[0]) return;
            for (int t = 0; t < NT; t++) CHECK(res[t] == alone(prog[t]), "threads {%s} and {%s}: thread %d gets a different result than when it runs alone", a.c_str(), b.c_str(), t + 1);
            if (c.failed) return;
            // alternatives at every scheduling point after the scripted prefix, within the preemption bound
            int used = 0; for (int x: pl) used += x;
            if (used < bound) for (int k = int(pl.size()); k < r.nw; k++) { std::vector<int> q(r.c, r.c + k); q.push_back(1); todo.push_back(q); }
        }
    }
}
static Step mk(int op, std::vector<double> x) { return {op, x}; }
void mc::define() {
    ops2 = all_ops(); int nb = int(ops2.size());
    ops2.push_back({"random", "a", [](const double* x, Out& o) { o.ret(sla::random(float(x[0]))); }}); ops2.push_back({"gresid", "f", [](const double* x, Out& o) { o.ret(sla::gresid(float(x[0]))); }});
    steps = all_steps(g_thorough ? 3 : 1); by_op.resize(size_t(nb)); for (size_t i = 0; i < steps.size(); i++) by_op[size_t(steps[i].op)].push_back(i);
    static const int RND = nb, GRS = nb + 1; static const u64 no = u64(nb);
    domain("function pairs", "every unordered pair of API functions, one call per thread, both orders; all schedules of dependent events", no * (no + 1) / 2, [](u64 i, Ctx& c) {
        u64 a = 0, k = i; while (k >= no - a) { k -= no - a; a++; } u64 b = a + k;
        std::vector<Step> p[NT] = {{steps[by_op[a][0]]}, {steps[by_op[b][by_op[b].size() > 1 ? 1 : 0]]}}; explore(p, 2, c); });
    static std::vector<std::pair<size_t, size_t>> same; for (auto& g: by_op) for (size_t x: g) for (size_t y: g) same.push_back({x, y});
    domain("same function", "every function against itself: all pairs of argument variations, two calls per thread", same.size(), [](u64 i, Ctx& c) { auto q = same[i]; std::vector<Step> p[NT] = {{steps[q.first], steps[q.second]}, {steps[q.second], steps[q.first]}}; explore(p, 2, c); });
    static std::vector<Step> every = all_steps();
    domain("each branch", "every step of every function against itself and against the function's base step", every.size() * 2, [](u64 i, Ctx& c) { Dec x(i); bool base = x.take(2); const Step& s = every[x.take(every.size())]; std::vector<Step> p[NT] = {{s}, {base ? steps[by_op[size_t(s.op)][0]] : s}}; explore(p, 2, c); });
    static std::vector<Step> spread = lattice_steps(g_thorough ? 1000 : 120);
    domain("spread", "every function over a lattice through the ranges of all its arguments at once, each point against itself and against the function's base step", spread.size() * 2, [](u64 i, Ctx& c) { Dec x(i); bool base = x.take(2); const Step& s = spread[x.take(spread.size())]; std::vector<Step> p[NT] = {{s}, {base ? steps[by_op[size_t(s.op)][0]] : s}}; explore(p, 2, c); });
    static const std::vector<std::vector<int>> seqs = [] { std::vector<std::vector<int>> v; for (int n = 1; n <= 3; n++) for (int m = 0; m < (n == 1 ? 4 : n == 2 ? 16 : 64); m++) { std::vector<int> s; int k = m; for (int j = 0; j < n; j++, k /= 4) s.push_back(k % 4); v.push_back(s); } return v; }();
    static auto prog = [](const std::vector<int>& s) { std::vector<Step> p; for (int k: s) p.push_back(k == 0 ? mk(RND, {1}) : k == 1 ? mk(RND, {2.5}) : k == 2 ? mk(GRS, {1}) : mk(GRS, {0.5})); return p; };
    domain("generators", "both threads drawing from the two generators: all sequences up to three calls each over four operations", u64(seqs.size()) * seqs.size(), [](u64 i, Ctx& c) { Dec x(i); const auto& s = seqs[x.take(seqs.size())]; const auto& t = seqs[x.take(seqs.size())]; std::vector<Step> p[NT] = {prog(s), prog(t)}; explore(p, 2, c); });
    domain("generators against the rest", "each generator in one thread, each other function in the other", no * 2, [](u64 i, Ctx& c) { Dec x(i); int g = int(x.take(2)); std::vector<Step> p[NT] = {g ? prog({2, 3, 2}) : prog({0, 1, 0}), {steps[by_op[x.take(no)][0]]}}; explore(p, 2, c); });
}
