// Bounded exhaustive exploration engine.
//
// A check is a list of Domains.  A Domain is a finite, indexable space of cases (input tuples, operation sequences,
// schedules ...), size known before the run; the engine executes *every* index on the real library code, in forked
// worker processes, and a per-case monitor compares the observed behaviour with an independent reference model.
// Nothing is sampled: the run either covers every index of every domain, or it stops with a violation.
//
// usage: prog --out RESULT.json            explore everything
//        prog --case DOMAIN INDEX          replay one case in a fresh process (exit 1 if the property fails there)
//        prog --history FILE               replay the list of chunks a worker had executed (exit 1 if it fails)
#pragma once
#include <atomic>
#include <cerrno>
#include <cfloat>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>

namespace mc {

typedef long double L;
typedef uint64_t u64;
static const L PI_L = 3.14159265358979323846264338327950288L;
static const double PI = 3.14159265358979323846;

struct Failure { int domain; u64 index; int worker; u64 nchunks; char msg[1000]; };

struct Ctx {
    u64 calls = 0;       // library calls made (transitions)
    u64 checked = 0;     // comparisons of an implementation result with the reference model
    bool failed = false;
    char msg[1000];
    char desc[600];      // the concrete case, for samples and reports
    bool want_desc = false;
    int domain = 0; u64 index = 0;

    void begin(int d, u64 i) { domain = d; index = i; failed = false; msg[0] = 0; desc[0] = 0; }
    __attribute__((format(printf, 2, 3)))
    void fail(const char* fmt, ...) {
        if (failed) return;
        failed = true;
        va_list ap; va_start(ap, fmt); vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
    }
    __attribute__((format(printf, 2, 3)))
    void say(const char* fmt, ...) {
        if (desc[0]) return;
        va_list ap; va_start(ap, fmt); vsnprintf(desc, sizeof desc, fmt, ap); va_end(ap);
    }
};

struct Domain {
    std::string name;    // identifies it in reports
    std::string bounds;  // what the indices range over, in words
    u64 size;
    std::function<void(u64, Ctx&)> run;
};

static std::vector<Domain> g_domains;
static bool g_thorough = false;
static bool g_deep = false;  // set by checks cheap enough to run at full depth on every change; their thorough tier goes further (g_extra)
static bool g_extra = false;
static double g_cost = 1;     // relative cost of one case: divides the sizes of products and lattices

inline void domain(const std::string& name, const std::string& bounds, u64 size, std::function<void(u64, Ctx&)> run) {
    g_domains.push_back({name, bounds, size, run});
}

// mixed-radix decoder
struct Dec {
    u64 i;
    explicit Dec(u64 i): i(i) {}
    u64 take(u64 n) { u64 r = i % n; i /= n; return r; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[take(v.size())]; }
};

void define(); // provided by the check

// ---------------------------------------------------------------------------------------------------------------
struct Shared {
    std::atomic<u64> next;              // next chunk
    std::atomic<int> stop;
    std::atomic<int> nfail;
    Failure fail[64];
    struct W {
        std::atomic<int> domain; std::atomic<u64> index; std::atomic<u64> beat;
        std::atomic<u64> cases, calls, checked; std::atomic<u64> nchunks;
        std::atomic<u64> chunk_pos;     // within current chunk: next index to do
        std::atomic<u64> cur_chunk;     // +1, 0 = none
    } w[64];
    std::atomic<u64> dom_cases[512], dom_calls[512], dom_checked[512];
};
static Shared* g_sh = nullptr;
static u64* g_log = nullptr; // per-worker chunk logs
static const u64 LOGCAP = 1 << 18;
struct Chunk { int d; u64 a, b; };
static std::vector<Chunk> g_chunks;

inline void make_chunks(int jobs) {
    g_chunks.clear();
    for (size_t d = 0; d < g_domains.size(); d++) {
        u64 n = g_domains[d].size;
        u64 c = n / (u64(jobs) * 24) + 1;
        if (c > 200000) c = 200000;
        for (u64 a = 0; a < n; a += c) g_chunks.push_back({int(d), a, std::min(n, a + c)});
    }
}

inline void put_failure(int w, int d, u64 i, const char* msg) {
    int k = g_sh->nfail.fetch_add(1);
    if (k >= 64) { g_sh->nfail = 64; return; }
    Failure& f = g_sh->fail[k];
    f.domain = d; f.index = i; f.worker = w; f.nchunks = g_sh->w[w].nchunks;
    snprintf(f.msg, sizeof f.msg, "%s", msg);
    if (k >= 15) g_sh->stop = 1;
}

inline void run_chunk(int w, const Chunk& c, u64 from, Ctx& ctx) {
    auto& W = g_sh->w[w];
    u64 n0 = 0, calls0 = ctx.calls, chk0 = ctx.checked;
    for (u64 i = from; i < c.b; i++) {
        W.index.store(i, std::memory_order_relaxed);
        W.beat.fetch_add(1, std::memory_order_relaxed);
        ctx.begin(c.d, i);
        g_domains[c.d].run(i, ctx);
        n0++;
        W.chunk_pos.store(i + 1, std::memory_order_relaxed);
        if (ctx.failed) { put_failure(w, c.d, i, ctx.msg); if (g_sh->stop) break; }
    }
    g_sh->dom_cases[c.d] += n0; g_sh->dom_calls[c.d] += ctx.calls - calls0; g_sh->dom_checked[c.d] += ctx.checked - chk0;
}

static int g_worker = -1;
// long single cases report progress with this
inline void alive() { if (g_sh && g_worker >= 0) g_sh->w[g_worker].beat.fetch_add(1, std::memory_order_relaxed); }

inline void worker(int w, bool resume) {
    auto& W = g_sh->w[w]; g_worker = w;
    Ctx ctx;
    if (resume && W.cur_chunk) {
        const Chunk& c = g_chunks[W.cur_chunk - 1];
        u64 from = W.index + 1; // skip the case that killed the previous incarnation
        W.domain = c.d;
        run_chunk(w, c, from, ctx);
        W.cur_chunk = 0;
    }
    while (!g_sh->stop) {
        u64 k = g_sh->next.fetch_add(1);
        if (k >= g_chunks.size()) break;
        const Chunk& c = g_chunks[k];
        W.domain = c.d; W.cur_chunk = k + 1; W.chunk_pos = c.a; W.index = c.a;
        u64 n = W.nchunks.load();
        if (n < LOGCAP) g_log[w * LOGCAP + n] = k;
        W.nchunks = n + 1;
        run_chunk(w, c, c.a, ctx);
        W.cur_chunk = 0;
    }
}

inline std::string jesc(const char* s) {
    std::string o;
    for (; *s; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

inline double now() { timespec t; syscall(228 /*clock_gettime*/, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline int run_all(const char* out, int jobs) {
    double t0 = now();
    make_chunks(jobs);
    g_sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_log = (u64*) mmap(nullptr, sizeof(u64) * LOGCAP * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    std::vector<pid_t> pid(jobs, 0);
    std::vector<u64> beat(jobs, 0);
    std::vector<double> since(jobs, t0);
    std::vector<int> deaths(jobs, 0);
    auto spawn = [&](int w, bool resume) {
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) { worker(w, resume); fflush(nullptr); _exit(0); }
        pid[w] = p; since[w] = now(); beat[w] = g_sh->w[w].beat;
    };
    for (int w = 0; w < jobs; w++) spawn(w, false);
    int live = jobs;
    while (live > 0) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            int w = std::find(pid.begin(), pid.end(), p) - pid.begin();
            if (w == jobs) continue;
            pid[w] = 0;
            if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
                char m[200];
                snprintf(m, sizeof m, "the library call did not return normally: process ended with %s %d%s",
                    WIFSIGNALED(st) ? "signal" : "exit status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st),
                    deaths[w] < 0 ? " (no progress for a minute)" : "");
                put_failure(w, g_sh->w[w].domain, g_sh->w[w].index, m);
                if (deaths[w] < 0) { deaths[w] = -deaths[w]; g_sh->stop = 1; }
                if (++deaths[w] < 4 && !g_sh->stop) spawn(w, true); else { live--; g_sh->stop = 1; }
            } else live--;
            continue;
        }
        usleep(5000);
        double t = now();
        for (int w = 0; w < jobs; w++) if (pid[w]) {
            u64 b = g_sh->w[w].beat;
            if (b != beat[w]) { beat[w] = b; since[w] = t; }
            else if (t - since[w] > 60) { deaths[w] = -(deaths[w] + 1); since[w] = t + 1e9; kill(pid[w], SIGKILL); }
        }
    }
    bool complete = g_sh->next >= g_chunks.size() && !g_sh->stop;
    std::vector<Failure> fs;
    for (int k = 0; k < std::min<int>(g_sh->nfail, 64); k++) fs.push_back(g_sh->fail[k]);
    std::sort(fs.begin(), fs.end(), [](const Failure& a, const Failure& b) {
        return a.domain != b.domain ? a.domain < b.domain : a.index < b.index; });
    FILE* f = fopen(out, "w");
    if (!f) { perror(out); return 2; }
    fprintf(f, "{\"complete\": %s, \"wall\": %.3f, \"domains\": [", complete ? "true" : "false", now() - t0);
    Ctx ctx; ctx.want_desc = true;
    for (size_t d = 0; d < g_domains.size(); d++) {
        fprintf(f, "%s\n {\"name\": \"%s\", \"bounds\": \"%s\", \"size\": %llu, \"covered\": %llu, \"calls\": %llu, \"checked\": %llu}",
            d ? "," : "", jesc(g_domains[d].name.c_str()).c_str(), jesc(g_domains[d].bounds.c_str()).c_str(),
            (unsigned long long) g_domains[d].size, (unsigned long long) g_sh->dom_cases[d],
            (unsigned long long) g_sh->dom_calls[d], (unsigned long long) g_sh->dom_checked[d]);
    }
    fprintf(f, "],\n \"samples\": [");
    bool first = true;
    if (fs.empty()) for (size_t d = 0; d < g_domains.size() && d < 40; d++) {
        if (!g_domains[d].size) continue;
        u64 i = g_domains[d].size / 3;
        ctx.begin(int(d), i); g_domains[d].run(i, ctx);
        if (!ctx.desc[0]) continue;
        fprintf(f, "%s\n  \"%s[%llu]: %s\"", first ? "" : ",", jesc(g_domains[d].name.c_str()).c_str(), (unsigned long long) i, jesc(ctx.desc).c_str());
        first = false;
    }
    fprintf(f, "],\n \"failures\": [");
    for (size_t k = 0; k < fs.size(); k++) {
        fprintf(f, "%s\n  {\"domain\": \"%s\", \"index\": %llu, \"msg\": \"%s\", \"history\": [", k ? "," : "",
            jesc(g_domains[fs[k].domain].name.c_str()).c_str(), (unsigned long long) fs[k].index, jesc(fs[k].msg).c_str());
        for (u64 j = 0; j < fs[k].nchunks && j < LOGCAP && k < 3; j++) {
            const Chunk& c = g_chunks[g_log[fs[k].worker * LOGCAP + j]];
            fprintf(f, "%s[%d,%llu,%llu]", j ? "," : "", c.d, (unsigned long long) c.a, (unsigned long long) c.b);
        }
        fprintf(f, "]}");
    }
    fprintf(f, "]}\n");
    fclose(f);
    return 0;
}

} // mc

int main(int argc, char** argv) {
    using namespace mc;
    const char* tier = getenv("VERIF_TIER");
    g_thorough = tier && !strcmp(tier, "thorough");
    g_extra = g_thorough && g_deep; g_thorough = g_thorough || g_deep;
    rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    define();
    if (g_domains.size() > 512) { fprintf(stderr, "too many domains\n"); return 2; }
    if (argc >= 4 && !strcmp(argv[1], "--case")) {
        for (size_t d = 0; d < g_domains.size(); d++) if (g_domains[d].name == argv[2]) {
            Ctx ctx; ctx.begin(int(d), strtoull(argv[3], nullptr, 10));
            g_domains[d].run(ctx.index, ctx);
            printf("case %s[%s] %s\n", argv[2], argv[3], ctx.desc);
            if (ctx.failed) { printf("FAILS: %s\n", ctx.msg); return 1; }
            printf("holds\n"); return 0;
        }
        fprintf(stderr, "no such domain\n"); return 2;
    }
    if (argc >= 3 && !strcmp(argv[1], "--history")) { // lines: domain-number from to
        FILE* f = fopen(argv[2], "r"); if (!f) return 2;
        int d; unsigned long long a, b; Ctx ctx;
        while (fscanf(f, "%d %llu %llu", &d, &a, &b) == 3) for (u64 i = a; i < b; i++) {
            ctx.begin(d, i); g_domains[d].run(i, ctx);
            if (ctx.failed) { printf("FAILS at %s[%llu]: %s\n", g_domains[d].name.c_str(), (unsigned long long) i, ctx.msg); return 1; }
        }
        printf("holds\n"); return 0;
    }
    const char* out = argc >= 3 && !strcmp(argv[1], "--out") ? argv[2] : "/dev/stdout";
    const char* j = getenv("VERIF_JOBS");
    int jobs = j ? atoi(j) : int(sysconf(_SC_NPROCESSORS_ONLN));
    if (jobs < 1) jobs = 1; if (jobs > 16) jobs = 16;
    return run_all(out, jobs);
}
