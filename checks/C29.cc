// Combination and permutation generators: complete cycles and every operation history.
#include <map>
#include "alpha.h"
#include "slalib.h"
using namespace mc;
static void comb_cycle(int k, int n, int start, Ctx& c) {
    c.say("choose %d of %d, start marker %d", k, n, start);
    int l[260]; for (int j = 0; j < k + 2 && j < 260; j++) l[j] = 7777; l[k + 1] = 7777; l[1] = start; int* p = l + 1; u64 want = 1; for (int i = 1; i <= k; i++) want = want * (n - k + i) / i;
    std::vector<bool> seen(want); // by rank in the combinatorial number system
    auto choose = [](u64 a, u64 b) { if (b > a) return u64(0); u64 r = 1; for (u64 j = 1; j <= std::min(b, a - b); j++) r = r * (a - std::min(b, a - b) + j) / j; return r; };
    static thread_local std::map<std::pair<int, int>, std::vector<u64>> tabs; auto& tab = tabs[{k, n}]; if (tab.empty()) for (int j = 0; j < k; j++) for (int v = 0; v <= n; v++) tab.push_back(choose(v, j + 1));
    for (int round = 0; round < 2; round++) {
        for (u64 t = 0; t < want; t++) {
            sla::CPStatus s = sla::combn(k, n, p); N(1);
            CHECK(s == (round && t == 0 ? sla::CPS_NO_MORE : sla::CPS_OK), "choose %d of %d: call %llu of round %d has status %d", k, n, (unsigned long long) t + 1, round + 1, s);
            CHECK(l[0] == 7777 && l[k + 1] == 7777, "choose %d of %d: wrote outside the list", k, n);
            for (int i = 0; i < k; i++) { CHECK(p[i] >= 1 && p[i] <= n && (i == 0 || p[i] > p[i - 1]), "choose %d of %d: call %llu gives element %d = %d", k, n, (unsigned long long) t + 1, i, p[i]);
                if (t == 0) CHECK(p[i] == i + 1, "choose %d of %d: first combination has element %d = %d", k, n, i, p[i]);
                if (t + 1 == want) CHECK(p[i] == n - k + 1 + i, "choose %d of %d: last combination has element %d = %d", k, n, i, p[i]); }
            u64 r = 0; for (int i = 0; i < k; i++) r += tab[i * (n + 1) + p[i] - 1];
            CHECK(r < want && !seen[r], "choose %d of %d: a combination came twice before the end (call %llu)", k, n, (unsigned long long) t + 1); seen[r] = true;
        }
        std::fill(seen.begin(), seen.end(), false);
    }
}
static void perm_cycle(int n, int start, Ctx& c) {
    c.say("%d items, start marker %d", n, start);
    int st[16], o[16]; for (int i = 0; i < 16; i++) st[i] = o[i] = 7777; st[1] = start; u64 want = 1; for (int i = 2; i <= n; i++) want *= i;
    std::vector<bool> seen(want);
    for (int round = 0; round < 2; round++) {
        std::fill(seen.begin(), seen.end(), false);
        for (u64 t = 0; t < want; t++) {
            sla::CPStatus s = sla::permut(n, st + 1, o + 1); N(1);
            CHECK(s == (round && t == 0 ? sla::CPS_NO_MORE : sla::CPS_OK), "%d items: call %llu of round %d has status %d", n, (unsigned long long) t + 1, round + 1, s);
            CHECK(st[0] == 7777 && o[0] == 7777 && st[n + 1] == 7777 && o[n + 1] == 7777, "%d items: wrote outside the arrays", n);
            u64 r = 0; int used = 0; // rank, and validity as a permutation
            for (int i = 1; i <= n; i++) { CHECK(o[i] >= 1 && o[i] <= n && !(used >> o[i] & 1), "%d items: call %llu is not a permutation", n, (unsigned long long) t + 1); int less = 0; for (int v = 1; v < o[i]; v++) if (!(used >> v & 1)) less++; used |= 1 << o[i]; r = r * (n - i + 1) + less; }
            CHECK(!seen[r], "%d items: a permutation came twice before the end (call %llu)", n, (unsigned long long) t + 1); seen[r] = true;
            for (int i = 1; i <= n; i++) { if (t == 0) CHECK(o[i] == n + 1 - i, "%d items: first permutation has element %d = %d", n, i - 1, o[i]); if (t + 1 == want) CHECK(o[i] == i, "%d items: last permutation has element %d = %d", n, i - 1, o[i]); }
        }
    }
}
void mc::define() {
    static std::vector<std::pair<int,int>> kn; for (int n = 1; n <= (g_thorough ? 20 : 16); n++) for (int k = 1; k <= n; k++) kn.push_back({k, n});
    domain("combinations", "every subset size of every set up to 16 (thorough 20) items: two whole cycles, from each start marker", kn.size() * 3, [](u64 i, Ctx& c) { Dec q(i); auto p = q.pick(kn); static const VI m = {0, -1, INT32_MIN}; comb_cycle(p.first, p.second, q.pick(m), c); });
    domain("permutations", "sets of 1 to 10 (thorough 11) items: two whole cycles, from each start marker", (g_thorough ? 11 : 10) * 3, [](u64 i, Ctx& c) { Dec q(i); static const VI m = {-1, -5, INT32_MIN}; int s = q.pick(m); perm_cycle(int(q.take(20)) + 1, s, c); });
    static std::vector<std::pair<int,int>> big; for (int n = 17; n <= (g_thorough ? 28 : 22); n++) for (int k = 1; k <= n; k++) big.push_back({k, n});
    for (int n: {30, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 150, 200, 250}) for (int k: {1, 2, 3, n - 2, n - 1, n}) if (k < 4 || n <= 100 || k > n - 2) if (k != 3 || n <= 150) big.push_back({k, n});
    domain("large sets", "every subset size of sets of 17 to 22 (thorough 28) items, and the smallest and largest subsets of sets of up to 250: two whole cycles", big.size(), [](u64 i, Ctx& c) { comb_cycle(big[big.size() - 1 - i].first, big[big.size() - 1 - i].second, 0, c); });
    domain("long permutations", "sets of 11 to 20 items: the first 200000 permutations are all different", 10, [](u64 i, Ctx& c) {
        int n = 11 + int(i); c.say("%d items, first 200000", n); std::vector<int> s(n, -1), o(n, 0); std::set<u64> seen;
        for (int t = 0; t < 200000; t++) { CHECK(sla::permut(n, s.data(), o.data()) == sla::CPS_OK, "%d items: call %d does not report success", n, t + 1); N(1); u64 r = 0; unsigned used = 0;
            for (int j = 0; j < n; j++) { CHECK(o[j] >= 1 && o[j] <= n && !(used >> o[j] & 1), "%d items: call %d is not a permutation", n, t + 1); used |= 1u << o[j]; r = r * u64(n - j) + u64(o[j] - 1 - __builtin_popcount(used & ((1u << o[j]) - 1))); }
            CHECK(seen.insert(r).second, "%d items: a permutation came twice (call %d)", n, t + 1); } });
    domain("bad-arguments", "sizes -3..6 and counts -3..6 where invalid, lists untouched", 100, [](u64 i, Ctx& c) { Dec q(i); int k = int(q.take(10)) - 3, n = int(q.take(10)) - 3; c.say("%d of %d", k, n); int l[8] = {0, 5, 6, 7, 8, 9, 1, 2}, m[8]; memcpy(m, l, sizeof l);
        if (k < 1 || n < 1 || k > n) { CHECK(sla::combn(k, n, l) == sla::CPS_INVALID_ARG && !memcmp(l, m, sizeof l), "choose %d of %d not refused, or list changed", k, n); N(1); }
        if (k < 1) { int a[3] = {-1, 4, 5}, b[3] = {6, 7, 8}; CHECK(sla::permut(k, a, b) == sla::CPS_INVALID_ARG && a[0] == -1 && a[1] == 4 && b[0] == 6, "%d items not refused, or arrays changed", k); N(1); } });
    // histories: two generators of different kind and size, interleaved and re-initialised in every order up to a depth
    static const int D = g_thorough ? 11 : 8; static u64 H = 1; for (int i = 0; i < D; i++) H *= 6;
    domain("histories", "all sequences of 8 (thorough 11) operations from {next/reset of a combination, of a second combination, of a permutation}", H, [](u64 i, Ctx& c) {
        Dec q(i); int a[2] = {0, 0}, b[3] = {0, 0, 0}, s[3] = {-1, 0, 0}, o[3] = {0, 0, 0}; int na = -1, nb = -1, np = -1; static std::vector<std::vector<int>> RA, RB, RP;
        if (RA.empty()) { for (int y = 2; y <= 4; y++) for (int x = 1; x < y; x++) RA.push_back({x, y}); for (int z = 3; z <= 4; z++) for (int y = 2; y < z; y++) for (int x = 1; x < y; x++) RB.push_back({x, y, z}); }
        for (int t = 0; t < D; t++) { int op = int(q.take(6));
            if (op == 0) { sla::CPStatus r = sla::combn(2, 4, a); N(1); na++; CHECK(r == (na == 6 ? sla::CPS_NO_MORE : sla::CPS_OK), "history: combination status %d at its call %d", r, na + 1); if (na == 6) na = 0; CHECK(a[0] == RA[na][0] && a[1] == RA[na][1], "history: combination (%d,%d) at its call %d", a[0], a[1], na + 1); }
            if (op == 1) { a[0] = 0; na = -1; }
            if (op == 2) { sla::CPStatus r = sla::combn(3, 4, b); N(1); nb++; CHECK(r == (nb == 4 ? sla::CPS_NO_MORE : sla::CPS_OK), "history: second combination status %d", r); if (nb == 4) nb = 0; CHECK(b[0] == RB[nb][0] && b[1] == RB[nb][1] && b[2] == RB[nb][2], "history: second combination (%d,%d,%d) at its call %d", b[0], b[1], b[2], nb + 1); }
            if (op == 3) { b[0] = -2; nb = -1; }
            if (op == 4) { sla::CPStatus r = sla::permut(3, s, o); N(1); np++; CHECK(r == (np == 6 ? sla::CPS_NO_MORE : sla::CPS_OK), "history: permutation status %d", r); if (np == 6) np = 0; if (np == 0) CHECK(o[0] == 3 && o[1] == 2 && o[2] == 1, "history: first permutation (%d,%d,%d)", o[0], o[1], o[2]); if (np == 5) CHECK(o[0] == 1 && o[1] == 2 && o[2] == 3, "history: last permutation (%d,%d,%d)", o[0], o[1], o[2]); CHECK(o[0] + o[1] + o[2] == 6 && o[0] * o[1] * o[2] == 6, "history: (%d,%d,%d) is not a permutation", o[0], o[1], o[2]); }
            if (op == 5) { s[0] = -1; np = -1; }
        } });
}
