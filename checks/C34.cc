// Observing stations: the list by number, the lookup by (partial) identifier, the answer when there is none; version.
#include "alpha.h"
#include "slalib.h"
#include <climits>
#include <set>
using namespace mc;
struct St { const char *id, *name; int sl; L d, m, s; int sb; L bd, bm, bs; double h; };
static const St T[] = {
#include "obs_table.inc"
};
static const int NT = int(sizeof T / sizeof *T);
static sla::Observatory dirty(int k) { sla::Observatory o{}; o.o_id = k ? "old" : nullptr; o.o_name = k ? "older" : nullptr; o.o_long = k ? NAN : 1; o.o_lat = k ? 7 : NAN; o.o_height = k ? -1e300 : NAN; return o; }
static const char* nz(const char* s) { return s ? s : "(null)"; }
static void expect(int n, const char* id, int e, Ctx& c) {
    c.say("obs(%d,\"%s\")", n, nz(id));
    for (int k = 0; k < 2; k++) {
        char copy[64]; if (id) snprintf(copy, sizeof copy, "%s", id);
        sla::Observatory o = dirty(k); bool r = sla::obs(n, id, o); N(1);
        if (id) CHECK(!strcmp(copy, id), "obs(%d,\"%s\") changed its identifier argument", n, copy);
        if (e < 0) {
            CHECK(!r, "obs(%d,\"%s\") found %s, but there is no such station", n, nz(id), nz(o.o_id));
            if (!r) CHECK(!strcmp(nz(o.o_id), "?") && !strcmp(nz(o.o_name), "?") && o.o_long == 0 && o.o_lat == 0 && o.o_height == 0, "obs(%d,\"%s\") returned false with id \"%s\" name \"%s\" position %.17g %.17g %.17g instead of ? and zeros", n, nz(id), nz(o.o_id), nz(o.o_name), o.o_long, o.o_lat, o.o_height);
            continue;
        }
        const St& t = T[e]; L as = PI_L / 180 / 3600;
        L lo = t.sl * (t.d * 3600 + t.m * 60 + t.s) * as, la = t.sb * (t.bd * 3600 + t.bm * 60 + t.bs) * as;
        CHECK(r, "obs(%d,\"%s\") found nothing, expected %s", n, nz(id), t.id);
        if (!r) continue;
        CHECK(!strcmp(nz(o.o_id), t.id), "obs(%d,\"%s\") gave station \"%s\", expected \"%s\"", n, nz(id), nz(o.o_id), t.id);
        CHECK(!strcmp(nz(o.o_name), t.name), "obs(%d,\"%s\") gave the name \"%s\", expected \"%s\"", n, nz(id), nz(o.o_name), t.name);
        CHECK(near(o.o_long, lo, 3e-15L) && near(o.o_lat, la, 2e-15L) && o.o_height == t.h, "obs(%d,\"%s\") = %s at west longitude %.17g latitude %.17g height %.17g, expected %.17Lg %.17Lg %.17g", n, nz(id), t.id, o.o_long, o.o_lat, o.o_height, lo, la, t.h);
    }
}
static int find(const std::string& s) { for (int i = 0; i < NT; i++) if (std::string(T[i].id).compare(0, s.size(), s) == 0) return i; return -1; }
void mc::define() {
    static std::vector<int> NUM; for (int i = 0; i <= 1200; i++) NUM.push_back(i);
    for (int k = 11; k < 31; k++) for (int d: {-1, 0, 1, 5, 80}) NUM.push_back((1 << k) + d);
    for (int d = 0; d < 4; d++) NUM.push_back(INT_MAX - d);
    static std::vector<const char*> IGN = {nullptr, "", "AAT", "ZZZ", "NANTEN2", "?"};
    domain("by number", "station numbers 0..1200 and around every power of two up to the largest, every kind of ignored identifier", NUM.size() * IGN.size(), [](u64 i, Ctx& c) { Dec d(i); int n = d.pick(NUM); expect(n, d.pick(IGN), n < NT ? n : -1, c); });
    static std::set<char> AL = {'*', ' ', '?', '_', '/', '0', 'a', 'l', 'z', '\x7f', char(0xC1)}; for (auto& t: T) for (const char* p = t.id; *p; p++) AL.insert(*p);
    static std::vector<char> A(AL.begin(), AL.end());
    static std::vector<std::string> S; std::set<std::string> seen = {""};
    for (auto& t: T) {
        std::string s = t.id;
        for (size_t k = 0; k <= s.size(); k++) {
            std::string p = s.substr(0, k); seen.insert(p);
            for (char ch: A) { seen.insert(p + ch); if (k < s.size()) { std::string q = s; q[k] = ch; seen.insert(q); seen.insert(p + ch + s.substr(k)); } }
            if (k < s.size()) seen.insert(s.substr(0, k) + s.substr(k + 1));
            std::string low = p; for (char& ch: low) ch = char(tolower(ch)); seen.insert(low);
        }
        seen.insert(s + s); seen.insert(t.name); seen.insert(s + "          "); seen.insert("          " + s);
    }
    S.assign(seen.begin(), seen.end());
    static std::vector<int> NEG = {-1, -2, -85, -86, INT_MIN, INT_MIN + 1};
    domain("by identifier", "every prefix of every identifier, each with every character replaced, inserted, appended or removed; lower case; negative numbers", S.size() * NEG.size(), [](u64 i, Ctx& c) { Dec d(i); const std::string& s = d.pick(S); expect(d.pick(NEG), s.c_str(), find(s), c); });
    static int LEN = g_thorough ? 5 : 3; u64 n = 1; for (int k = 0; k < LEN; k++) n *= A.size();
    domain("all short identifiers", "every string of up to three (thorough: five) characters over the characters in use", n, [](u64 i, Ctx& c) { std::string s; Dec d(i); for (int k = 0; k < LEN; k++) { char ch = d.pick(A); if (ch == '*') break; s += ch; } expect(-1, s.c_str(), find(s), c); });
    domain("no identifier", "null identifier, every negative number", NEG.size(), [](u64 i, Ctx& c) { expect(NEG[i], nullptr, -1, c); });
    domain("enumeration", "the documented loop over 0, 1, 2 ... meets each station once and ends", 1, [](u64, Ctx& c) {
        std::set<std::string> ids; int n = 0; sla::Observatory o{}; for (; n < 10000 && sla::obs(n, "", o); n++) { ids.insert(nz(o.o_id)); sla::Observatory q{}; CHECK(sla::obs(-1, o.o_id, q) && !strcmp(q.o_id, T[find(o.o_id)].id), "station %d is not found by its own identifier", n); N(2); }
        CHECK(n == NT && int(ids.size()) == NT, "the list of stations has %d entries, %d different, expected %d", n, int(ids.size()), NT);
    });
    domain("version", "the package version, as number and as text", 1, [](u64, Ctx& c) {
        int v = sla::veri(); const char* s = sla::vers(); N(2); char t[40]; snprintf(t, sizeof t, "%d.%d-%d", v / 1000000, v / 1000 % 1000, v % 1000);
        CHECK(v == 2005007, "veri() = %d, expected 2005007", v); CHECK(s && !strcmp(s, "2.5-7") && !strcmp(s, t), "vers() = \"%s\", expected \"2.5-7\" as in veri()", nz(s));
    });
}
