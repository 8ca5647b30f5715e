// One operation per API function, with a small explicit alphabet per argument: the transition alphabet of the checks
// that explore call histories, buffers and threads.  No expected values here: an operation maps arguments to the bytes
// the library returned.
#pragma once
#include <set>
#include "alpha.h"
#include "slalib.h"
namespace mc {
struct Out {
    struct R { size_t off, len; int kind; }; // 0 output, 1 constant input, 2 output compared by the operation itself
    unsigned char fill = 0xA5; std::vector<R> r; std::vector<unsigned char> copy;
#ifdef __SANITIZE_ADDRESS__
    std::vector<unsigned char*> own; // exact-size heap blocks: the sanitizer sees every access outside them
    ~Out() { clear(); }
    void clear() { for (auto p: own) free(p); own.clear(); r.clear(); copy.clear(); }
    unsigned char* region(size_t len, int kind) { auto p = (unsigned char*) malloc(len); own.push_back(p); memset(p, fill, len); r.push_back({own.size() - 1, len, kind}); return p; }
    const unsigned char* at(const R& q) const { return own[q.off]; }
#else
    alignas(16) unsigned char buf[16384]; size_t n = 0;
    void clear() { n = 0; r.clear(); copy.clear(); }
    unsigned char* region(size_t len, int kind) { // 32 canary bytes on both sides
        size_t off = n + 32, end = off + (len + 15) / 16 * 16; if (end + 64 > sizeof buf) abort();
        memset(buf + n, fill, end + 32 - n); n = end; r.push_back({off, len, kind}); return buf + off;
    }
    const unsigned char* at(const R& q) const { return buf + q.off; }
#endif
    template<class T> T* out(int cnt = 1) { return (T*) region(sizeof(T) * size_t(cnt), 0); }
    template<class T> T& hid() { return *(T*) region(sizeof(T), 2); } // padding and unspecified members: not compared as bytes
    template<class T> T& o() { return *out<T>(); }
    template<class T> T* inout(const std::vector<T>& v) { T* p = out<T>(int(v.size())); if (v.size()) memcpy(p, v.data(), sizeof(T) * v.size()); return p; }
    template<class T> const T* in(const std::vector<T>& v) { T* p = (T*) region(sizeof(T) * v.size(), 1); if (v.size()) memcpy(p, v.data(), sizeof(T) * v.size()); copy.insert(copy.end(), (unsigned char*) p, (unsigned char*) (p + v.size())); return p; }
    template<class T> void ret(T v) { *out<T>() = v; }
    void str(const char* s) { size_t k = strlen(s); char* p = out<char>(int(k) + 1); memcpy(p, s, k + 1); }
    std::vector<unsigned char> result() const { std::vector<unsigned char> v; for (auto& q: r) if (!q.kind) v.insert(v.end(), at(q), at(q) + q.len); return v; }
    bool inputs_kept() const { size_t c = 0; for (auto& q: r) if (q.kind == 1) { if (memcmp(at(q), copy.data() + c, q.len)) return false; c += q.len; } return true; }
    bool canaries() const {
#ifndef __SANITIZE_ADDRESS__
        size_t p = 0; for (auto& q: r) { for (size_t k = p; k < q.off; k++) if (buf[k] != fill) return false; p = q.off + q.len; }
        for (size_t k = p; k < n + 32; k++) if (buf[k] != fill) return false;
#endif
        return true;
    }
};
struct Op { const char* name; const char* kinds; std::function<void(const double*, Out&)> run; };
inline VD kind_values(char k) {
    switch (k) {
        case 'a': return {0.7, -2.3, 4.1, 0.0, 0.70000001, 1.2, 100.5, 3.141592653589793, -0.7};
        case 'b': return {0.6, -1.1, 1.5707963, 0.0, 0.60000001, 0.61, 0.2, -0.6};
        case 'm': return {51544.5, 51544.75, 51545.5, 40000.0, 60123.456, 51544.500001, 40000.3, 42999.9, 15020.0};
        case 'U': { VD v = {51544.5, 51544.75, 41499, 41498.999, 20000}; for (double d: {57754., 57204., 56109., 54832., 53736., 51179., 50630., 50083., 49534., 49169., 48804., 48257., 47892., 47161., 46247., 45516., 45151., 44786., 44239., 43874., 43509., 43144., 42778., 42413., 42048., 41683., 41499., 41317., 39887., 39126., 39004., 38942., 38820., 38761., 38639., 38486., 38395., 38334., 37665., 37512., 37300.}) v.push_back(d + 3); return v; }
        case 'D': return {1900, 1600, 500, 1000, 947.9, 1708.1, 2024};
        case 'e': return {2000, 1950, 1984.5, 1984.50001, 2024.25, 1900};
        case 'v': return {0.3, -0.4, 2.5, 0.0, 0.30000001, -1e3};
        case 'u': return {0.25, 0.0, 0.5, 0.750001};
        case 'y': return {1987, 2000, 1900, 2023, 4, 67, -5000, -4699, 2024};
        case 'o': return {2, 1, 6, 12, 0, 13};
        case 'd': return {28, 1, 29, 30, 31, 32, 0};
        case 'j': return {1, 60, 200, 365, 366};
        case 'n': return {3, 0, -2, 1, 6, 9, -7};
        case 'h': return {12, 0, 23, 24, -1, 359, 360};
        case 'i': return {30, 0, 59, 60, -1};
        case 's': return {30.5, 0.0, 59.9999, 60.0, -0.5};
        case 'z': return {0.9, 0.1, 1.0, 1.5, 1.6, 0.0};
        case 't': return {280.0, 290.0, 260.5};
        case 'p': return {1000.0, 700.0, 1013.25};
        case 'r': return {0.5, 0.0, 0.9};
        case 'w': return {0.55, 0.45, 150.0, 1e6};
        case 'H': return {100.0, 2000.0, 4000.5, 0.0};
        case 'T': return {0.0065, 0.005};
        case 'E': return {1e-8, 1e-9, 1e-5};
        case 'x': return {0.01, -0.02, 0.5, 0.0, 1.2, 3.0};
        case 'c': return {178.585, 0.00383, -0.5, 0.0};
        case 'q': return {6e-5, 2e-4, 0.0};
        case 'Q': return {-7e-8, -1e-7, 0.0};
        case 'k': return {0, 1, 2, 3, 4, 5};
        case 'l': return {3, 1, 2, 4};
        case 'g': return {0.001, 0.0, -0.002};
        case 'f': return {1.0, 2.0, 0.3, 1e-3};
    }
    abort();
}
inline std::vector<double> mat_of(double a, double b, double c) { M3 m = rot(2, a) * rot(1, b) * rot(0, c); std::vector<double> v; for (auto& r: m.m) for (L x: r) v.push_back(double(x)); return v; }
inline std::vector<float> tofl(const std::vector<double>& v) { return std::vector<float>(v.begin(), v.end()); }
inline std::vector<double> sysmat(int n, double k) { if (k == 100.5) return std::vector<double>(size_t(n * n), 0.0); if (k == 0) { std::vector<double> v; for (int i = 0; i < n * n; i++) v.push_back(n == 1 ? 0 : 1); return v; } std::vector<double> v; for (int i = 0; i < n * n; i++) v.push_back(cos(i * 1.7 + k * 0.37) + (i % (n + 1) == 0 ? 1.5 : 0)); return v; }
inline std::vector<double> ramp(int n, double k) { std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(sin(i * 2.3 + k) + 0.1 * i); return v; }
inline const std::vector<Op>& all_ops() {
    using namespace sla;
    static std::vector<Op> v;
    if (!v.empty()) return v;
#define OP(n, k, ...) v.push_back({n, k, [](const double* x, Out& o) { __VA_ARGS__; }});
#define F(i) float(x[i])
#define I(i) int(x[i])
#define SF(i) (*o.in<Spherical<float>>({{float(x[i]), float(x[i + 1])}}))
#define SD(i) (*o.in<Spherical<double>>({{x[i], x[i + 1]}}))
#define VFi(i) o.in<float>({float(x[i]), float(x[i + 1]), float(x[i + 2])})
#define VDi(i) o.in<double>({x[i], x[i + 1], x[i + 2]})
#define MFi(i) ((const float (*)[3]) o.in<float>(tofl(mat_of(x[i], x[i + 1], x[i + 2]))))
#define MDi(i) ((const double (*)[3]) o.in<double>(mat_of(x[i], x[i + 1], x[i + 2])))
#define VFo o.out<float>(3)
#define VDo o.out<double>(3)
#define MFo ((float (*)[3]) o.out<float>(9))
#define MDo ((double (*)[3]) o.out<double>(9))
#define Fo o.o<float>()
#define Do o.o<double>()
#define Io o.o<int>()
#define Bo o.o<bool>()
#define SFo o.o<Spherical<float>>()
#define SDo o.o<Spherical<double>>()
#define R(e) o.ret(e)
    OP("airmas", "z", R(airmas(x[0])))
    OP("range", "a", R(range(F(0)))) OP("drange", "a", R(drange(x[0]))) OP("ranorm", "a", R(ranorm(F(0)))) OP("dranrm", "a", R(dranrm(x[0])))
    OP("av2m", "vvv", av2m(VFi(0), MFo)) OP("dav2m", "vvv", dav2m(VDi(0), MDo))
    OP("cc2s", "vvv", cc2s(VFi(0), SFo)) OP("dcc2s", "vvv", dcc2s(VDi(0), SDo)) OP("cs2c", "ab", cs2c(SF(0), VFo)) OP("dcs2c", "ab", dcs2c(SD(0), VDo))
    static const char* ORD[] = {"XYZ", "ZYZ", "zxz", "Y", "", "3 1XZY"};
    OP("euler", "kaaa", euler(ORD[I(0)], F(1), F(2), F(3), MFo)) OP("deuler", "kaaa", deuler(ORD[I(0)], x[1], x[2], x[3], MDo))
    OP("imxv", "abavvv", imxv(MFi(0), VFi(3), VFo)) OP("dimxv", "abavvv", dimxv(MDi(0), VDi(3), VDo)) OP("mxv", "abavvv", mxv(MFi(0), VFi(3), VFo)) OP("dmxv", "abavvv", dmxv(MDi(0), VDi(3), VDo))
    OP("m2av", "aba", m2av(MFi(0), VFo)) OP("dm2av", "aba", dm2av(MDi(0), VDo)) OP("mxm", "abaaba", mxm(MFi(0), MFi(3), MFo)) OP("dmxm", "abaaba", dmxm(MDi(0), MDi(3), MDo))
    OP("vdv", "vvvvvv", R(vdv(VFi(0), VFi(3)))) OP("dvdv", "vvvvvv", R(dvdv(VDi(0), VDi(3)))) OP("vn", "vvv", R(vn(VFi(0), VFo))) OP("dvn", "vvv", R(dvn(VDi(0), VDo))) OP("vxv", "vvvvvv", vxv(VFi(0), VFi(3), VFo)) OP("dvxv", "vvvvvv", dvxv(VDi(0), VDi(3), VDo))
    OP("zd", "abb", R(zd(SD(0), x[2]))) OP("pa", "abb", R(pa(SD(0), x[2]))) OP("bear", "abab", R(bear(SF(0), SF(2)))) OP("dbear", "abab", R(dbear(SD(0), SD(2)))) OP("pav", "vvvvvv", R(pav(VFi(0), VFi(3)))) OP("dpav", "vvvvvv", R(dpav(VDi(0), VDi(3))))
    OP("e2h", "abb", e2h(SF(0), F(2), Fo, Fo)) OP("de2h", "abb", de2h(SD(0), x[2], Do, Do)) OP("h2e", "abb", h2e(F(0), F(1), F(2), SFo)) OP("dh2e", "abb", dh2e(x[0], x[1], x[2], SDo))
    OP("caf2r", "his", R(int(caf2r(I(0), I(1), F(2), Fo)))) OP("daf2r", "his", R(int(daf2r(I(0), I(1), x[2], Do))))
    OP("cldj", "yod", R(int(cldj(I(0), I(1), I(2), Do)))) OP("caldj", "yod", R(int(caldj(I(0), I(1), I(2), Do)))) OP("clyd", "yod", R(int(clyd(I(0), I(1), I(2), Io, Io)))) OP("calyd", "yod", R(int(calyd(I(0), I(1), I(2), Io, Io))))
    OP("djcal", "nm", Date& q = o.hid<Date>(); bool b = djcal(I(0), x[1], q); R(b); if (b) { R(q.d_year); R(q.d_month); R(q.d_day); R(q.d_ifraction); }) OP("djcl", "m", Date& q = o.hid<Date>(); bool b = djcl(x[0], q); R(b); if (b) { R(q.d_year); R(q.d_month); R(q.d_day); R(q.d_fraction); })
    OP("cd2tf", "nu", ConversionResult& q = o.hid<ConversionResult>(); cd2tf(I(0), F(1), q); o.ret(q.get_hours()); o.ret(q.get_minutes()); o.ret(q.get_seconds()); o.ret(q.get_fraction()); o.ret(q.get_sign())) OP("dd2tf", "nu", ConversionResult& q = o.hid<ConversionResult>(); dd2tf(I(0), x[1], q); o.ret(q.get_hours()); o.ret(q.get_minutes()); o.ret(q.get_seconds()); o.ret(q.get_fraction()); o.ret(q.get_sign())) OP("cr2af", "na", ConversionResult& q = o.hid<ConversionResult>(); cr2af(I(0), F(1), q); o.ret(q.get_hours()); o.ret(q.get_minutes()); o.ret(q.get_seconds()); o.ret(q.get_fraction()); o.ret(q.get_sign())) OP("dr2af", "na", ConversionResult& q = o.hid<ConversionResult>(); dr2af(I(0), x[1], q); o.ret(q.get_hours()); o.ret(q.get_minutes()); o.ret(q.get_seconds()); o.ret(q.get_fraction()); o.ret(q.get_sign())) OP("cr2tf", "na", ConversionResult& q = o.hid<ConversionResult>(); cr2tf(I(0), F(1), q); o.ret(q.get_hours()); o.ret(q.get_minutes()); o.ret(q.get_seconds()); o.ret(q.get_fraction()); o.ret(q.get_sign())) OP("dr2tf", "na", ConversionResult& q = o.hid<ConversionResult>(); dr2tf(I(0), x[1], q); o.ret(q.get_hours()); o.ret(q.get_minutes()); o.ret(q.get_seconds()); o.ret(q.get_fraction()); o.ret(q.get_sign()))
    OP("ctf2d", "his", R(int(ctf2d(I(0), I(1), F(2), Fo)))) OP("dtf2d", "his", R(int(dtf2d(I(0), I(1), x[2], Do)))) OP("ctf2r", "his", R(int(ctf2r(I(0), I(1), F(2), Fo)))) OP("dtf2r", "his", R(int(dtf2r(I(0), I(1), x[2], Do))))
    OP("dat", "U", R(dat(x[0]))) OP("dt", "D", R(dt(x[0]))) OP("dtt", "U", R(dtt(x[0]))) OP("rcc", "muavv", R(rcc(x[0], x[1], x[2], 5000 * x[3], 3000 * x[4]))) OP("gmst", "m", R(gmst(x[0]))) OP("gmsta", "mu", R(gmsta(floor(x[0]), x[1])))
    OP("atmdsp", "tprwqQw", atmdsp(x[0], x[1], x[2], x[3], x[4], x[5], x[6], Do, Do)) OP("refcoq", "tprw", refcoq(x[0], x[1], x[2], x[3], Do, Do)) OP("refro", "zHtprwbTE", R(refro(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8]))) OP("refco", "HtprwbTE", refco(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], Do, Do))
    OP("refv", "abqQ", double p[3] = {cos(x[0]) * cos(x[1]), sin(x[0]) * cos(x[1]), sin(x[1])}; refv(o.in<double>({p[0], p[1], p[2]}), x[2], x[3], VDo)) OP("refz", "zqQ", R(refz(x[0], x[1], x[2])))
    OP("ecmat", "m", ecmat(x[0], MDo))
    OP("dmat", "la", int n = I(0); auto a = sysmat(n, x[1]); double* p = o.inout<double>(a); double* q = o.inout<double>(ramp(n, x[1])); R(dmat(n, p, q, Do, o.out<int>(n))))
    OP("smat", "la", int n = I(0); auto a = tofl(sysmat(n, x[1])); float* p = o.inout<float>(a); float* q = o.inout<float>(tofl(ramp(n, x[1]))); R(smat(n, p, q, Fo, o.out<int>(n))))
    OP("svd", "la", int n = I(0); int m = n + 1; auto a = ramp(m * n, x[1]); if (x[1] == 100.5) for (double& e: a) e = 0; if (x[1] == 0) for (int i = 0; i < m * n; i++) a[size_t(i)] = i / n == i % n && i % n != n / 2; if (x[1] == 4.1) for (int i = 0; i < m * n; i++) a[size_t(i)] = i / n <= i % n && i % (n + 1) != 0; double* p = o.inout<double>(a); R(svd(m, n, m, n, p, o.out<double>(n), o.out<double>(n * n), o.out<double>(n))))
    OP("svdsol", "la", int n = I(0); int m = n + 1; svdsol(m, n, m, n, o.in<double>(ramp(m, x[1])), o.in<double>(ramp(m * n, x[1] + 1)), o.in<double>(ramp(n, x[1] + 2)), o.in<double>(ramp(n * n, x[1] + 3)), o.out<double>(n), o.out<double>(n)))
    OP("svdcov", "la", int n = I(0); svdcov(n, n, n, o.in<double>(ramp(n, x[1] + 2)), o.in<double>(ramp(n * n, x[1] + 3)), o.out<double>(n), o.out<double>(n * n)))
    OP("altaz", "abb", altaz(SD(0), x[2], o.o<AltazMount>()))
    OP("nutc", "m", nutc(x[0], Do, Do, Do)) OP("nut", "m", nut(x[0], MDo)) OP("nutc80", "m", nutc80(x[0], Do, Do, Do))
    OP("epj2d", "e", R(epj2d(x[0]))) OP("epj", "m", R(epj(x[0]))) OP("epb2d", "e", R(epb2d(x[0]))) OP("epb", "m", R(epb(x[0]))) OP("epco", "kke", R(epco("BJbjX?"[I(0)], "BJbjX?"[I(1)], x[2])))
    OP("prec", "ee", prec(x[0], x[1], MDo)) OP("precl", "ee", precl(x[0], x[1], MDo)) OP("prenut", "em", prenut(x[0], x[1], MDo))
    OP("dsepv", "vvvvvv", R(dsepv(VDi(0), VDi(3)))) OP("sepv", "vvvvvv", R(sepv(VFi(0), VFi(3)))) OP("dsep", "abab", R(dsep(SD(0), SD(2)))) OP("sep", "abab", R(sep(SF(0), SF(2))))
    OP("prebn", "ee", prebn(x[0], x[1], MDo)) OP("preces", "keeab", Spherical<double>* p = o.inout<Spherical<double>>({{x[3], x[4]}}); preces(Catalogue(I(0)), x[1], x[2], *p)) OP("supgal", "ab", supgal(SD(0), SDo))
    OP("rverot", "baba", R(rverot(F(0), SF(1), F(3)))) OP("rvgalc", "ab", R(rvgalc(SF(0)))) OP("rvlg", "ab", R(rvlg(SF(0)))) OP("rvlsrd", "ab", R(rvlsrd(SF(0)))) OP("rvlsrk", "ab", R(rvlsrk(SF(0))))
    OP("cc62s", "vvvvvv", cc62s(*o.in<VectorPV<float>>({VectorPV<float>({F(0), F(1), F(2)}, {F(3), F(4), F(5)})}), o.o<SphericalPV<float>>())) OP("dc62s", "vvvvvv", dc62s(*o.in<VectorPV<double>>({VectorPV<double>({x[0], x[1], x[2]}, {x[3], x[4], x[5]})}), o.o<SphericalPV<double>>()))
    OP("cs2c6", "abfvvv", cs2c6(*o.in<SphericalPV<float>>({SphericalPV<float>({{F(0), F(1)}, F(2)}, {{F(3), F(4)}, F(5)})}), o.o<VectorPV<float>>())) OP("ds2c6", "abfvvv", ds2c6(*o.in<SphericalPV<double>>({SphericalPV<double>({{x[0], x[1]}, x[2]}, {{x[3], x[4]}, x[5]})}), o.o<VectorPV<double>>()))
    OP("etrms", "e", etrms(x[0], VDo)) OP("addet", "abe", addet(SD(0), x[2], SDo)) OP("subet", "abe", subet(SD(0), x[2], SDo)) OP("geoc", "bH", geoc(x[0], x[1], Do, Do)) OP("pvobs", "bHa", pvobs(x[0], x[1], x[2], o.o<VectorPV<double>>()))
    OP("pcd", "cxx", double* p = o.inout<double>({x[1]}); double* q = o.inout<double>({x[2]}); pcd(x[0], *p, *q)) OP("unpcd", "cxx", double* p = o.inout<double>({x[1]}); double* q = o.inout<double>({x[2]}); unpcd(x[0], *p, *q))
    OP("eqeqx", "m", R(eqeqx(x[0]))) OP("eqecl", "abm", eqecl(SD(0), x[2], SDo)) OP("ecleq", "abm", ecleq(SD(0), x[2], SDo)) OP("eqgal", "ab", eqgal(SD(0), SDo)) OP("galeq", "ab", galeq(SD(0), SDo)) OP("galsup", "ab", galsup(SD(0), SDo)) OP("eg50", "ab", eg50(SD(0), SDo)) OP("ge50", "ab", ge50(SD(0), SDo))
#define XY(n, k) ((const double (*)[2]) o.in<double>(ramp(2 * (n), k)))
    OP("fitxy4", "la", int n = I(0); auto e = ramp(2 * n, x[1]); if (x[1] == 4.1) for (int i = 0; i < n; i++) e[size_t(2 * i)] *= -1; if (x[1] == 100.5) for (double& w: e) w = 1; R(int(fitxy(true, n, (const double (*)[2]) o.in<double>(e), XY(n, x[1] + (x[1] == 4.1 ? 0 : 0.5)), o.o<FitCoeffs>())))) OP("fitxy6", "la", int n = I(0) + 1; R(int(fitxy(false, n, XY(n, x[1]), XY(n, x[1] + 0.5), o.o<FitCoeffs>()))))
#define FC(k) ([&]() -> const FitCoeffs& { return *(const FitCoeffs*) o.in<double>((k) == 100.5 ? std::vector<double>{0.1, 1, 2, -0.3, 2, 4} : (k) == 4.1 ? std::vector<double>{0.1, -1, 0.1, -0.3, 0.1, 1} : std::vector<double>{0.1, 1.0 + (k) * 0.01, 0.02, -0.3, 0.03 * (k), 0.9}); }())
    OP("xy2xy", "vva", xy2xy(x[0], x[1], FC(x[2]), Do, Do)) OP("pxy", "la", int n = I(0); pxy(n, XY(n, x[1]), XY(n, x[1] + 0.5), FC(x[1]), (double (*)[2]) o.out<double>(2 * n), Do, Do, Do)) OP("invf", "a", R(invf(FC(x[0]), o.o<FitCoeffs>()))) OP("dcmpf", "a", dcmpf(FC(x[0]), Do, Do, Do, Do, Do, Do))
    OP("pm", "abggfvee", pm(SD(0), SD(2), 0.1 * x[4], 10 * x[5], x[6], x[7], SDo))
    OP("earth", "yju", earth(I(0), I(1), F(2), o.o<VectorPV<float>>())) OP("ecor", "abyju", ecor({F(0), F(1)}, I(2), I(3), F(4), Fo, Fo)) OP("polmo", "abgg", polmo(x[0], x[1], x[2], x[3], Do, Do, Do))
    OP("s2tp", "abab", R(int(s2tp(SF(0), SF(2), Fo, Fo)))) OP("ds2tp", "abab", R(int(ds2tp(SD(0), SD(2), Do, Do)))) OP("tp2s", "xxab", tp2s(F(0), F(1), SF(2), SFo)) OP("dtp2s", "xxab", dtp2s(x[0], x[1], SD(2), SDo)) OP("tps2c", "xxab", R(tps2c(F(0), F(1), SF(2), SFo, SFo))) OP("dtps2c", "xxab", R(dtps2c(x[0], x[1], SD(2), SDo, SDo)))
#define CB(i) (fabs(x[i]) == 1.5707963267948966 ? 0.0 : cos(x[i]))
#define UD(i) o.in<double>({cos(x[i]) * CB(i + 1), sin(x[i]) * CB(i + 1), sin(x[i + 1])})
#define UF(i) o.in<float>({float(cos(x[i]) * CB(i + 1)), float(sin(x[i]) * CB(i + 1)), float(sin(x[i + 1]))})
    OP("tp2v", "xxab", tp2v(F(0), F(1), UF(2), VFo)) OP("dtp2v", "xxab", dtp2v(x[0], x[1], UD(2), VDo)) OP("v2tp", "abab", R(int(v2tp(UF(0), UF(2), Fo, Fo)))) OP("dv2tp", "abab", R(int(dv2tp(UD(0), UD(2), Do, Do)))) OP("tpv2c", "xxab", R(tpv2c(F(0), F(1), UF(2), VFo, VFo))) OP("dtpv2c", "xxab", R(dtpv2c(x[0], x[1], UD(2), VDo, VDo)))
    OP("combn", "lk", int s = I(0); int* p = o.inout<int>(std::vector<int>(size_t(s), 0)); if (x[1] > 0) { for (int i = 0; i < s; i++) p[i] = x[1] == 2 ? i + 3 : x[1] == 3 ? s - i : x[1] == 4 ? 0 : i + 1; } R(int(combn(x[1] == 5 ? 0 : s, s + 2, p))))
    OP("permut", "lk", int n = I(0); int* p = o.inout<int>([&] { std::vector<int> s(size_t(n), 0); if (x[1] == 0) s[0] = -1; else if (x[1] == 2) for (int i = 0; i < n; i++) s[size_t(i)] = i; return s; }()); R(int(permut(x[1] == 3 ? 0 : n, p, o.out<int>(n)))))
    OP("evp", "me", evp(x[0], x[1], VDo, VDo, VDo, VDo)) OP("evp0", "m", evp(x[0], 0, VDo, VDo, VDo, VDo)) OP("epv", "m", epv(x[0], VDo, VDo, VDo, VDo))
    OP("pdq2h", "bba", pdq2h(x[0], x[1], x[2], Do, Bo, Do, Bo)) OP("pda2h", "bba", pda2h(x[0], x[1], x[2], Do, Bo, Do, Bo))
    OP("veri", "", R(veri())) OP("vers", "", o.str(vers())) OP("moon", "yju", moon(I(0), I(1), F(2), o.o<VectorPV<float>>())) OP("dmoon", "m", dmoon(x[0], o.o<VectorPV<double>>()))
    static const char* IDS[] = {"AAT", "LPO", "", "ZZZ", nullptr, "KECK2"};
    OP("obs", "kk", Observatory b{}; R(obs(I(0) < 3 ? -1 : I(0) == 5 ? 1000 : I(0) * 7, IDS[I(1)], b)); o.str(b.o_id); o.str(b.o_name); R(b.o_long); R(b.o_lat); R(b.o_height))
#undef OP
#undef F
#undef I
#undef R
    return v;
}
// the concrete transitions: per operation the base tuple and every one-argument variation of it
struct Step { int op; std::vector<double> x; };
static const std::vector<std::pair<const char*, std::vector<double>>> extra = {
    {"altaz", {0, 0.6, 0.6}}, {"pa", {0, 0.6, 0.6}}, {"e2h", {0, 0.6, 0.6}}, {"de2h", {0, 0.6, 0.6}}, {"altaz", {0, 1.5707963267948966, 1.5707963267948966}}, {"altaz", {0, 0.5, 0.5}}, {"pa", {0, 0.5, 0.5}}, {"de2h", {0, 0, 0}}, {"e2h", {0, 0, 0}}, {"altaz", {0, 0, 0}}, {"pa", {0, 0, 0}},
    {"atmdsp", {280, 0, 0, 0.55, 6e-5, -7e-8, 0.45}}, {"refcoq", {280, 0, 0, 0.55}}, {"refcoq", {280, 0, 0.5, 0.55}}, {"refcoq", {280, 1000, 0, 150}}, {"refro", {-0.9, 100, 280, 1000, 0.5, 0.55, 0.6, 0.0065, 1e-8}}, {"refro", {1.6, 100, 280, 0, 0, 0.55, 0.6, 0.0065, 1e-8}}, {"refro", {1.2, 20000, 280, 1000, 0.5, 0.55, 0.6, 0.0065, 1e-8}}, {"refro", {1.55, 100, 280, 1000, 0.5, 150, 0.6, 0.0065, 1e-8}},
    {"djcal", {3, 1e10}}, {"djcl", {1e10}}, {"djcal", {3, -2400000}}, {"djcl", {-2400000}}, {"djcal", {3, -0.3}}, {"djcl", {-0.3}}, {"djcal", {3, -0.25}},
    {"m2av", {0, 0, 0}}, {"dm2av", {0, 0, 0}},
    {"s2tp", {0, 0, 3.141592653589793, 0}}, {"ds2tp", {0, 0, 3.141592653589793, 0}}, {"s2tp", {0, 1.5707963267948966, 0, 0}}, {"ds2tp", {0, 1.5707963267948966, 0, 0}}, {"s2tp", {1.5707964, 0, 0, 0}}, {"ds2tp", {1.5707963267949, 0, 0, 0}}, {"s2tp", {1.5707962, 0, 0, 0}}, {"ds2tp", {1.57079632679, 0, 0, 0}}, {"ds2tp", {1.5708, 0, 0, 0}}, {"s2tp", {1.5708, 0, 0, 0}},
    {"v2tp", {0, 0, 3.141592653589793, 0}}, {"dv2tp", {0, 0, 3.141592653589793, 0}}, {"v2tp", {1.5707964, 0, 0, 0}}, {"dv2tp", {1.57079632679, 0, 0, 0}}, {"v2tp", {1.5707962, 0, 0, 0}}, {"dv2tp", {1.5708, 0, 0, 0}}, {"v2tp", {1.5708, 0, 0, 0}}, {"dv2tp", {1.5707963267949, 0, 0, 0}},
    {"v2tp", {0, 1.5, 0, 1.5707963267948966}}, {"dv2tp", {0, 1.5, 0, 1.5707963267948966}}, {"tp2v", {0.01, 0.02, 0, 1.5707963267948966}}, {"dtp2v", {0.01, 0.02, 0, 1.5707963267948966}},
    {"tps2c", {0, 0.5, 0.7, 1.5707963267948966}}, {"dtps2c", {0, 0.5, 0.7, 1.5707963267948966}}, {"tps2c", {0, 0, 0.7, 0}}, {"dtps2c", {0, 0, 0.7, 0}}, {"tpv2c", {0, 0, 0.7, 0}}, {"dtpv2c", {0, 0, 0.7, 0}}, {"tpv2c", {3, 0.01, 0.7, 1.5}}, {"dtpv2c", {3, 0.01, 0.7, 1.5}}, {"tpv2c", {0, 0.5, 0.7, 1.5707963267948966}}, {"dtpv2c", {0, 0.5, 0.7, 1.5707963267948966}}, {"tps2c", {3, 0.01, 0.7, 1.5}}, {"dtps2c", {3, 0.01, 0.7, 1.5}},
    {"pda2h", {1.5707963267948966, 0.6, 1}}, {"pdq2h", {1.5707963267948966, 0.6, 1}}, {"pda2h", {0.6, 1.5707963267948966, 1}}, {"pdq2h", {0.6, 1.5707963267948966, 1}}, {"pda2h", {0.6, 0.5, 0}}, {"pda2h", {0.6, 0.6, 0}}, {"pda2h", {0, 0, 1.5}}, {"pdq2h", {0, 0, 1.5}}, {"pda2h", {0.6, 0.7, 3.141592653589793}}, {"pdq2h", {0.6, 0.7, 3.141592653589793}}, {"pda2h", {0.6, 0.3, 0.5}}, {"pda2h", {0.6, -0.3, 1.5}}, {"pdq2h", {0.6, 0.3, 0.5}},
    {"polmo", {0, 1.5707963267948966, 0, 0}}, {"polmo", {0.7, 1.5707963267948966, 0.001, 0.001}}, {"polmo", {0.7, -1.5707963267948966, 0, 0}},
    {"gmsta", {0.25, 51544.5}}, {"gmsta", {51544.5, 0.25}}, {"epco", {0, 1, 1950}}, {"epco", {1, 0, 2000}}, {"epco", {2, 3, 1950}}, {"epco", {3, 2, 2000}},
    {"unpcd", {-0.5, 0.5, 0.5}}, {"unpcd", {-0.5, 0.3, 0.1}}, {"unpcd", {-0.5, 1.2, 3}}, {"unpcd", {-2, 0.2, 0.2}}, {"unpcd", {-0.1, 1.2, 1.2}}, {"unpcd", {-0.1, 1, 0.5}}, {"unpcd", {-0.001, 10, 10}},
    {"fitxy4", {1, 0.7}}, {"fitxy6", {1, 0.7}}, {"fitxy6", {0, 0.7}}, {"fitxy4", {0, 0.7}},
};
inline std::vector<Step> all_steps(size_t limit = 100, size_t pairs = 0) {
    std::vector<Step> s; auto& v = all_ops();
    for (size_t k = 0; k < v.size(); k++) {
        std::vector<double> base; for (const char* p = v[k].kinds; *p; p++) base.push_back(kind_values(*p)[0]);
        // two arguments of one kind start at different values
        for (size_t i = 0; i < base.size(); i++) for (size_t j = 0; j < i; j++) if (v[k].kinds[i] == v[k].kinds[j]) { VD w = kind_values(v[k].kinds[i]); base[i] = w[std::min(w.size() - 1, size_t(1))]; }
        s.push_back({int(k), base});
        for (size_t i = 0; i < base.size(); i++) { VD w = kind_values(v[k].kinds[i]); size_t n = 0; for (double y: w) if (y != base[i] && n++ < limit) { auto b = base; b[i] = y; s.push_back({int(k), b}); } }
        for (size_t i = 0; i < base.size(); i++) if (!memchr(v[k].kinds, v[k].kinds[i], i)) { // all arguments of one kind at the same value
            if (strrchr(v[k].kinds, v[k].kinds[i]) == v[k].kinds + i) continue;
            for (double y: kind_values(v[k].kinds[i])) { auto b = base; for (size_t j = 0; j < b.size(); j++) if (v[k].kinds[j] == v[k].kinds[i]) b[j] = y; s.push_back({int(k), b}); }
        }
        for (auto& e: extra) if (!strcmp(e.first, v[k].name)) s.push_back({int(k), e.second});
        std::vector<Step> two; // two arguments varied at once, evenly thinned to the limit
        if (pairs) for (size_t i = 0; i < base.size(); i++) for (size_t j = 0; j < i; j++) for (double y: kind_values(v[k].kinds[i])) for (double z: kind_values(v[k].kinds[j])) if (y != base[i] && z != base[j]) { auto b = base; b[i] = y; b[j] = z; two.push_back({int(k), b}); }
        for (size_t i = 0; i < std::min(pairs, two.size()); i++) s.push_back(two[i * two.size() / std::min(pairs, two.size())]);
    }
    return s;
}
// many more calls of each function: every argument on its own generic lattice over its ordinary range (or over its listed values)
inline std::vector<Step> lattice_steps(size_t per) {
    static const std::vector<std::pair<char, std::pair<double, double>>> rg = {{'a', {-3, 6.3}}, {'b', {-1.5, 1.5}}, {'m', {33000, 66000}}, {'U', {37000, 60000}}, {'D', {1600, 2050}}, {'e', {1900, 2100}}, {'v', {-1.5, 1.5}}, {'u', {0, 1}},
        {'s', {0, 59.9}}, {'z', {0, 1.5}}, {'t', {250, 300}}, {'p', {500, 1050}}, {'r', {0, 1}}, {'w', {0.3, 1.5}}, {'H', {0, 4500}}, {'T', {0.004, 0.009}}, {'x', {-1, 1}}, {'c', {-1, 1}}, {'q', {1e-4, 3e-4}}, {'Q', {-4e-7, -5e-8}}, {'g', {-0.003, 0.003}}, {'f', {0.5, 2}}};
    std::vector<Step> s; auto& v = all_ops();
    for (size_t k = 0; k < v.size(); k++) { size_t n = strlen(v[k].kinds); std::set<std::vector<double>> seen; if (n) for (size_t i = 0; i < per; i++) {
        std::vector<double> x(n);
        for (size_t j = 0; j < n; j++) { double t = double(i + 1) * std::sqrt(double(j * j + 2 * j + 2)) * 0.618; t -= std::floor(t); char q = v[k].kinds[j]; VD w = kind_values(q); bool done = false;
            for (auto& r: rg) if (r.first == q) x[j] = r.second.first + t * (r.second.second - r.second.first), done = true;
            if (!done) x[j] = w[size_t(t * double(w.size()))]; }
        if (seen.insert(x).second) s.push_back({int(k), x}); } }
    return s;
}
inline std::string step_text(const Step& s) { std::string t = all_ops()[size_t(s.op)].name; t += "("; for (size_t i = 0; i < s.x.size(); i++) { char b[40]; snprintf(b, sizeof b, "%s%.17g", i ? "," : "", s.x[i]); t += b; } return t + ")"; }
}
