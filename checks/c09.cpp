// C09: ICtCp.
#include "ref.hpp"
using namespace ref;
typedef CS::Tristimulus T3;
static const double PQE = 5e-5; // single-precision PQ accuracy in signal (see C02)
static double pqErr(double l, double e)
{
    const double c = pq_enc(l);
    return std::max(std::fabs(pq_enc(l + e) - c), std::fabs(pq_enc(l - e) - c));
}
static const M3 ITP = {{0.5, 0.5, 0, 6610 / 4096., -13613 / 4096., 7003 / 4096., 17933 / 4096., -17390 / 4096., -543 / 4096.}};
static void fwdTol(const D3 &x, D3 &t, D3 &l)
{
    l = mul(ITP_LMS, x);
    D3 e;
    for (int i = 0; i < 3; i++)
    {
        double a = 0;
        for (int j = 0; j < 3; j++) a += std::fabs(ITP_LMS(i, j) * x[j]);
        e[i] = pqErr(l[i], 8 * mc::EPS * a) + PQE * pq_enc(l[i]) + 1e-7;
    }
    for (int i = 0; i < 3; i++) t[i] = std::fabs(ITP(i, 0)) * e[0] + std::fabs(ITP(i, 1)) * e[1] + std::fabs(ITP(i, 2)) * e[2] + 2e-6;
}
static void chk(mc::Ctx &k, const T3 &c)
{
    const T3 o = CS::XYZ_to_ICtCp(c);
    k.call(); k.outf(o[0], o[1], o[2]);
    D3 t, l;
    const D3 x = d3(c), w = xyz_to_ictcp(x);
    fwdTol(x, t, l);
    if (k.verbose) k.note("XYZ (%.9g, %.9g, %.9g), LMS (%.6g, %.6g, %.6g) -> ICtCp (%.9g, %.9g, %.9g)", c[0], c[1], c[2], l[0], l[1], l[2], o[0], o[1], o[2]);
    static const char *N[3] = {"I", "Ct", "Cp"};
    for (int i = 0; i < 3; i++) k.near(N[i], o[i], w[i], t[i]);
    // outside 0..100 the cone response saturates and is lost
    for (int i = 0; i < 3; i++) if (l[i] < -1e-6 * maxabs(x) || l[i] > 100.0001) return;
    const T3 b = CS::ICtCp_to_XYZ(o);
    k.call();
    if (k.verbose) k.note("back (%.9g, %.9g, %.9g)", b[0], b[1], b[2]);
    // compare in cone space, where PQ noise is relative, then propagate
    D3 el;
    for (int i = 0; i < 3; i++)
    {
        // rounding of the forward codes, plus the five digits of the published inverse matrix
        double a = 0;
        for (int j = 0; j < 3; j++) a += std::fabs(ITP_LMS(i, j) * x[j]);
        const double s = pq_enc(l[i]), ds = 1.2e-4 * s + 2e-6 + 4e-6 * (std::fabs(w[1]) + std::fabs(w[2])) + pqErr(l[i], 8 * mc::EPS * a);
        el[i] = std::fabs(pq_dec(std::min(1.0, s + ds)) - pq_dec(std::max(0.0, s - ds))) + 6e-4 * l[i] + 10 * mc::EPS * maxabs(x);
    }
    static const M3 il = inv(ITP_LMS);
    for (int i = 0; i < 3; i++)
    {
        double tl = 0;
        for (int j = 0; j < 3; j++) tl += std::fabs(il(i, j)) * el[j];
        k.near("round trip XYZ->ICtCp->XYZ", b[i], x[i], tl);
    }
}
void setup(mc::Explorer &ex)
{
    static std::vector<float> V = {0.f, 100.f, 1.f, 99.99f, 1e-5f};
    const int n = ex.thorough ? 150 : 70;
    for (int i = 0; i < n; i++) V.push_back((float)std::exp(std::log(1e-4) + std::log(1e6) * i / (n - 1)));
    for (int i = 1; i < n; i++) V.push_back(100.f * i / n);
    const uint64_t m = V.size();
    static const M3 il = inv(ITP_LMS);
    ex.add("cone-lattice", "XYZ of every cone-response triple of a 0..100 lattice: published value and round trip", m * m * m, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const double a = d.of(V), b = d.of(V), c = d.of(V);
        chk(k, tri(mul(il, D3{{a, b, c}})));
    });
    static std::vector<float> W = {0.f, 1.f, 0.5f, 0.1f, 0.01f, 1e-4f, 10.f, 50.f, 90.f, 105.f, 150.f, 1e3f, 1e6f, 1e20f, 1e30f, -1e-4f, -0.1f, -1.f, -20.f, -1e3f, -1e20f, -1e30f, 2.5f, 0.3f, 33.f};
    for (int i = 0; i < (ex.thorough ? 100 : 40); i++) W.push_back((float)std::exp(std::log(1e-3) + std::log(2e5) * i / 40));
    const uint64_t u = W.size();
    ex.add("xyz-lattice", "every XYZ triple of a lattice with out-of-range colours: saturation and finiteness", u * u * u, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const float a = d.of(W), b = d.of(W), c = d.of(W);
        const T3 o = CS::XYZ_to_ICtCp(T3(a, b, c));
        k.ok(std::isfinite(o[0]) && std::isfinite(o[1]) && std::isfinite(o[2]), "finite result");
        k.ok(o[0] >= -1e-6f && o[0] <= 1.000001f, "intensity in 0..1");
        chk(k, T3(a, b, c));
    });
    static FloatLattice L{-20, 6, ex.thorough ? 20 : 15};
    ex.add("grey", "equal cone responses have Ct = Cp = 0 and PQ intensity", L.n(), [=](mc::Ctx &k, uint64_t i) {
        const double g = L.at(i);
        if (g > 100) return k.skip();
        const T3 c = tri(mul(il, D3{{g, g, g}})), o = CS::XYZ_to_ICtCp(c);
        k.call(); k.outf(o[0], o[1], o[2]);
        const double s = pq_enc(g), e = pqErr(g, 1e-6 * g) + PQE * s + 1e-7;
        if (k.verbose) k.note("cone responses %.9g", g);
        k.near("Ct", o[1], 0, 7 * e); k.near("Cp", o[2], 0, 9 * e); k.near("I", o[0], s, 2 * e);
    });
    static const uint64_t R = 60;
    ex.add("intensity", "intensity grows when a colour is scaled up (all ordered pairs of scales x 60 chromaticities)", R * 200 * 199 / 2, [=](mc::Ctx &k, uint64_t i) {
        const uint64_t ch = i % R, pr = i / R;
        uint64_t q = (uint64_t)((1 + std::sqrt(1.0 + 8.0 * pr)) / 2);
        while (q * (q - 1) / 2 > pr) q--;
        while (q * (q + 1) / 2 <= pr) q++;
        const uint64_t p = pr - q * (q - 1) / 2;
        const double x = 0.2 + 0.03 * (ch % 10), y = 0.2 + 0.05 * (ch / 10);
        auto I = [&](uint64_t s) { const double Y = std::exp(std::log(1e-3) + std::log(4e4) * s / 199.0); return CS::XYZ_to_ICtCp(tri(Yxy_to_xyz(D3{{Y, x, y}}))); };
        const T3 a = I(p), b = I(q);
        k.call(2); k.outf(a[0], b[0]);
        if (k.verbose) k.note("x=%g y=%g: I=%.9g at step %d, %.9g at step %d", x, y, a[0], (int)p, b[0], (int)q);
        k.ok(b[0] > a[0], "intensity grows with luminance");
    });
    // inverse against the exact inverse of the BT.2100 matrix
    const uint64_t g = ex.thorough ? 101 : 61;
    ex.add("inverse", "ICtCp of every PQ-coded cone triple: inverse against the exact inverse transform", g * g * g, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        D3 s, l, e;
        for (int j = 0; j < 3; j++) { s[j] = d.pick(g) / (g - 1.0); l[j] = pq_dec(s[j]); }
        const T3 in = tri(mul(ITP, s)), o = CS::ICtCp_to_XYZ(in);
        k.call(); k.outf(o[0], o[1], o[2]);
        const D3 w = mul(il, l);
        for (int j = 0; j < 3; j++) e[j] = std::fabs(pq_dec(std::min(1.0, s[j] + 6e-6)) - pq_dec(std::max(0.0, s[j] - 6e-6))) + 6e-4 * l[j];
        if (k.verbose) k.note("ICtCp (%.9g, %.9g, %.9g) -> XYZ (%.9g, %.9g, %.9g)", in[0], in[1], in[2], o[0], o[1], o[2]);
        for (int j = 0; j < 3; j++) k.near("XYZ", o[j], w[j], std::fabs(il(j, 0)) * e[0] + std::fabs(il(j, 1)) * e[1] + std::fabs(il(j, 2)) * e[2]);
    });
    ex.vary("after-other-arguments", {{0.3f, 0.4f, 0.2f}, {0.95f, 1.f, 1.09f}, {5.f, 6.f, 4.f}, {60.f, 55.f, 50.f}}, [=](mc::Ctx &k, const float *a) { chk(k, T3(std::fabs(a[0]), std::fabs(a[1]), std::fabs(a[2]))); });
    // finest single-component sweep, and extremes of the format
    static FloatLattice LA{-16, 6, ex.thorough ? 17 : 13};
    for (int ax = 0; ax < 3; ax++)
        ex.add((std::string("axis") + "LMS"[ax]).c_str(), "one cone response over the float lattice 2^-16..100, the others from four backgrounds", LA.n() * 4, [=](mc::Ctx &k, uint64_t i) {
            static const double bg[4][3] = {{0.3, 0.4, 0.2}, {20, 30, 10}, {1e-3, 2e-3, 1e-3}, {100, 0.01, 1}};
            D3 l = {{bg[i % 4][0], bg[i % 4][1], bg[i % 4][2]}};
            l[ax] = LA.at(i / 4);
            if (l[ax] > 100) return k.skip();
            chk(k, tri(mul(il, l)));
        });
    static const std::vector<float> XT = {0.f, 1.f, -1.f, 3.4028235e38f, -3.4028235e38f, 1e38f, -1e38f, 2e38f, -2e38f, 1e-38f, -1e-38f, 1e-45f, 100.f};
    ex.add("extremes", "every triple of the format's largest, smallest and ordinary values: finite forward results", XT.size() * XT.size() * XT.size(), [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const float a = d.of(XT), b = d.of(XT), c = d.of(XT);
        const T3 o = CS::XYZ_to_ICtCp(T3(a, b, c));
        k.call(); k.outf(o[0], o[1], o[2]);
        if (k.verbose) k.note("XYZ (%g, %g, %g) -> (%g, %g, %g)", a, b, c, o[0], o[1], o[2]);
        k.ok(std::isfinite(o[0]) && std::isfinite(o[1]) && std::isfinite(o[2]), "finite result");
    });
}
MC_MAIN(setup)
