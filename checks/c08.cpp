// C08: OKLab.
#include "ref.hpp"
using namespace ref;
typedef CS::Tristimulus T3;
// |M|-weighted propagation of per-component errors
static D3 absmul(const M3 &m, const D3 &e)
{
    D3 r;
    for (int i = 0; i < 3; i++) r[i] = std::fabs(m(i, 0)) * e[0] + std::fabs(m(i, 1)) * e[1] + std::fabs(m(i, 2)) * e[2];
    return r;
}
static D3 absv(const D3 &a) { return D3{{std::fabs(a[0]), std::fabs(a[1]), std::fabs(a[2])}}; }
static double cbrtErr(double l, double e)
{
    const double c = std::cbrt(l);
    return std::max(std::fabs(std::cbrt(l + e) - c), std::fabs(std::cbrt(l - e) - c));
}
static const double K = 6 * mc::EPS;
// error bound of one forward evaluation at exact xyz, given input perturbation dx
static D3 fwdTol(const D3 &xyz, const D3 &dx)
{
    const D3 l = mul(OK_M1, xyz), el = absmul(OK_M1, absv(xyz)), ed = absmul(OK_M1, dx);
    D3 ec, cb;
    for (int i = 0; i < 3; i++) { ec[i] = cbrtErr(l[i], K * el[i] + ed[i]) + K * std::fabs(std::cbrt(l[i])); cb[i] = std::fabs(std::cbrt(l[i])); }
    const D3 a = absmul(OK_M2, ec), b = absmul(OK_M2, cb);
    return D3{{a[0] + K * b[0], a[1] + K * b[1], a[2] + K * b[2]}};
}
static D3 invTol(const D3 &lab, const D3 &dl)
{
    static const M3 i1 = inv(OK_M1), i2 = inv(OK_M2);
    const D3 d = mul(i2, lab), ad = absmul(i2, absv(lab)), pd = absmul(i2, dl);
    D3 el, al;
    for (int i = 0; i < 3; i++)
    {
        const double e = 3 * K * ad[i] + pd[i], a = std::fabs(d[i]);
        el[i] = 3 * a * a * e + 3 * a * e * e + e * e * e + K * a * a * a;
        al[i] = a * a * a;
    }
    const D3 x = absmul(i1, el), y = absmul(i1, al);
    return D3{{x[0] + 3 * K * y[0], x[1] + 3 * K * y[1], x[2] + 3 * K * y[2]}};
}
static void chk(mc::Ctx &k, const T3 &c)
{
    const T3 lab = CS::XYZ_to_OKLAB(c), back = CS::OKLAB_to_XYZ(lab);
    k.call(2); k.outf(lab[0], lab[1], lab[2]);
    const D3 x = d3(c), w = xyz_to_oklab(x), z = D3{{0, 0, 0}}, t = fwdTol(x, z), t2 = invTol(w, t);
    if (k.verbose) k.note("XYZ (%.9g, %.9g, %.9g) -> OKLab (%.9g, %.9g, %.9g) -> (%.9g, %.9g, %.9g)", c[0], c[1], c[2], lab[0], lab[1], lab[2], back[0], back[1], back[2]);
    const double m = 1e-37;
    for (int i = 0; i < 3; i++) k.near("OKLab", lab[i], w[i], t[i] + 1e-13);
    for (int i = 0; i < 3; i++) k.near("round trip XYZ->OKLab->XYZ", back[i], x[i], t2[i] + m);
}
static void chkInv(mc::Ctx &k, const T3 &lab)
{
    const T3 xyz = CS::OKLAB_to_XYZ(lab), back = CS::XYZ_to_OKLAB(xyz);
    k.call(2); k.outf(xyz[0], xyz[1], xyz[2]);
    const D3 l = d3(lab), w = oklab_to_xyz(l), t = invTol(l, D3{{0, 0, 0}}), t2 = fwdTol(w, t);
    if (k.verbose) k.note("OKLab (%.9g, %.9g, %.9g) -> XYZ (%.9g, %.9g, %.9g) -> (%.9g, %.9g, %.9g)", lab[0], lab[1], lab[2], xyz[0], xyz[1], xyz[2], back[0], back[1], back[2]);
    for (int i = 0; i < 3; i++) k.near("XYZ", xyz[i], w[i], t[i] + 1e-37);
    for (int i = 0; i < 3; i++) k.near("round trip OKLab->XYZ->OKLab", back[i], l[i], t2[i] + 1e-12);
}
void setup(mc::Explorer &ex)
{
    static std::vector<float> V = {0.f, 1.f, 0.95047f, 1.08883f, 0.18f, 1e-6f, 1e-12f, 100.f, 1e4f, 1e10f, 1e-20f};
    const int n = ex.thorough ? 100 : 40;
    for (int i = 0; i < n; i++) V.push_back((float)std::exp(std::log(1e-5) + std::log(2e7) * i / (n - 1)));
    for (int i = 1; i < n; i++) V.push_back((float)i / n + 0.0003f);
    for (float f : {1.f, 0.3f, 0.05f, 1e-3f, 10.f, 1e-6f}) V.push_back(-f);
    for (int i = 1; i < n / 4; i++) V.push_back(-(float)i / n * 4);
    const uint64_t m = V.size();
    ex.add("forward", "all XYZ triples of the lattice (negatives and HDR included): published value and round trip", m * m * m, [=](mc::Ctx &k, uint64_t i) { mc::Mixed d(i); const float a = d.of(V), b = d.of(V), c = d.of(V); chk(k, T3(a, b, c)); });
    static FloatLattice L{-60, 60, ex.thorough ? 18 : 13};
    for (int ax = 0; ax < 3; ax++)
        ex.add((std::string("axis") + "XYZ"[ax]).c_str(), "one component over the float lattice of both signs, three backgrounds", L.n() * 6, [=](mc::Ctx &k, uint64_t i) {
            static const float bg[3][3] = {{0.3f, 0.4f, 0.2f}, {-0.1f, 2.f, 0.5f}, {0.f, 0.f, 0.f}};
            float c[3] = {bg[i % 3][0], bg[i % 3][1], bg[i % 3][2]};
            c[ax] = (i / 3 % 2 ? -1 : 1) * L.at(i / 6);
            chk(k, T3(c[0], c[1], c[2]));
        });
    const uint64_t g = ex.thorough ? 201 : 101;
    ex.add("inverse", "all (L, a, b) of a uniform lattice: published inverse and round trip", g * g * g, [=](mc::Ctx &k, uint64_t i) { mc::Mixed d(i); const float l = lin(d.pick(g), g, -0.2, 1.4), a = lin(d.pick(g), g, -0.6, 0.6), b = lin(d.pick(g), g, -0.6, 0.6); chkInv(k, T3(l, a, b)); });
    ex.add("white", "D65 white of every luminance is neutral, luminance 1 has lightness 1", 2001, [=](mc::Ctx &k, uint64_t i) {
        const float Y = i == 0 ? 1.f : (float)std::exp(std::log(1e-4) + std::log(1e6) * i / 2000.0);
        const T3 lab = CS::XYZ_to_OKLAB(T3(0.95047f * Y, Y, 1.08883f * Y));
        k.call(); k.outf(lab[0], lab[1], lab[2]);
        k.near("L", lab[0], std::cbrt((double)Y), 6e-4 * std::cbrt((double)Y)); k.near("a", lab[1], 0, 5e-4 * std::cbrt((double)Y)); k.near("b", lab[2], 0, 5e-4 * std::cbrt((double)Y));
    });
    ex.vary("after-other-arguments", {{0.3f, 0.4f, 0.2f}, {0.95f, 1.f, 1.09f}, {0.02f, 0.9f, -0.1f}, {5.f, 4.f, 3.f}}, [=](mc::Ctx &k, const float *a) { chk(k, T3(a[0], a[1], a[2])); if (!k.bad) chkInv(k, T3(a[0], a[1] * 0.2f, a[2] * 0.2f)); });
    static const std::vector<float> SH = {0.f, 0.03f, 0.1f, 0.2f, 0.33f, 0.5f, 0.77f, 1.f, 1.6f, -0.04f, -0.2f, -1.f};
    ex.add("intensities", "colour shapes at every power of two from 2^-90 to 2^98", SH.size() * SH.size() * SH.size() * 189, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const float a = d.of(SH), b = d.of(SH), c = d.of(SH), s = std::ldexp(1.1f, (int)d.pick(189) - 90);
        chk(k, T3(a * s, b * s, c * s));
    });
    ex.add("inverse-scales", "OKLab shapes (both signs) at every power of two from 2^-25 to 2^30", SH.size() * SH.size() * SH.size() * 56, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const float a = d.of(SH), b = d.of(SH), c = d.of(SH), s = std::ldexp(1.1f, (int)d.pick(56) - 25);
        chkInv(k, T3(a * s, b * s * 0.6f, -c * s * 0.6f));
    });
}
MC_MAIN(setup)
