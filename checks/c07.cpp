// C07: HSV.
#include "ref.hpp"
using namespace ref;
typedef CS::Tristimulus T3;
static double angdiff(double a, double b)
{
    double d = std::fmod(std::fabs(a - b), 360.0);
    return std::min(d, 360 - d);
}
static void fwd(mc::Ctx &k, float r, float g, float b)
{
    const T3 c(r, g, b), h = T3::toHSV(c), hm = c.toHSV(), at = T3::toHSV_atan(c), atm = c.toHSV_atan(), back = T3::fromHSV(h);
    k.call(5); k.outf(h[0], h[1], h[2]);
    const double mx = std::max(r, std::max(g, b)), mn = std::min(r, std::min(g, b));
    if (k.verbose) k.note("RGB (%.9g, %.9g, %.9g) -> HSV (%.9g, %.9g, %.9g), atan hue %.9g, back (%.9g, %.9g, %.9g)", r, g, b, h[0], h[1], h[2], at[0], back[0], back[1], back[2]);
    const D3 w = rgb_to_hsv(d3(c));
    k.near("value", h[2], mx, 0); k.near("value (atan)", at[2], mx, 0);
    k.near("saturation", h[1], w[1], 5e-7); k.near("saturation (atan)", at[1], w[1], 5e-7);
    k.ok(h[0] >= 0.f && h[0] <= 360.f, "hue lies in 0..360");
    k.ok(at[0] >= 0.f && at[0] <= 360.f, "atan hue lies in 0..360");
    k.near("hue error", angdiff(h[0], w[0]), 0, 2.5e-4);
    if (mx == mn) { k.near("hue of grey", angdiff(h[0], 0), 0, 0); k.near("atan hue of grey", angdiff(at[0], 0), 0, 1e-6); }
    else k.ok(angdiff(at[0], w[0]) <= 1.2 + 1e-4 * mx / (mx - mn), "atan hue within 1.2 degrees of the hexagonal one");
    if (mx != mn)
        k.near("atan hue is the polar angle of the colour", angdiff(at[0], 180 / M_PI * std::atan2(std::sqrt(3.0) * ((double)g - (double)b), 2.0 * r - (double)g - (double)b)), 0, 1e-4 + 60 * 2.5 * mc::EPS * mx / (mx - mn));
    for (int i = 0; i < 3; i++)
    {
        k.ok(std::fabs(h[i] - hm[i]) <= 1e-6f * std::fabs(h[i]) && std::fabs(at[i] - atm[i]) <= 1e-6f * std::fabs(at[i]), "static and member forms agree");
        k.near("round trip", back[i], c[i], 4e-6 * mx);
    }
}
static void inv(mc::Ctx &k, float h, float s, float v)
{
    const T3 c(h, s, v), o = T3::fromHSV(c), om = c.fromHSV();
    k.call(2); k.outf(o[0], o[1], o[2]);
    if (k.verbose) k.note("HSV (%.9g, %.9g, %.9g) -> RGB (%.9g, %.9g, %.9g)", h, s, v, o[0], o[1], o[2]);
    const double ev = 1e-6 * v;
    double mx = -1, mn = 2;
    for (int i = 0; i < 3; i++)
    {
        k.ok(std::fabs(o[i] - om[i]) <= 1e-6f * v, "static and member forms agree");
        k.ok(o[i] >= -1e-7f && o[i] <= 1.000001f, "components lie in 0..1");
        mx = std::max(mx, (double)o[i]); mn = std::min(mn, (double)o[i]);
    }
    k.near("largest component is the requested value", mx, v, ev);
    k.near("smallest component gives the requested saturation", mn, (double)v * (1 - (double)s), 2 * ev + 1e-7 * v);
    if (std::fabs(h) <= 1e6f)
    {
        const D3 w = hsv_to_rgb(d3(c));
        const double dh = 1.5e-4 + 4 * mc::EPS * std::fabs(h);
        for (int i = 0; i < 3; i++) k.near("component", o[i], w[i], 2 * ev + v * s * dh / 60);
        for (double turns : {1.0, -1.0, 2.0, 10.0, -25.0})
        {
            const float h2 = (float)(h + 360.0 * turns);
            if ((double)h2 != h + 360.0 * turns) continue; // not representable
            const T3 o2 = T3::fromHSV(T3(h2, s, v));
            k.call();
            for (int i = 0; i < 3; i++) k.near("same colour one or more turns away", o2[i], o[i], 4 * ev + v * s * (3e-4 + 4 * mc::EPS * std::fabs(h2)) / 60);
        }
    }
}
void setup(mc::Explorer &ex)
{
    static std::vector<float> V = {0.f, 1.f, 0.5f, 0.25f, 1e-3f, 1e-6f, 0.9999999f, 0.18f, 2.f, 100.f, 1e4f, 1e-10f};
    const int n = ex.thorough ? 256 : 96;
    for (int i = 1; i < n; i++) V.push_back((float)i / 255.f);
    for (int i = 0; i < n / 2; i++) V.push_back((float)std::exp(std::log(1e-5) * (1 - (double)i / (n / 2.0))));
    const uint64_t m = V.size();
    ex.add("rgb", "all RGB triples of the lattice (ties, greys, zeros, tiny, HDR)", m * m * m, [=](mc::Ctx &k, uint64_t i) { mc::Mixed d(i); const float r = d.of(V), g = d.of(V), b = d.of(V); fwd(k, r, g, b); });
    ex.add("rgb8", "all RGB triples of 6-bit code values", 64 * 64 * 64, [=](mc::Ctx &k, uint64_t i) { fwd(k, (i & 63) / 63.f, (i >> 6 & 63) / 63.f, (i >> 12) / 63.f); });
    static FloatLattice L{-20, 6, ex.thorough ? 20 : 15};
    for (int ax = 0; ax < 3; ax++)
        ex.add((std::string("axis") + "RGB"[ax]).c_str(), "one component over the float lattice, four backgrounds", L.n() * 4, [=](mc::Ctx &k, uint64_t i) {
            static const float bg[4][3] = {{0.3f, 0.4f, 0.2f}, {0.7f, 0.7f, 0.7f}, {0.f, 0.f, 0.f}, {1.f, 0.f, 1.f}};
            float c[3] = {bg[i % 4][0], bg[i % 4][1], bg[i % 4][2]};
            c[ax] = L.at(i / 4);
            fwd(k, c[0], c[1], c[2]);
        });
    static Domain H;
    for (int q = -12; q <= 18; q++) H.window(60.f * q, ex.thorough ? 4000 : 300);
    H.codes(8, 360 * 8 + 1).lattice(-10, 40, ex.thorough ? 12 : 8).neglattice(-10, 40, ex.thorough ? 12 : 8).lattice(41, 127, 3).neglattice(41, 127, 3);
#ifndef VERIF_CORE
    ex.add("mod360", "the hue normalisation itself on the hue domain", H.n(), [=](mc::Ctx &k, uint64_t i) {
        const float h = H.at(i), r = T3::mod360(h);
        k.call(); k.outf(r);
        k.ok(r >= 0.f && r <= 360.f, "the angle lies in 0..360");
        if (std::fabs(h) <= 1e6f) k.near("the same direction", angdiff(r, std::fmod((double)h, 360.0)), 0, 1.5e-4 + 4 * mc::EPS * std::fabs(h));
    });
#endif
    static std::vector<float> S = {0.f, 1.f, 0.5f, 0.999999f, 1e-4f, 0.25f, 0.8f, 0.1f}, W = {1.f, 0.f, 0.5f, 1e-5f, 0.3f, 0.75f};
    ex.add("hsv", "hue (windows at every multiple of 60, log lattice of both signs up to 2^127) x saturation x value", H.n() * S.size() * W.size(), [=](mc::Ctx &k, uint64_t i) { mc::Mixed d(i); const float s = d.of(S), v = d.of(W); inv(k, H.at(d.v), s, v); });
    ex.hang_s = 20;
    ex.vary("after-other-arguments", {{0.3f, 0.4f, 0.2f}, {0.9f, 0.1f, 0.5f}, {0.2f, 0.2f, 0.7f}, {0.05f, 0.6f, 0.6f}}, [=](mc::Ctx &k, const float *a) {
        const float x = std::fabs(a[0]), y = std::fabs(a[1]), z = std::fabs(a[2]);
        fwd(k, x, y, z);
        if (!k.bad) inv(k, a[0] * 360, std::min(1.f, y), std::min(1.f, z));
    });
    static const std::vector<float> SH = {0.f, 0.03f, 0.1f, 0.2f, 0.33f, 0.5f, 0.51f, 0.77f, 0.999f, 1.f};
    ex.add("intensities", "colour shapes (ties, greys included) at every power of two from 2^-96 to 2^120: hue and saturation do not depend on intensity", SH.size() * SH.size() * SH.size() * 217, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const float a = d.of(SH), b = d.of(SH), c = d.of(SH), s = std::ldexp(1.1f, (int)d.pick(217) - 96);
        fwd(k, a * s, b * s, c * s);
    });
    const uint64_t hn = ex.thorough ? 1441 : 361, sn = ex.thorough ? 129 : 65;
    ex.add("hsv-grid", "hue x saturation x value on a uniform grid", hn * sn * sn, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const float h = lin(d.pick(hn), hn, 0, 360), s = lin(d.pick(sn), sn, 0, 1), v = lin(d.pick(sn), sn, 0, 1);
        inv(k, h, s, v);
    });
}
MC_MAIN(setup)
