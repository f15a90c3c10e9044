// Scene and signal domains shared by the transfer-curve checks.
#pragma once
#include "ref.hpp"
namespace ref
{
static inline std::vector<float> breaks(const Curve &c, bool scene)
{
    std::vector<float> b = {c.scene_lo, c.scene_hi, c.sig_lo, c.sig_hi, 0.f, 1.f, 0.5f};
    if (scene)
        for (float f : {0.0031308f, 0.018f, 0.01125f, 0.28466892f, 10.f, 100.f, 12.f, 0.18f, 0.9f})
            b.push_back(f);
    else
        for (float f : {0.04045f, 0.081f, 171.2102946929f / 1023.f, 95.f / 1023.f, 64.f / 1024.f, 0.030001222851889303f,
                 64.f / 1024.f + 0.030001222851889303f * 876.f / 1024.f, 0.55991073f, 940.f / 1023.f})
            b.push_back(f);
    return b;
}
static inline int expo(float x)
{
    int e;
    frexpf(x, &e);
    return e; // x < 2^e
}
// every value the curve can be asked for: lattice, full windows at breakpoints, codes
static inline Domain domain(const Curve &c, bool scene, bool thorough, int qbits, int tbits, bool wide)
{
    const int bits = thorough ? tbits : qbits;
    Domain    d;
    const float hi = scene ? c.scene_hi : c.sig_hi, lo = scene ? c.scene_lo : c.sig_lo;
    const int   e1 = expo(hi) - 1 + (wide ? 3 : 0);
    d.lattice(-24, e1, bits);
    d.lattice(-60, -25, bits > 14 ? 14 : bits);
    if (wide || lo < 0)
    {
        d.neglattice(-24, wide ? e1 : expo(-lo), bits);
        d.neglattice(-60, -25, 12);
    }
    if (wide)
    {
        d.lattice(e1 + 1, 127, 10);
        d.neglattice(e1 + 1, 127, 10);
        d.window(FLT_MAX, 0).window(-FLT_MAX, 0);
    }
    for (float b : breaks(c, scene))
        d.window(b, thorough ? 200000 : 8192);
    d.codes(255, 256).codes(1023, 1024).codes(1024, 1024).codes(4095, 4096).codes(65535, 65536);
    return d;
}
// channel values of the nominal range (inside = 1) or of the whole stated domain, for the colour (three-channel) forms
static inline std::vector<float> channelValues(const Curve &c, bool scene, bool inside, int steps)
{
    const float lo = scene ? c.scene_lo : c.sig_lo, hi = scene ? c.scene_hi : c.sig_hi;
    std::vector<float> v = {lo, hi, 0.f, 1e-6f, 1e-3f, 0.18f, 0.5f, 1.f};
    for (float b : breaks(c, scene))
        for (float f : {0.97f, 1.f, 1.03f}) v.push_back(b * f);
    for (int i = 1; i < steps; i++) v.push_back((float)(lo + (hi - lo) * (double)i / steps));
    for (int i = 1; i < steps; i++) v.push_back((float)(hi * std::pow(10.0, -6.0 * i / steps)));
    if (!inside)
        for (float f : {-0.02f, -1.f, -50.f, 1.1f, 2.f, 20.f, 200.f, 1e4f, 1e6f}) v.push_back(f);
    std::vector<float> r;
    for (float f : v)
    {
        if (inside && !(f >= lo && f <= hi)) continue;
        if (c.type == CS::OTF::GAMMA && f < 0) continue;
        if (!scene && !c.dec_all && c.type != CS::OTF::GAMMA && (f > 1.15f || f < -0.05f)) continue;
        if (!scene && c.type == CS::OTF::ST2084 && f > 1) continue;
        if (std::find(r.begin(), r.end(), f) == r.end()) r.push_back(f);
    }
    return r;
}
// exponents of the pure power law
static inline std::vector<float> exponents()
{
    std::vector<float> g = {1 / 2.2f, 1 / 2.4f, 1 / 1.8f, 1 / 2.6f, 0.45f, 1 / 3.f, 1.0001f, 0.9999f, 2.21f, 2.19f, 2.0001f, 1.99f, 2.222f, 2.35f, 2.8f};
    for (int i = 8; i <= 256; i++) g.push_back(i / 32.f);
    return g;
}
} // namespace ref
