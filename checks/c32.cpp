// C32: photometric quantities.
#include "ref.hpp"
#include <memory>
using namespace ref;
typedef CS::Spectrum S;
typedef CS::Tristimulus T3;
static const CS::Observer *OB[4] = {&CS::CIE1931, &CS::CIE31JV, &CS::CIE2012, nullptr};
static const S *CM[4][3] = {{&CS::CIE1931_X, &CS::CIE1931_Y, &CS::CIE1931_Z}, {&CS::CIE1931_JuddVos_X, &CS::CIE1931_JuddVos_Y, &CS::CIE1931_JuddVos_Z}, {&CS::CIE2012_X, &CS::CIE2012_Y, &CS::CIE2012_Z}, {0, 0, 0}};
static double SUM[4][3];
static double at(const S &s, double l, double &slope)
{
    if (l <= 380) { slope = 0; return s[0]; }
    if (l >= 779) { slope = 0; return s[399]; }
    int i = (int)(l - 380);
    if (i > 398) i = 398;
    const double f = l - 380 - i;
    slope = std::fabs((double)s[i + 1] - s[i]);
    if (i > 0) slope = std::max(slope, (double)std::fabs(s[i] - s[i - 1]));
    if (i < 398) slope = std::max(slope, (double)std::fabs(s[i + 2] - s[i + 1]));
    return s[i] * (1 - f) + s[i + 1] * f;
}
static void one(mc::Ctx &k, int o, float l, float w)
{
    const float lm = OB[o]->lumensFromMonochromaticFlux(l, w);
    const T3    cd = OB[o]->candellasFromMonochromaticRadiance(l, w), x = OB[o]->xyz(l);
    k.call(3); k.outf(lm, cd[0], x[2]);
    if (k.verbose) k.note("observer %d, %.9g nm, %.6g W: %.9g lm, (%.9g, %.9g, %.9g) cd, xyz (%.9g, %.9g, %.9g)", o, l, w, lm, cd[0], cd[1], cd[2], x[0], x[1], x[2]);
    for (int j = 0; j < 3; j++)
    {
        double sl;
        const double v = at(*CM[o][j], l, sl), t = 4e-4 * sl + 8 * mc::EPS * std::fabs(v); // a position rounded at 780 nm is off by < 3e-4 nm after scaling
        k.near("candela", cd[j], 683.0 * v * w, 683.0 * t * std::fabs(w) + 1e-42);
        if (j == 1) k.near("lumen", lm, 683.0 * v * w, 683.0 * t * std::fabs(w) + 1e-42);
        k.near("xyz", x[j], v / SUM[o][j], (t + 5e-5 * std::fabs(v)) / SUM[o][j] + 1e-42);
    }
    const float lm2 = OB[o]->lumensFromMonochromaticFlux(l, 2 * w);
    k.eq("lumens of twice the power", lm2, 2.0 * lm);
    const T3 cd2 = OB[o]->candellasFromMonochromaticRadiance(l, 4 * w);
    for (int j = 0; j < 3; j++) k.eq("candelas of four times the radiance", cd2[j], 4.0 * cd[j]);
    k.call(2);
}
void setup(mc::Explorer &ex)
{
    static std::unique_ptr<CS::Observer> cust;
    static S a, b, c;
    CS::Spectrum::spectrum pa{}, pb{}, pc{};
    for (int i = 0; i < 400; i++) { pa[i] = (float)((i * 37) % 53); pb[i] = (float)((i * 71) % 97) - 20.f; pc[i] = (float)i; }
    a = CS::Spectrum(pa); b = CS::Spectrum(pb); c = CS::Spectrum(pc);
    cust.reset(new CS::Observer(a, b, c));
    OB[3] = cust.get(); CM[3][0] = &a; CM[3][1] = &b; CM[3][2] = &c;
    for (int o = 0; o < 4; o++) for (int j = 0; j < 3; j++) { SUM[o][j] = 0; for (int i = 0; i < 400; i++) SUM[o][j] += (*CM[o][j])[i]; }
    static std::vector<float> W = {1.f, 0.f, 0.5f, 1e-3f, 100.f, 3.7f, 1e6f, -2.f, 1.f / 683};
    const uint64_t n = W.size(), per = ex.thorough ? 256 : 64, NL = 500 * per + 1;
    ex.add("grid", "every 1/64 nm (thorough 1/256) from 330 to 830 nm x 9 powers x 4 observers", NL * n * 4, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int o = (int)d.pick(4);
        const float w = d.of(W);
        one(k, o, (float)(330.0 + (double)d.v / per), w);
    });
    const FloatLattice L{-60, 60, ex.thorough ? 16 : 12};
    ex.add("power", "power over a fine float lattice 2^-60..2^60 of both signs at 7 wavelengths", L.n() * 7 * 4 * 2, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int o = (int)d.pick(4);
        static const float l[7] = {380.f, 555.f, 555.25f, 612.9f, 779.f, 450.f, 700.5f};
        const float x = l[d.pick(7)], sg = d.pick(2) ? -1.f : 1.f;
        one(k, o, x, sg * L.at(d.v));
    });
    ex.add("windows", "2001 consecutive floats around every tabulated wavelength, every observer", 400ull * 2001 * 4, [=](mc::Ctx &k, uint64_t i) {
        const int o = (int)(i & 3);
        i >>= 2;
        const float x = 380.f + (float)(i / 2001);
        one(k, o, mc::iord(mc::ordi(x) + (int64_t)(i % 2001) - 1000), 1.f);
    });
    ex.add("far", "wavelengths far outside the table", 12, [=](mc::Ctx &k, uint64_t i) {
        static const float l[12] = {0.f, -1.f, 1.f, 100.f, 379.99f, 379.f, 779.01f, 780.f, 1000.f, 1e6f, -1e30f, 1e30f};
        for (int o = 0; o < 4; o++) one(k, o, l[i], 1.f);
    });
    ex.vary("after-other-arguments", {{0.f, 555.f, 1.f}, {1.f, 400.5f, 2.f}, {2.f, 612.25f, 0.5f}, {3.f, 700.f, 10.f}}, [=](mc::Ctx &k, const float *a) { for (int o = 0; o < 4 && !k.bad; o++) one(k, o, a[1], a[2]); });
}
MC_MAIN(setup)
