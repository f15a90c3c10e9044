// Operations that can be evaluated while compiling: X(id, name, arguments, results, domain per argument, body).
// body reads p[0..] and writes o[0..]. Shared by lib/ct.cpp (constant expressions) and checks/c41.cpp (run time).
#pragma once
#include "colorsystem.hpp"
namespace ct
{
namespace CS = ColorSystem;
typedef CS::Tristimulus T;
typedef CS::Matrix3     M;
typedef CS::Gamut       G;
constexpr float DOM[][16] = {
    {0.f, 1.f, 0.18f, 0.5f, 0.003f, 0.0088f, 0.9f, 1.5f, 12.f, 1e-7f, -0.25f, 100.f},   // 0 components
    {0.f, 60.f, 120.5f, 359.99f, 360.f, 361.f, -1.f, -725.f, 1000.5f, 180.f, 240.f, 300.f}, // 1 hue
    {0.f, 1.f, 0.5f, 0.25f, 0.999f, 0.001f, 0.75f, 0.1f},                                // 2 0..1
    {1000.f, 1667.f, 2221.9f, 2222.f, 3999.f, 4000.f, 6504.f, 10000.f, 25000.f, 2856.f, 5000.f, 15000.f}, // 3 temperature
    {0.01f, -0.01f, 0.002f, -0.05f, 0.03f, 0.0001f},                                     // 4 duv
    {380.f, 379.f, 779.f, 800.f, 555.f, 555.25f, 380.5f, 778.75f, 450.125f, 610.f, 120.f, 1000.f}, // 5 wavelength
    {0.64f, 0.3f, 0.15f, 0.7f, 0.21f, 0.33f, 0.06f, 0.6f},                               // 6 chromaticity
    {1.f, -2.f, 0.5f, 3.f, 0.125f, -0.75f, 7.f, 0.f},                                    // 7 matrix elements
    {0.9642f, 1.f, 0.8249f, 1.2f, 0.3f, 2.f, 0.05f, 90.f},                               // 8 positive
    {0.f, 1.f, 2.f, 3.f, 4.f, 5.f, 6.f, 7.f, 8.f, 9.f},                                  // 9 selectors
    {0.f, 1.f, 2.f, 4.f, 0.25f, 1e-20f, 1e20f, 3e38f, 1e-38f, 1.5f, 683.f, -1.f, 1e-42f, 0.999f, 123456.f, 16777217.f}, // 10 square root
    {2.f, -1.f, 0.5f, 4.f, 1000.f, 0.01f, 3.f, -0.3f}                                    // 11 factors, not zero
};
constexpr int SIZE[] = {12, 12, 8, 12, 6, 12, 8, 8, 8, 10, 16, 8};
constexpr void put(float *o, const T &t) { o[0] = t[0]; o[1] = t[1]; o[2] = t[2]; }
constexpr void put(float *o, const CS::Vector3 &t) { o[0] = t[0]; o[1] = t[1]; o[2] = t[2]; }
constexpr void put(float *o, const M &t) { for (int i = 0; i < 9; i++) o[i] = t[i]; }
constexpr M mat(const float *p) { return M(p[0], p[1], p[2], p[2] + 1.f, p[0] - 4.f, p[1] * 2.f, 0.5f - p[1], p[2] * p[0] + 3.f, p[0] + 2.f * p[1] - 5.f); }
constexpr const G &gamut(float f)
{
    switch ((int)f)
    {
    case 0: return CS::AdobeRGB;
    case 1: return CS::Rec709;
    case 2: return CS::Rec2020;
    case 3: return CS::DCI_P3;
    case 4: return CS::S_Gamut;
    case 5: return CS::S_Gamut3_Cine;
    case 6: return CS::ACEScg;
    case 7: return CS::ACES2065;
    case 8: return CS::LMS;
    default: return CS::XYZ;
    }
}
constexpr const CS::Spectrum &spec(float f)
{
    switch ((int)f)
    {
    case 0: return CS::CIE_D65;
    case 1: return CS::CIE1931_X;
    case 2: return CS::CIE1931_Y;
    case 3: return CS::CIE1931_Z;
    case 4: return CS::CIE2012_X;
    case 5: return CS::CIE1931_JuddVos_Y;
    case 6: return CS::CIE2012_Z;
    case 7: return CS::CIE1931_JuddVos_X;
    case 8: return CS::CIE2012_Y;
    default: return CS::CIE1931_JuddVos_Z;
    }
}
constexpr const CS::Observer &obs(float f) { return (int)f % 3 == 0 ? CS::CIE1931 : (int)f % 3 == 1 ? CS::CIE2012 : CS::CIE31JV; }
} // namespace ct
#define D(...) {__VA_ARGS__}
#define CT_OPS(X)                                                                                                              \
    X(0, "util::sqrtf", 1, 1, D(10), o[0] = CS::util::sqrtf(p[0]);)                                                            \
    X(1, "Vector3", 6, 4, D(2, 2, 7, 2, 7, 7), CS::Vector3 a(p[0], p[1], p[2]); CS::Vector3 b(p[3], p[4], p[5]); o[0] = a.dot(b); o[1] = CS::Vector3::dot(b, a); o[2] = a.x() + b.y(); o[3] = a[2] + b.z();) \
    X(2, "Matrix3 mul", 6, 18, D(7, 2, 7, 7, 2, 7), const float q[3] = {p[3] + 1.f, p[4], p[5]}; put(o, mat(p).mul(mat(q))); put(o + 9, M::mul(mat(q), mat(p)));) \
    X(3, "Matrix3 apply, row, col, det", 6, 13, D(7, 7, 7, 2, 2, 7), M m = mat(p); put(o, m.apply(CS::Vector3(p[3], p[4], p[5]))); put(o + 3, M::apply(m.transpose(), CS::Vector3(p[5], p[4], p[3]))); put(o + 6, m.row(1)); put(o + 9, m.col(2)); o[12] = m.det();) \
    X(4, "Matrix3 sums and factors", 4, 36, D(7, 7, 7, 11), M m = mat(p); put(o, m.mul(p[3])); put(o + 9, m.div(p[3])); put(o + 18, m.add(m.transpose())); put(o + 27, M::diag(CS::Vector3(p[0], p[1], p[2])));) \
    X(5, "Matrix3 invert", 3, 9, D(11, 11, 11), put(o, M(p[0] * 8.f + 30.f, p[1], p[2] * 0.001f, p[2], p[0] + 2000.f, p[1], 0.5f, p[0] * 0.01f, p[1] + 2200.f).invert());) \
    X(6, "Matrix3 crosstalk", 1, 18, D(2), put(o, M::crosstalk(p[0])); put(o + 9, M::crosstalkInvert(p[0]));)                   \
    X(7, "Tristimulus arithmetic", 6, 18, D(0, 2, 7, 2, 2, 11), T a(p[0], p[1], p[2]); T b(p[3], p[4], p[5]); put(o, a + b); put(o + 3, a * b); put(o + 6, a * p[5]); put(o + 9, a / p[5]); put(o + 12, a.apply(mat(p + 3))); o[15] = a.dot(b); o[16] = T::dot(b, a); o[17] = a.a() + b.b() * a.c();) \
    X(8, "Tristimulus order", 5, 20, D(0, 0, 7, 2, 2), T a(p[0], p[1], p[2]); T b(p[2], p[0], p[1]); put(o, a.min(b)); put(o + 3, a.max(b)); put(o + 6, a.clip(p[3] * 0.4f, 0.4f + p[4])); put(o + 9, T::clip(b, -p[3], p[4])); put(o + 12, a.positive()); o[15] = a.min3(); o[16] = a.max3(); o[17] = a.hasNegative(); o[18] = T::hasNegative(b); o[19] = T::abs_f(p[2]);) \
    X(9, "toYxy, toYuv", 3, 6, D(0, 0, 0), T a(p[0], p[1], p[2]); put(o, a.toYxy()); put(o + 3, a.toYuv());)                     \
    X(10, "fromYxy, fromYuv", 3, 6, D(8, 2, 2), put(o, T(p[0], p[1], p[2]).fromYxy()); put(o + 3, T(p[0], p[1] * 0.6f + 0.01f, p[2] * 0.3f + 0.1f).fromYuv());) \
    X(11, "fromCT", 2, 3, D(3, 8), put(o, T::fromCT(p[0], p[1]));)                                                              \
    X(12, "fromPlanckianLocus", 2, 3, D(3, 8), put(o, T::fromPlanckianLocus(p[0], p[1]));)                                       \
    X(13, "fromCCT", 3, 3, D(3, 4, 8), put(o, T::fromCCT(p[0] < 10000.f ? p[0] : 9000.f, p[1], p[2]));)                          \
    X(14, "toCIELAB", 6, 6, D(0, 2, 2, 8, 8, 8), T a(p[0], p[1], p[2]); put(o, a.toCIELAB(T(p[3], p[4], p[5]))); put(o + 3, a.toCIELAB());) \
    X(15, "fromCIELAB", 6, 6, D(5, 7, 7, 8, 8, 8), T a(p[0] * 0.1f, p[1] * 9.f, p[2] * 11.f); put(o, a.fromCIELAB(T(p[3], p[4], p[5]))); put(o + 3, a.fromCIELAB());) \
    X(16, "toHSV", 3, 3, D(0, 0, 0), put(o, T(p[0], p[1], p[2]).toHSV());)                                                       \
    X(17, "fromHSV", 3, 4, D(1, 2, 8), put(o, T(p[0], p[1], p[2]).fromHSV()); o[3] = T::mod360(p[0]);)                           \
    X(18, "Gamut from primaries", 3, 36, D(6, 6, 6), const G g("x", 0.5f + p[0] * 0.2f, 0.3f, 0.2f, 0.6f + p[1] * 0.2f, 0.1f, 0.02f + p[2] * 0.05f, 0.3127f, 0.3290f); put(o, g.toXYZ()); put(o + 9, g.fromXYZ()); put(o + 18, g.primaryRed()); put(o + 21, g.primaryGreen()); put(o + 24, g.primaryBlue()); put(o + 27, g.primaryWhite()); put(o + 30, g.toXYZ(T(p[0], p[1], p[2]))); put(o + 33, g.fromXYZ(T(p[2], p[0], p[1])));) \
    X(19, "GamutConvert", 2, 9, D(9, 9), put(o, CS::GamutConvert(gamut(p[0]), gamut(p[1])));)                                    \
    X(20, "Spectrum fetch", 2, 2, D(9, 5), o[0] = spec(p[0]).fetch(p[1]); o[1] = spec(p[0])[(int)p[1] % 400];)                    \
    X(21, "Spectrum sums", 3, 3, D(9, 9, 9), o[0] = CS::Spectrum::sum(spec(p[0])); o[1] = spec(p[0]).dot(spec(p[1])); o[2] = CS::Spectrum::dot3(spec(p[0]), spec(p[1]), spec(p[2]));) \
    X(22, "Observer integrals", 3, 6, D(9, 9, 9), put(o, obs(p[0]).fromSpectrum(spec(p[1]))); put(o + 3, obs(p[0]).fromReflectanceAndLight(spec(p[1]), spec(p[2])));) \
    X(23, "Observer at a wavelength", 3, 7, D(9, 5, 8), o[0] = obs(p[0]).lumensFromMonochromaticFlux(p[1], p[2]); put(o + 1, obs(p[0]).candellasFromMonochromaticRadiance(p[1], p[2])); put(o + 4, obs(p[0]).xyz(p[1]));)
namespace ct
{
#define CT_STRUCT(I, NAME, A, R, DOMS, ...)                                                              \
    struct Op##I                                                                                         \
    {                                                                                                    \
        enum { ARGS = A, OUTS = R };                                                                     \
        static constexpr int dom(int a) { const int d[] = DOMS; return d[a]; }                           \
        template <class Z> static constexpr void run(const float *p, float *o, Z) { __VA_ARGS__ }        \
        static constexpr const char *name() { return NAME; }                                             \
    };
CT_OPS(CT_STRUCT)
// every combination of the first `lim` values of each argument's domain, at most `lim`
template <class Op> constexpr long count(int lim)
{
    long n = 1;
    for (int a = 0; a < Op::ARGS; a++) n *= SIZE[Op::dom(a)] < lim ? SIZE[Op::dom(a)] : lim;
    return n;
}
template <class Op> constexpr void args(long i, int lim, float *p)
{
    for (int a = 0; a < Op::ARGS; a++)
    {
        const int n = SIZE[Op::dom(a)] < lim ? SIZE[Op::dom(a)] : lim;
        p[a] = DOM[Op::dom(a)][i % n];
        i /= n;
    }
}
template <class Op> constexpr int limit(long most)
{
    int lim = 16;
    while (lim > 2 && count<Op>(lim) > most) lim--;
    return lim;
}
#ifndef CT_MOST
#define CT_MOST 800
#endif
} // namespace ct
