// See ops.hpp. Nothing here keeps state between calls: arguments are rebuilt from the variant number on every call.
#include "ops.hpp"
#ifdef OPS_LIFE // this translation unit's place in the life of the program (see life.cpp)
extern "C" void life_phase(int);
namespace { struct Early { Early() { life_phase(2 * OPS_LIFE + 1); } ~Early() { life_phase(14 - 2 * OPS_LIFE - 1); } } early; }
#endif
#include "colorsystem.hpp"
#include <cstdio>
#include <limits>
namespace CS = ColorSystem;
typedef CS::Tristimulus T;
typedef CS::Spectrum    S;
typedef CS::Matrix3     M;
typedef CS::Vector3     V;
namespace
{
struct Out
{
    OpResult *r;
    void raw(const void *p, size_t n, char tag = 'r')
    {
        if (r->len + n <= r->cap)
        {
            memcpy(r->out + r->len, p, n);
            if (r->tags) memset(r->tags + r->len, tag, n);
        }
        r->len += n;
    }
    void f(float x) { raw(&x, 4, 'f'); }
    void d(double x) { raw(&x, 8, 'd'); }
    void i(int64_t x) { raw(&x, 8); }
    void t(const T &x) { f(x[0]); f(x[1]); f(x[2]); }
    void v(const V &x) { f(x[0]); f(x[1]); f(x[2]); }
    void m(const M &x) { for (int k = 0; k < 9; k++) f(x[k]); }
    void s(const S &x) { for (int k = 0; k < 400; k++) f(x[k]); }
    void g(const CS::Gamut &x) { m(x.toXYZ()); m(x.fromXYZ()); raw(x.name(), strlen(x.name())); }
    void vt(const std::vector<T> &x) { i(x.size()); for (auto &e : x) t(e); }
    // inputs must come out as they went in
    void same(float a, float b) { if (memcmp(&a, &b, 4)) r->inputs_changed = 1; }
    void same(const T &a, const float *p) { for (int k = 0; k < 3; k++) same(a[k], p[k]); }
    void same(const V &a, const float *p) { for (int k = 0; k < 3; k++) same(a[k], p[k]); }
    void same(const M &a, const float *p) { for (int k = 0; k < 9; k++) same(a[k], p[k]); }
    void same(const S &a, const std::array<float, 400> &p) { for (int k = 0; k < 400; k++) same(a[k], p[k]); }
};
typedef std::array<float, 400> Arr;
// plain test spectra, computed without the library
static Arr arr(float a, float b, float c)
{
    Arr s;
    for (int k = 0; k < 400; k++)
    {
        const float x = (k - 200) / 200.f;
        s[k] = a + b * x + c * x * x * x;
    }
    return s;
}
static std::vector<T> patches(const float *p, int n) // n colours spread around p[0..2]
{
    std::vector<T> r;
    for (int k = 0; k < n; k++) r.push_back(T(p[0] + 0.31f * (k % 3) + 0.02f * k, p[1] + 0.27f * ((k / 3) % 3) - 0.01f * k, p[2] + 0.23f * ((k * 2 + 1) % 5)));
    return r;
}
static uint32_t u32(float x) { return x > -2e9f && x < 4e9f ? (uint32_t)(int64_t)x : 0; }
struct Op
{
    const char        *name;
    std::vector<float> base;
    void (*run)(const float *, Out &);
};
// user objects shared by several computations (const use only)
struct SharedObjs
{
    CS::Gamut       gamut;
    S               light;
    CS::Observer    obs;
    std::vector<T>  patch;
    SharedObjs() : gamut("shared", 0.65f, 0.32f, 0.29f, 0.61f, 0.16f, 0.05f, 0.3457f, 0.3585f), light(arr(0.7f, 0.2f, 0.1f)), obs(S(arr(0.5f, 0.1f, 0.1f)), S(arr(0.6f, -0.2f, 0.1f)), S(arr(0.4f, 0.05f, -0.3f)))
    {
        const float p[3] = {0.1f, 0.2f, 0.15f};
        patch = patches(p, 24);
    }
};
#ifdef OPS_LIFE // nothing of ours may depend on initialisation order or be destroyed
static SharedObjs &shared_() { static SharedObjs *const p = new SharedObjs; return *p; }
#define g_shared shared_()
#else
static SharedObjs g_shared;
#endif

static const std::vector<Op> &table()
{
#define O(NAME, ...) {NAME, __VA_ARGS__}
#define L [](const float *p, Out &o)
    static const std::vector<Op> &tab = *new std::vector<Op>{
        O("util::sqrtf", {2.5f}, L { o.f(CS::util::sqrtf(p[0])); }),
        O("Vector3 dot", {1, 2, 3, 0.5f, -1, 4}, L { V a(p[0], p[1], p[2]), b(p[3], p[4], p[5]); o.f(a.dot(b)); o.f(V::dot(a, b)); o.same(a, p); o.same(b, p + 3); }),
        O("Matrix3 mul", {1, 2, 0.5f, 0.25f, 3, -1, 2, 0, 1, 0.1f, 0.2f, 0.3f, 2, 1, 1, 4, 5, 7}, L { M a = M::fromArray(p), b = M::fromArray(p + 9); o.m(a.mul(b)); o.m(M::mul(b, a)); o.same(a, p); o.same(b, p + 9); }),
        O("Matrix3 apply", {1, 2, 0.5f, 0.25f, 3, -1, 2, 0, 1, 0.1f, 0.2f, 0.3f}, L { M a = M::fromArray(p); V v(p[9], p[10], p[11]); o.v(a.apply(v)); o.v(M::apply(a, v)); o.same(a, p); o.same(v, p + 9); }),
        O("Matrix3 det/invert", {1, 2, 0.5f, 0.25f, 3, -1, 2, 0, 1}, L { M a = M::fromArray(p); o.f(a.det()); o.m(a.invert()); o.m(M::invert(a)); o.same(a, p); }),
        O("Matrix3 rest", {1, 2, 0.5f, 0.25f, 3, -1, 2, 0, 1, 1.5f}, L { M a = M::fromArray(p); o.m(a.transpose()); o.m(a.mul(p[9])); o.m(a.div(p[9])); o.m(a.add(a)); for (int i = 0; i < 3; i++) { o.v(a.row(i)); o.v(a.col(i)); } o.m(M::diag(V(p[0], p[1], p[2]))); o.m(M()); o.same(a, p); }),
        O("crosstalk", {0.1f}, L { o.m(M::crosstalk(p[0])); o.m(M::crosstalkInvert(p[0])); }),
        O("Tristimulus arithmetic", {0.1f, 0.7f, -0.3f, 2, 0.5f, 1, 3}, L { T a(p[0], p[1], p[2]), b(p[3], p[4], p[5]); o.t(a + b); o.t(a * b); o.t(a * p[6]); o.t(a / p[6]); o.f(a.dot(b)); o.t(a.min(b)); o.t(a.max(b)); o.f(a.min3()); o.f(a.max3()); o.same(a, p); o.same(b, p + 3); }),
        O("clip/positive", {0.1f, 0.7f, -0.3f, 0.f, 0.5f}, L { T a(p[0], p[1], p[2]); o.t(a.clip(p[3], p[4])); o.t(a.positive()); o.i(a.hasNegative()); o.same(a, p); }),
        O("apply matrix", {0.1f, 0.7f, -0.3f, 1, 2, 0.5f, 0.25f, 3, -1, 2, 0, 1}, L { T a(p[0], p[1], p[2]); M m = M::fromArray(p + 3); o.t(a.apply(m)); o.same(a, p); o.same(m, p + 3); }),
        O("toYxy", {0.4f, 0.5f, 0.3f}, L { T a(p[0], p[1], p[2]); o.t(a.toYxy()); o.same(a, p); }),
        O("fromYxy", {0.4f, 0.31f, 0.33f}, L { T a(p[0], p[1], p[2]); o.t(a.fromYxy()); o.same(a, p); }),
        O("toYuv", {0.4f, 0.5f, 0.3f}, L { T a(p[0], p[1], p[2]); o.t(a.toYuv()); o.same(a, p); }),
        O("fromYuv", {0.4f, 0.2f, 0.31f}, L { T a(p[0], p[1], p[2]); o.t(a.fromYuv()); o.same(a, p); }),
        O("fromPlanckianLocus", {5003.f, 1.f}, L { o.t(T::fromPlanckianLocus(p[0], p[1])); }),
        O("fromPlanckianLocus low", {2000.f, 0.5f}, L { o.t(T::fromPlanckianLocus(p[0], p[1])); }),
        O("fromCT", {5000.f, 1.f}, L { o.t(T::fromCT(p[0], p[1])); }),
        O("fromCCT", {5000.f, 0.003f, 1.f}, L { o.t(T::fromCCT(p[0], p[1], p[2])); }),
        O("toCIELAB", {0.4f, 0.5f, 0.3f, 0.95f, 1, 1.08f}, L { T a(p[0], p[1], p[2]), w(p[3], p[4], p[5]); o.t(a.toCIELAB(w)); o.same(a, p); o.same(w, p + 3); }),
        O("toCIELAB D50", {0.4f, 0.5f, 0.3f}, L { T a(p[0], p[1], p[2]); o.t(a.toCIELAB()); o.same(a, p); }),
        O("fromCIELAB", {60, 20, -30, 0.95f, 1, 1.08f}, L { T a(p[0], p[1], p[2]), w(p[3], p[4], p[5]); o.t(a.fromCIELAB(w)); o.same(a, p); o.same(w, p + 3); }),
        O("fromCIELAB D50", {60, 20, -30}, L { T a(p[0], p[1], p[2]); o.t(a.fromCIELAB()); o.same(a, p); }),
        O("toHSV", {0.2f, 0.6f, 0.9f}, L { T a(p[0], p[1], p[2]); o.t(a.toHSV()); o.same(a, p); }),
        O("toHSV_atan", {0.2f, 0.6f, 0.9f}, L { T a(p[0], p[1], p[2]); o.t(a.toHSV_atan()); o.same(a, p); }),
        O("fromHSV", {210, 0.6f, 0.9f}, L { T a(p[0], p[1], p[2]); o.t(a.fromHSV()); o.same(a, p); }),
        O("Gamut from primaries", {0.64f, 0.33f, 0.3f, 0.6f, 0.15f, 0.06f, 0.3127f, 0.329f}, L { CS::Gamut g("g", p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]); o.g(g); o.t(g.primaryWhite()); o.t(g.primaryRed()); o.t(g.primaryGreen()); o.t(g.primaryBlue()); }),
        O("Gamut from matrix", {1, 2, 0.5f, 0.25f, 3, -1, 2, 0, 1, 0.3f}, L { M m = M::fromArray(p); CS::Gamut g("h", m); o.g(g); o.t(g.toXYZ(T(p[9], p[0], p[1]))); o.t(g.fromXYZ(T(p[9], p[0], p[1]))); o.same(m, p); }),
        O("built-in gamut to XYZ", {0.3f, 0.6f, 0.2f}, L { T a(p[0], p[1], p[2]); o.t(CS::Rec709.toXYZ(a)); o.t(CS::Rec2020.toXYZ(a)); o.t(CS::ACES2065.toXYZ(a)); o.t(CS::LMS.toXYZ(a)); o.same(a, p); }),
        O("built-in gamut from XYZ", {0.3f, 0.6f, 0.2f}, L { T a(p[0], p[1], p[2]); o.t(CS::AdobeRGB.fromXYZ(a)); o.t(CS::DCI_P3.fromXYZ(a)); o.t(CS::S_Gamut.fromXYZ(a)); o.t(CS::ACEScg.fromXYZ(a)); o.same(a, p); }),
        O("GamutConvert Rec709->Rec2020", {0}, L { o.m(CS::GamutConvert(CS::Rec709, CS::Rec2020)); }),
        O("GamutConvert Rec2020->Rec709", {0}, L { o.m(CS::GamutConvert(CS::Rec2020, CS::Rec709)); }),
        O("GamutConvert P3->ACEScg", {0}, L { o.m(CS::GamutConvert(CS::DCI_P3, CS::ACEScg)); }),
        O("GamutConvert own", {0.64f, 0.33f, 0.3f, 0.6f, 0.15f, 0.06f, 0.3127f, 0.329f}, L { CS::Gamut g("g", p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]); o.m(CS::GamutConvert(g, CS::Rec2020)); o.m(CS::GamutConvert(CS::Rec2020, g)); }),
        O("GamutConvert shared object", {0}, L { o.m(CS::GamutConvert(g_shared.gamut, CS::Rec709)); o.t(g_shared.gamut.primaryWhite()); o.t(g_shared.gamut.toXYZ(T(0.2f, 0.4f, 0.1f))); }),
        O("Bradford", {0.95f, 1, 1.08f, 0.96f, 1, 0.82f}, L { T a(p[0], p[1], p[2]), b(p[3], p[4], p[5]); o.m(CS::Bradford(a, b)); o.same(a, p); o.same(b, p + 3); }),
        O("Bradford back", {0.96f, 1, 0.82f, 0.95f, 1, 1.08f}, L { T a(p[0], p[1], p[2]), b(p[3], p[4], p[5]); o.m(CS::Bradford(a, b)); o.same(a, p); o.same(b, p + 3); }),
        O("toScreen gamma", {0.2f, 0.6f, 0.9f, 2.2f}, L { T a(p[0], p[1], p[2]); o.t(CS::OTF::toScreen(CS::OTF::GAMMA, a, p[3])); o.same(a, p); }),
        O("toScreen linear/sRGB/709", {0.2f, 0.6f, 0.9f, 2.2f}, L { T a(p[0], p[1], p[2]); o.t(CS::OTF::toScreen(CS::OTF::LINEAR, a, p[3])); o.t(CS::OTF::toScreen(CS::OTF::SRGB, a, p[3])); o.t(CS::OTF::toScreen(CS::OTF::BT709, a, p[3])); o.same(a, p); }),
        O("toScreen PQ/HLG", {0.2f, 0.6f, 0.9f, 2.2f}, L { T a(p[0], p[1], p[2]); o.t(CS::OTF::toScreen(CS::OTF::ST2084, a, p[3])); o.t(CS::OTF::toScreen(CS::OTF::HLG, a, p[3])); o.same(a, p); }),
        O("toScreen S-Log", {0.2f, 0.6f, 0.9f, 2.2f}, L { T a(p[0], p[1], p[2]); o.t(CS::OTF::toScreen(CS::OTF::SLOG, a, p[3])); o.t(CS::OTF::toScreen(CS::OTF::SLOG2, a, p[3])); o.t(CS::OTF::toScreen(CS::OTF::SLOG3, a, p[3])); o.same(a, p); }),
        O("toScene gamma", {0.2f, 0.6f, 0.9f, 2.2f}, L { T a(p[0], p[1], p[2]); o.t(CS::OTF::toScene(CS::OTF::GAMMA, a, p[3])); o.same(a, p); }),
        O("toScene linear/sRGB/709", {0.2f, 0.6f, 0.9f, 2.2f}, L { T a(p[0], p[1], p[2]); o.t(CS::OTF::toScene(CS::OTF::LINEAR, a, p[3])); o.t(CS::OTF::toScene(CS::OTF::SRGB, a, p[3])); o.t(CS::OTF::toScene(CS::OTF::BT709, a, p[3])); o.same(a, p); }),
        O("toScene PQ/HLG", {0.2f, 0.6f, 0.9f, 2.2f}, L { T a(p[0], p[1], p[2]); o.t(CS::OTF::toScene(CS::OTF::ST2084, a, p[3])); o.t(CS::OTF::toScene(CS::OTF::HLG, a, p[3])); o.same(a, p); }),
        O("toScene S-Log", {0.2f, 0.6f, 0.9f, 2.2f}, L { T a(p[0], p[1], p[2]); o.t(CS::OTF::toScene(CS::OTF::SLOG, a, p[3])); o.t(CS::OTF::toScene(CS::OTF::SLOG2, a, p[3])); o.t(CS::OTF::toScene(CS::OTF::SLOG3, a, p[3])); o.same(a, p); }),
        O("XYZ_to_ICtCp", {0.4f, 0.5f, 0.3f}, L { T a(p[0], p[1], p[2]); o.t(CS::XYZ_to_ICtCp(a)); o.same(a, p); }),
        O("ICtCp_to_XYZ", {0.5f, 0.01f, -0.02f}, L { T a(p[0], p[1], p[2]); o.t(CS::ICtCp_to_XYZ(a)); o.same(a, p); }),
        O("XYZ_to_OKLAB", {0.4f, 0.5f, 0.3f}, L { T a(p[0], p[1], p[2]); o.t(CS::XYZ_to_OKLAB(a)); o.same(a, p); }),
        O("OKLAB_to_XYZ", {0.7f, 0.05f, -0.1f}, L { T a(p[0], p[1], p[2]); o.t(CS::OKLAB_to_XYZ(a)); o.same(a, p); }),
        O("Delta UV", {1, 0.2f, 0.3f, 1, 0.21f, 0.33f}, L { T a(p[0], p[1], p[2]), b(p[3], p[4], p[5]); o.f(CS::Delta::UV(a, b)); o.same(a, p); o.same(b, p + 3); }),
        O("Delta E76", {50, 20, 30, 55, 10, -5}, L { T a(p[0], p[1], p[2]), b(p[3], p[4], p[5]); o.f(CS::Delta::E76(a, b)); o.same(a, p); o.same(b, p + 3); }),
        O("Delta E00", {50, 20, 30, 55, 10, -5, 1, 1, 1}, L { T a(p[0], p[1], p[2]), b(p[3], p[4], p[5]); o.f(CS::Delta::E00(a, b, p[6], p[7], p[8])); o.f(CS::Delta::E00(a, b)); o.same(a, p); o.same(b, p + 3); }),
        O("Delta ICtCp", {0.4f, 0.5f, 0.3f, 0.5f, 0.45f, 0.35f}, L { T a(p[0], p[1], p[2]), b(p[3], p[4], p[5]); o.f(CS::Delta::ICtCp(a, b)); o.same(a, p); o.same(b, p + 3); }),
        O("Spectrum fetch", {0.7f, 0.2f, 0.1f, 555.3f}, L { const Arr x = arr(p[0], p[1], p[2]); S s(x); o.f(s.fetch(p[3])); o.same(s, x); }),
        O("Spectrum from samples", {0.7f, 0.2f, 0.1f, 400, 700}, L { const Arr x = arr(p[0], p[1], p[2]); Arr y = x; S s(y.data(), 61, p[3], p[4]); o.s(s); o.same(S(y), x); }),
        O("planck", {5000, 555e-9f}, L { o.d(S::planck(p[0], p[1])); }),
        O("blackbody", {5000}, L { o.s(S::blackbody(p[0])); }),
        O("Spectrum E", {0.8f}, L { o.s(S::E(p[0])); }),
        O("Spectrum mul/add", {0.7f, 0.2f, 0.1f, 0.3f, -0.1f, 0.2f, 1.7f}, L { const Arr x = arr(p[0], p[1], p[2]), y = arr(p[3], p[4], p[5]); S a(x), b(y); o.s(a * b); o.s(a + b); o.s(a * p[6]); o.same(a, x); o.same(b, y); }),
        O("Spectrum sum/dot", {0.7f, 0.2f, 0.1f, 0.3f, -0.1f, 0.2f}, L { const Arr x = arr(p[0], p[1], p[2]), y = arr(p[3], p[4], p[5]); S a(x), b(y); o.f(a.sum()); o.f(a.dot(b)); o.f(S::dot3(a, b, a)); o.same(a, x); o.same(b, y); }),
        O("CIE1931 fromSpectrum", {0.7f, 0.2f, 0.1f}, L { const Arr x = arr(p[0], p[1], p[2]); S a(x); o.t(CS::CIE1931.fromSpectrum(a)); o.same(a, x); }),
        O("CIE2012/JV fromSpectrum", {0.7f, 0.2f, 0.1f}, L { const Arr x = arr(p[0], p[1], p[2]); S a(x); o.t(CS::CIE2012.fromSpectrum(a)); o.t(CS::CIE31JV.fromSpectrum(a)); o.same(a, x); }),
        O("fromReflectanceAndLight", {0.7f, 0.2f, 0.1f, 0.3f, -0.1f, 0.2f}, L { const Arr x = arr(p[0], p[1], p[2]), y = arr(p[3], p[4], p[5]); S a(x), b(y); o.t(CS::CIE1931.fromReflectanceAndLight(a, b)); o.t(CS::CIE2012.fromReflectanceAndLight(b, a)); o.same(a, x); o.same(b, y); }),
        O("own Observer", {0.7f, 0.2f, 0.1f, 0.3f, -0.1f, 0.2f}, L { const Arr x = arr(p[0], p[1], p[2]), y = arr(p[3], p[4], p[5]); S a(x), b(y); CS::Observer ob(a, b, a); o.t(ob.fromSpectrum(b)); o.t(ob.xyz(500.f)); o.same(a, x); o.same(b, y); }),
        O("shared Observer and light", {0.7f, 0.2f, 0.1f}, L { const Arr x = arr(p[0], p[1], p[2]); S a(x); o.t(g_shared.obs.fromReflectanceAndLight(a, g_shared.light)); o.t(g_shared.obs.fromSpectrum(g_shared.light)); o.f(g_shared.light.fetch(500.f)); o.same(a, x); }),
        O("monochromatic", {555.3f, 2.f}, L { o.f(CS::CIE1931.lumensFromMonochromaticFlux(p[0], p[1])); o.t(CS::CIE1931.candellasFromMonochromaticRadiance(p[0], p[1])); o.t(CS::CIE1931.xyz(p[0])); o.t(CS::CIE2012.xyz(p[0])); }),
        O("Macbeth reference", {0.7f, 0.2f, 0.1f}, L { const Arr x = arr(p[0], p[1], p[2]); S a(x); o.vt(CS::Macbeth::reference(a)); o.same(a, x); }),
        O("Macbeth reference CIE2012", {0.7f, 0.2f, 0.1f}, L { const Arr x = arr(p[0], p[1], p[2]); S a(x); o.vt(CS::Macbeth::reference(a, CS::CIE2012)); o.same(a, x); }),
        O("Macbeth reference D65", {0}, L { o.vt(CS::Macbeth::reference(CS::CIE_D65)); }),
#ifndef VERIF_CORE
        O("svdcmp 4x3", {1, 2, 3, 4, 5, 6, 7, 8, 10, 0.5f, -1, 2}, L { CS::SOLVER::Matrix a(4, 3), v(3, 3); CS::SOLVER::Vector w(3); for (int i = 0; i < 12; i++) a[i / 3][i % 3] = p[i]; o.i(CS::SOLVER::svdcmp(a, w, v)); for (int i = 0; i < 12; i++) o.f(a[i / 3][i % 3]); for (int i = 0; i < 9; i++) o.f(v[i / 3][i % 3]); for (int i = 0; i < 3; i++) o.f(w[i]); }),
        O("svdcmp 3x3 singular", {1, 2, 3, 2, 4, 6, 1, 0, 1}, L { CS::SOLVER::Matrix a(3, 3), v(3, 3); CS::SOLVER::Vector w(3); for (int i = 0; i < 9; i++) a[i / 3][i % 3] = p[i]; o.i(CS::SOLVER::svdcmp(a, w, v)); for (int i = 0; i < 9; i++) { o.f(a[i / 3][i % 3]); o.f(v[i / 3][i % 3]); } for (int i = 0; i < 3; i++) o.f(w[i]); }),
#endif
        O("solve 4x3", {1, 2, 3, 4, 5, 6, 7, 8, 10, 0.5f, -1, 2, 1, 2, 3, 4, 1e-5f}, L { CS::SOLVER::Matrix a(4, 3); CS::SOLVER::Vector b(4), x(3); for (int i = 0; i < 12; i++) a[i / 3][i % 3] = p[i]; for (int i = 0; i < 4; i++) b[i] = p[12 + i]; o.i(CS::SOLVER::solve(a, b, x, p[16])); for (int i = 0; i < 3; i++) o.f(x[i]); for (int i = 0; i < 12; i++) o.same(a[i / 3][i % 3], p[i]); for (int i = 0; i < 4; i++) o.same(b[i], p[12 + i]); }),
        O("solve 2x2", {2, 1, 1, 3, 5, 10}, L { CS::SOLVER::Matrix a(2, 2); CS::SOLVER::Vector b(2), x(2); for (int i = 0; i < 4; i++) a[i / 2][i % 2] = p[i]; b[0] = p[4]; b[1] = p[5]; o.i(CS::SOLVER::solve(a, b, x)); o.f(x[0]); o.f(x[1]); for (int i = 0; i < 4; i++) o.same(a[i / 2][i % 2], p[i]); }),
        O("solve nearly dependent", {1, 1, 1, 1.0002f, 1, 2}, L { CS::SOLVER::Matrix a(2, 2); CS::SOLVER::Vector b(2), x(2); for (int i = 0; i < 4; i++) a[i / 2][i % 2] = p[i]; b[0] = p[4]; b[1] = p[5]; o.i(CS::SOLVER::solve(a, b, x)); o.f(x[0]); o.f(x[1]); for (int i = 0; i < 4; i++) o.same(a[i / 2][i % 2], p[i]); }),
        O("solve too few rows", {2, 1}, L { CS::SOLVER::Matrix a(1, 2); CS::SOLVER::Vector b(1), x(2); a[0][0] = p[0]; a[0][1] = p[1]; b[0] = 1; o.i(CS::SOLVER::solve(a, b, x) < 0); }),
        O("Corrector solve 3", {0.2f, 0.4f, 0.1f, 0.5f, 0.3f, 0.6f}, L { const std::vector<T> a = patches(p, 3), b = patches(p + 3, 3); o.m(CS::Corrector::solve(a, b)); const std::vector<T> a2 = patches(p, 3), b2 = patches(p + 3, 3); for (int i = 0; i < 3; i++) { o.same(a[i], &*a2[i].begin()); o.same(b[i], &*b2[i].begin()); } }),
        O("Corrector solve 7", {0.2f, 0.4f, 0.1f, 0.5f, 0.3f, 0.6f}, L { const std::vector<T> a = patches(p, 7), b = patches(p + 3, 7); o.m(CS::Corrector::solve(a, b)); }),
        O("Corrector solve chart", {0.2f, 0.4f, 0.1f}, L { std::vector<T> a = patches(p, 24); o.m(CS::Corrector::solve(a)); const std::vector<T> a2 = patches(p, 24); for (int i = 0; i < 24; i++) o.same(a[i], &*a2[i].begin()); }),
        O("Corrector solve chart, light, observer", {0.2f, 0.4f, 0.1f, 0.7f, 0.2f, 0.1f}, L { std::vector<T> a = patches(p, 24); const Arr x = arr(p[3], p[4], p[5]); S l(x); o.m(CS::Corrector::solve(a, l, CS::CIE2012)); o.same(l, x); }),
        O("makeGamut", {0.2f, 0.4f, 0.1f}, L { std::vector<T> a = patches(p, 24); o.g(CS::Corrector::makeGamut("cam", a)); const std::vector<T> a2 = patches(p, 24); for (int i = 0; i < 24; i++) o.same(a[i], &*a2[i].begin()); }),
        O("solve shared patches", {0.2f, 0.4f, 0.1f}, L { o.m(CS::Corrector::solve(g_shared.patch, patches(p, 24))); }),
        O("MemoryStream integers", {7, 258, 66051, 3}, L {
            CS::MemoryStream s;
            s.setWriteEndian(CS::MemoryStream::BIG); s.putUint16((uint16_t)u32(p[1])); s.putUint32((uint32_t)u32(p[2]));
            s.setWriteEndian(CS::MemoryStream::LITTLE); s.putUint8((uint8_t)u32(p[0])); s.putFloat(p[3]); s.putDouble(p[2] * 1.5);
            o.raw(s.buffer().data(), s.buffer().size()); o.i(s.ftell());
            s.fseek(0, CS::MemoryStream::TOP); s.setReadEndian(CS::MemoryStream::BIG); o.i(s.getUint16()); o.i(s.getUint32()); s.setReadEndian(CS::MemoryStream::LITTLE); o.i(s.getUint8()); o.f(s.getFloat()); o.d(s.getDouble()); o.i(s.feof()); }),
        O("MemoryStream signed integers", {-7, -258, 66051, 3}, L {
            CS::MemoryStream s;
            for (int e = 0; e < 2; e++) { s.setWriteEndian(e ? CS::MemoryStream::BIG : CS::MemoryStream::LITTLE); s.putInt8((int8_t)u32(p[0])); s.putInt16((int16_t)u32(p[1])); s.putInt32((int32_t)u32(p[2])); s.putInt64((int64_t)u32(p[3]) * -3); s.putInt32(-1 - (int32_t)(u32(p[0]) & 0xff)); s.putInt64(-5); }
            o.raw(s.buffer().data(), s.buffer().size());
            s.fseek(0, CS::MemoryStream::TOP);
            for (int e = 0; e < 2; e++) { s.setReadEndian(e ? CS::MemoryStream::BIG : CS::MemoryStream::LITTLE); o.i(s.getInt8()); o.i(s.getInt16()); o.i(s.getInt32()); o.i(s.getInt64()); o.i(s.getInt32()); o.i(s.getInt64()); }
            char b[4]; o.i(s.feof()); o.i(s.read(b, 4)); o.i(s.write(b, 0)); o.i(s.getInt16()); }),
        O("MemoryStream strings and blocks", {65, 3}, L {
            CS::MemoryStream s;
            std::string t(1 + ((unsigned)u32(p[1]) & 15), (char)('A' + ((unsigned)u32(p[0]) & 15)));
            s.putString(t); s.write(t.data(), t.size()); s.put_at(40, 9); o.raw(s.buffer().data(), s.buffer().size());
            s.seekTo(0); const std::string u = s.get_string(); o.raw(u.data(), u.size()); char b[8]; o.i(s.read(b, 4)); o.i(s.ftell()); o.i(s.get_at(40)); }),
        O("MemoryStream from memory", {1, 2, 3}, L { unsigned char d[6] = {(unsigned char)u32(p[0]), (unsigned char)u32(p[1]), (unsigned char)u32(p[2]), 4, 5, 6}; CS::MemoryStream s(d, 6); o.i(s.getUint32()); s.setReadEndian(CS::MemoryStream::BIG); o.i(s.getUint16()); o.i(s.feof()); o.i(d[0] == (unsigned char)u32(p[0]) && d[3] == 4); }),
        O("loadGamutFromICCProfileMemory", {1}, L { unsigned char d[6] = {1, 2, 3, 4, 5, (unsigned char)u32(p[0])}; o.g(CS::loadGamutFromICCProfileMemory(d, 6)); }),
        O("built-in constants", {0}, L {
            const CS::Gamut *g[] = {&CS::AdobeRGB, &CS::Rec709, &CS::Rec2020, &CS::DCI_P3, &CS::S_Gamut, &CS::S_Gamut3_Cine, &CS::ACEScg, &CS::ACES2065, &CS::LMS, &CS::XYZ};
            for (auto x : g) o.g(*x);
            const T *w[] = {&CS::Illuminant_A, &CS::Illuminant_B, &CS::Illuminant_C, &CS::Illuminant_D50, &CS::Illuminant_D55, &CS::Illuminant_D60, &CS::Illuminant_D65, &CS::Illuminant_D75, &CS::Illuminant_E, &CS::Illuminant_F2, &CS::Illuminant_F7, &CS::Illuminant_F11};
            for (auto x : w) o.t(*x); }),
        O("built-in tables", {0}, L {
            // position-dependent digests of every table
            auto dig = [&](const S &s) { uint64_t h = 1469598103934665603ull; for (int i = 0; i < 400; i++) { float x = s[i]; uint32_t u; memcpy(&u, &x, 4); h = (h ^ u) * 1099511628211ull; } o.i((int64_t)h); };
            dig(CS::CIE1931_X); dig(CS::CIE1931_Y); dig(CS::CIE1931_Z); dig(CS::CIE2012_X); dig(CS::CIE2012_Y); dig(CS::CIE2012_Z); dig(CS::CIE1931_JuddVos_X); dig(CS::CIE1931_JuddVos_Y); dig(CS::CIE1931_JuddVos_Z); dig(CS::CIE_D65);
            for (auto &s : CS::TM_30_15::sample) dig(s);
            for (auto &s : CS::Macbeth::Patch) dig(s);
            for (auto ob : {&CS::CIE1931, &CS::CIE2012, &CS::CIE31JV}) { dig(ob->X_); dig(ob->Y_); dig(ob->Z_); o.t(ob->normalize_); } }),
        O("shared objects", {0}, L { o.g(g_shared.gamut); o.s(g_shared.light); o.s(g_shared.obs.X_); o.s(g_shared.obs.Y_); o.s(g_shared.obs.Z_); o.vt(g_shared.patch); }),
    };
    return tab;
}
// variant 0: base; then, per parameter: a value one part in 10^6 away, a clearly different one, half, zero, the negative and eight times the value
static int nvar(int op) { const auto &b = table()[op].base; return (b.size() == 1 && b[0] == 0) ? 1 : 1 + 6 * (int)b.size(); }
static std::vector<float> params(int op, int v)
{
    std::vector<float> p = table()[op].base;
    if (v >= OPS_SPECIAL)
    {
        typedef std::numeric_limits<float> NL;
        static const float sp[OPS_NSPECIAL] = {0.f, -0.f, 1.f, -1.f, NL::denorm_min(), -NL::denorm_min(), NL::min(), NL::epsilon(), NL::max(), -NL::max(), NL::infinity(), -NL::infinity(), NL::quiet_NaN(), 3e9f, -3e9f, 360.f};
        p[(v - OPS_SPECIAL) / OPS_NSPECIAL % p.size()] = sp[(v - OPS_SPECIAL) % OPS_NSPECIAL];
    }
    else if (v >= OPS_MANY)
    {
        // a long list of distinct argument sets: even numbers move one parameter, odd ones all of them
        const int q = v - OPS_MANY, n = (int)p.size();
        for (int j = 0; j < n; j++)
            if ((q & 1) || j == (q / 2) % n)
            {
                const float t = 0.0005f * (1 + q / 2) * ((q & 1) ? 1 + 0.25f * (j % 3) : 1.f);
                p[j] = p[j] == 0 ? t : p[j] * (1.f + t);
            }
    }
    else if (v > 0)
    {
        float &x = p[(v - 1) / 6];
        switch ((v - 1) % 6)
        {
        case 0: x = x * 1.000001f + (x == 0 ? 1e-6f : 0); break;
        case 1: x = x * 1.375f + (x == 0 ? 0.5f : 0); break;
        case 2: x = (x == 0) ? -0.25f : x * 0.5f; break;
        case 3: x = (x == 0) ? 100.f : 0.f; break;
        case 4: x = (x == 0) ? -100.f : -x; break;
        default: x = (x == 0) ? 3.f : x * 8.f; break;
        }
    }
    return p;
}
static int         a_count() { return (int)table().size(); }
static const char *a_name(int op) { return table()[op].name; }
static void        a_args(int op, int v, char *text, size_t cap)
{
    size_t n = 0;
    text[0] = 0;
    for (float x : params(op, v))
        if (n + 16 < cap) n += snprintf(text + n, cap - n, "%s%.7g", n ? "," : "", x);
}
static void a_run(int op, int v, OpResult *r)
{
    const std::vector<float> p = params(op, v);
    Out                      o{r};
    r->len            = 0;
    r->inputs_changed = 0;
    table()[op].run(p.data(), o);
}
static const OpsApi api = {a_count, nvar, a_name, a_args, a_run};
} // namespace
#ifdef OPS_LIFE
namespace { struct Late { Late() { life_phase(2 * OPS_LIFE + 2); } ~Late() { life_phase(14 - 2 * OPS_LIFE - 2); } } late; }
#endif
extern "C" const OpsApi *OPS_NAME()
{
    table();
    return &api;
}
