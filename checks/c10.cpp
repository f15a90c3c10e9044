// C10: whites from colour temperature.
#include "ref.hpp"
using namespace ref;
typedef CS::Tristimulus T3;
static double polyx(double T)
{
    return 0.811973208 + T * (-0.00016747 + T * (3.31067e-9 + T * (6.90001e-12 + T * (-1.39671e-15 + T * (1.11951e-19 + T * -3.31672e-24)))));
}
static double polyy(double T)
{
    return 0.136977825 + T * (0.000317653 + T * (-1.27946e-7 + T * (2.22415e-11 + T * (-1.81438e-15 + T * 5.67564e-20))));
}
// Kim et al. cubic spline
static void spline(double T, double &x, double &y)
{
    const double t = 1000 / T;
    x = T < 4000 ? -0.2661239 * t * t * t - 0.2343589 * t * t + 0.8776956 * t + 0.179910 : -3.0258469 * t * t * t + 2.1070379 * t * t + 0.2226347 * t + 0.240390;
    y = T < 2222 ? -1.1063814 * x * x * x - 1.34811020 * x * x + 2.18555832 * x - 0.20219683
        : T < 4000 ? -0.9549476 * x * x * x - 1.37418593 * x * x + 2.09137015 * x - 0.16748867 : 3.0817580 * x * x * x - 5.87338670 * x * x + 3.75112997 * x - 0.37001483;
}
static void blackbody(double T, double &x, double &y)
{
    double s[3] = {0, 0, 0};
    for (int i = 0; i < 400; i++)
    {
        const double l = (380.0 + i) * 1e-9, p = std::pow(l * 1e7, -5) / std::expm1(1.438777e-2 / (l * T));
        s[0] += p * CS::CIE1931_X[i]; s[1] += p * CS::CIE1931_Y[i]; s[2] += p * CS::CIE1931_Z[i];
    }
    const double t = s[0] + s[1] + s[2];
    x = s[0] / t; y = s[1] / t;
}
static void chroma(const T3 &c, double &x, double &y)
{
    const double s = (double)c[0] + c[1] + c[2];
    x = c[0] / s; y = c[1] / s;
}
static void uvof(double x, double y, double &u, double &v) { const double d = -2 * x + 12 * y + 3; u = 4 * x / d; v = 6 * y / d; }
struct FloatRange { int64_t a; uint64_t n, step; float at(uint64_t i) const { return mc::iord(a + (int64_t)(i * step)); } };
static FloatRange fr(float lo, float hi, uint64_t step) { FloatRange r{mc::ordi(lo), 0, step}; r.n = (uint64_t)(mc::ordi(hi) - r.a) / step; return r; }
void setup(mc::Explorer &ex)
{
    static const float Ys[] = {1.f, 100.f, 0.18f};
    const uint64_t st = ex.thorough ? 1 : 13;
    static FloatRange P = fr(1000.f, 10000.f, st), S = fr(1667.f, 25000.f, st);
    auto one = [](bool sp, mc::Ctx &k, float T, float T2, float Y) {
        const T3 c = sp ? T3::fromPlanckianLocus(T, Y) : T3::fromCT(T, Y);
        k.call(); k.outf(c[0], c[1], c[2]);
        double x, y, wx, wy;
        chroma(c, x, y);
        if (sp) spline(T, wx, wy); else { wx = polyx(T); wy = polyy(T); }
        if (k.verbose) k.note("T=%.9g: XYZ (%.9g, %.9g, %.9g)", T, c[0], c[1], c[2]);
        k.eq("luminance", c[1], Y);
        double tl = 3e-6;
        if (sp && (std::fabs(T - 4000) < 0.01 || std::fabs(T - 2222) < 0.01)) tl = 2e-4; // either segment is right at the joint
        if (sp) tl += 1.2e-6; // the published coefficient of t^2 is printed as 0.2343589 and 0.2343580
        k.near("x", x, wx, tl); k.near("y", y, wy, tl);
        // continuity
        const T3 c2 = sp ? T3::fromPlanckianLocus(T2, Y) : T3::fromCT(T2, Y);
        double x2, y2;
        chroma(c2, x2, y2);
        k.call();
        const double lim = 4e-4 * std::fabs((double)T2 - T) + 2e-6 + (sp && (T - 4000.) * (T2 - 4000.) <= 0 ? 2e-4 : 0) + (sp && (T - 2222.) * (T2 - 2222.) <= 0 ? 2e-4 : 0);
        k.near("step of x to the next temperature", x2 - x, 0, lim); k.near("step of y to the next temperature", y2 - y, 0, lim);
    };
    ex.add("polynomial", "temperatures 1000..10000 K (every 13th float, thorough: every float): published formula, luminance, continuity", P.n, [=](mc::Ctx &k, uint64_t i) { one(false, k, P.at(i), P.at(i + 1), Ys[i % 3]); });
    ex.add("spline", "temperatures 1667..25000 K likewise", S.n, [=](mc::Ctx &k, uint64_t i) { one(true, k, S.at(i), S.at(i + 1), Ys[i % 3]); });
    ex.add("polynomial-defaults", "omitted luminance is 1", 9001, [=](mc::Ctx &k, uint64_t i) { const float T = 1000.f + i; k.call(2); k.near("Y", T3::fromCT(T)[1], 1, 0); k.near("Y", T3::fromPlanckianLocus(T)[1], 1, 0); k.near("Y", T3::fromCCT(T, 0.01f)[1], 1, 0); k.near("X", T3::fromCT(T)[0], T3::fromCT(T, 1.f)[0], 1e-6); k.outf(T3::fromCT(T)[0]); });
    const uint64_t q = ex.thorough ? 10 : 1;
    ex.add("polynomial-blackbody", "distance from the true Planckian locus (integrated with the 2-degree observer), 1000..10000 K", 9000 * q + 1, [=](mc::Ctx &k, uint64_t i) {
        const float T = 1000.f + (float)i / q;
        double x, y, bx, by;
        chroma(T3::fromCT(T), x, y); blackbody(T, bx, by);
        k.call(); k.outf(x, y);
        if (k.verbose) k.note("T=%g", T);
        k.near("x", x, bx, 0.004); k.near("y", y, by, 0.004);
    });
    ex.add("spline-blackbody", "distance from the true Planckian locus, 1667..25000 K", 23333 * q + 1, [=](mc::Ctx &k, uint64_t i) {
        const float T = 1667.f + (float)i / q;
        double x, y, bx, by;
        chroma(T3::fromPlanckianLocus(T), x, y); blackbody(T, bx, by);
        k.call(); k.outf(x, y);
        if (k.verbose) k.note("T=%g", T);
        k.near("x", x, bx, 0.0006); k.near("y", y, by, 0.0006);
    });
    static std::vector<float> D = {0.f, 1e-4f, -1e-4f, 1e-3f, -1e-3f, 2e-3f, 5e-3f, -5e-3f, 0.01f, -0.01f, 0.02f, -0.02f, 0.03f, -0.03f, 0.05f, -0.05f};
    for (int i = 1; i < 24; i++) { D.push_back(0.0021f * i); D.push_back(-0.0021f * i); }
    ex.add("duv", "temperature (0.5 K grid, 1000..10000 K) x Duv offset: distance, perpendicularity, side, luminance", (uint64_t)(18001 * q) * D.size(), [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed m(i);
        const float dv = m.of(D), T = 1000.f + (float)(0.5 * m.v / q), Y = Ys[i % 3];
        const T3 c = T3::fromCCT(T, dv, Y);
        k.call(); k.outf(c[0], c[1], c[2]);
        double x, y, u, v, u0, v0, u1, v1, u2, v2;
        chroma(c, x, y); uvof(x, y, u, v);
        uvof(polyx(T), polyy(T), u0, v0);
        uvof(polyx(T - 0.5), polyy(T - 0.5), u1, v1); uvof(polyx(T + 0.5), polyy(T + 0.5), u2, v2);
        const double tx = u1 - u2, ty = v1 - v2, tn = std::hypot(tx, ty); // towards lower temperature
        const double du = u - u0, dw = v - v0, along = (du * tx + dw * ty) / tn, across = (-du * ty + dw * tx) / tn;
        if (k.verbose) k.note("T=%g Duv=%g: offset along the locus %.3g, across %.6g", T, dv, along, across);
        k.eq("luminance", c[1], Y);
        k.near("distance from the locus point", std::hypot(du, dw), std::fabs(dv), 6e-6);
        // the library's unit tangent is a float difference over 1 K
        const double ang = 6e-7 / tn + 2e-3;
        k.near("offset along the locus", along, 0, std::fabs(dv) * ang + 4e-6);
        k.near("offset across the locus", across, dv, std::fabs(dv) * std::min(2.0, ang * ang) + 6e-6);
        if (std::fabs(dv) >= 1e-3f) k.ok(dv > 0 ? dw * (tx > 0 ? 1 : -1) > 0 : dw * (tx > 0 ? 1 : -1) < 0, "positive offsets lie above the locus");
    });
    static std::vector<float> LY = {0.01f, 0.02f, 0.05f, 0.1f, 0.17f, 0.3f, 0.5f, 0.8f, 0.99f, 1.01f, 2.f, 5.f, 10.f, 12.f, 48.f, 80.f, 99.f, 101.f, 200.f, 255.f, 300.f, 600.f, 1000.f, 4000.f, 1e4f, 1e6f, 1e-4f, 1e-6f};
    ex.add("luminances", "28 luminances from 1e-6 to 1e6 x temperatures on a 10 K grid x polynomial, spline and Duv forms: the luminance is the requested one and the chromaticity does not depend on it", LY.size() * 2334 * 3, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed m(i);
        const float Y = m.of(LY);
        const int f = (int)m.pick(3);
        const float T = (f == 1 ? 1667.f : 1000.f) + 10.f * m.pick(2334);
        if (f != 1 && T > 10000.f) return k.skip();
        if (f < 2) return one(f == 1, k, T, std::nextafterf(T, 1e9f), Y);
        for (float dv : {-0.01f, 0.f, 0.004f})
        {
            const T3 c = T3::fromCCT(T, dv, Y), b = T3::fromCCT(T, dv, 1.f);
            k.call(2); k.outf(c[0], c[1]);
            if (k.verbose) k.note("T=%g Duv=%g Y=%g: (%.9g, %.9g, %.9g), at Y=1 (%.9g, %.9g, %.9g)", T, dv, Y, c[0], c[1], c[2], b[0], b[1], b[2]);
            for (int j = 0; j < 3; j++) k.near("XYZ scale with the luminance", c[j], (double)b[j] * Y, j == 1 ? 0 : 4e-6 * Y);
        }
    });
    ex.vary("after-other-arguments", {{1700.f, 1.f}, {2500.f, 1.f}, {4500.f, 0.5f}, {6504.f, 100.f}, {9000.f, 2.f}}, [=](mc::Ctx &k, const float *a) {
        const float T = std::min(9990.f, std::max(1670.f, a[0])), Y = std::fabs(a[1]);
        one(false, k, T, std::nextafterf(T, 1e9f), Y);
        if (!k.bad) one(true, k, T, std::nextafterf(T, 1e9f), Y);
    });
    ex.vary("duv-after-other-arguments", {{1700.f, 0.01f, 1.f}, {2500.f, -0.005f, 1.f}, {4500.f, 0.003f, 0.5f}, {6504.f, 0.f, 100.f}}, [=](mc::Ctx &k, const float *a) {
        const float T = std::min(9990.f, std::max(1010.f, a[0])), Y = std::fabs(a[2]), dv = std::min(0.05f, std::max(-0.05f, a[1]));
        const T3 c = T3::fromCCT(T, dv, Y);
        k.call(); k.outf(c[0], c[1]);
        double x, y, u, v, u0, v0;
        chroma(c, x, y); uvof(x, y, u, v); uvof(polyx(T), polyy(T), u0, v0);
        k.eq("luminance", c[1], Y);
        k.near("distance from the locus point", std::hypot(u - u0, v - v0), std::fabs(dv), 6e-6);
        if (std::fabs(dv) >= 1e-3f) k.ok((v > v0) == (dv > 0), "positive offsets lie above the locus");
    });
}
MC_MAIN(setup)
