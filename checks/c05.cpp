// C05: XYZ <-> Yxy <-> Yuv.
#include "ref.hpp"
using namespace ref;
typedef CS::Tristimulus T3;
static void formsEq(mc::Ctx &k, const char *w, const T3 &a, const T3 &b)
{
    for (int i = 0; i < 3; i++)
        if (!(std::fabs((double)a[i] - b[i]) <= 1e-6 * std::fabs((double)a[i]) || (std::isnan(a[i]) && std::isnan(b[i])) || a[i] == b[i]))
            return k.fail("%s: overloads disagree (%.9g vs %.9g in component %d)", w, a[i], b[i], i);
}
static void check(mc::Ctx &k, float X, float Y, float Z)
{
    const D3 c = {{X, Y, Z}};
    const double S = c[0] + c[1] + c[2], A = std::fabs(c[0]) + std::fabs(c[1]) + std::fabs(c[2]);
    const T3 in(X, Y, Z);
    if (std::fabs(S) < 1.02e-8 + 4e-7 * A && std::fabs(S) > 0.98e-8 - 4e-7 * A) return k.skip(); // decision threshold within rounding
    const T3 q = T3::toYxy(in);
    formsEq(k, "toYxy", q, in.toYxy()); formsEq(k, "toYxy", q, T3::toYxy(X, Y, Z));
    const T3 uv = T3::toYuv(in);
    formsEq(k, "toYuv", uv, in.toYuv()); formsEq(k, "toYuv", uv, T3::toYuv(X, Y, Z));
    k.call(6); k.outf(q[1], q[2], uv[1]);
    if (k.verbose) k.note("XYZ (%.9g, %.9g, %.9g) -> Yxy (%.9g, %.9g, %.9g), Yuv (%.9g, %.9g, %.9g)", X, Y, Z, q[0], q[1], q[2], uv[0], uv[1], uv[2]);
    k.eq("Y passes through Yxy", q[0], Y);
    k.eq("Y passes through Yuv", uv[0], Y);
    if (std::fabs(S) < 1e-8)
    {
        k.near("x of black", q[1], 0.3127, 1e-7);
        k.near("y of black", q[2], 0.3290, 1e-7);
        k.near("u of black", uv[1], 4 * 0.3127 / (-2 * 0.3127 + 12 * 0.329 + 3), 3e-7);
        k.near("v of black", uv[2], 6 * 0.3290 / (-2 * 0.3127 + 12 * 0.329 + 3), 3e-7);
        return;
    }
    const double cond = A / std::fabs(S);
    if (cond > 30) return k.skip();
    const D3 w = xyz_to_Yxy(c);
    const double tc = 8e-7 * cond * std::max(1.0, std::max(std::fabs(w[1]), std::fabs(w[2])));
    k.near("x", q[1], w[1], tc);
    k.near("y", q[2], w[2], tc);
    // intensity does not matter
    for (float s : {0.25f, 3.f, 1000.f})
    {
        if (std::fabs(S) * s < 1.1e-8 || A * s > 1e30) continue;
        const T3 q2 = T3::toYxy(T3(X * s, Y * s, Z * s));
        k.near("x at another intensity", q2[1], q[1], 2 * tc);
        k.near("y at another intensity", q2[2], q[2], 2 * tc);
    }
    const double den = c[0] + 15 * c[1] + 3 * c[2], dcond = (std::fabs(c[0]) + 15 * std::fabs(c[1]) + 3 * std::fabs(c[2])) / std::fabs(den);
    const bool uvok = dcond < 30 && std::fabs(den) > 0.05 * A;
    if (uvok)
    {
        const D3 wu = xyz_to_Yuv(c);
        const double tu = 1.5e-6 * cond * dcond * std::max(1.0, std::max(std::fabs(wu[1]), std::fabs(wu[2])));
        k.near("u", uv[1], wu[1], tu);
        k.near("v", uv[2], wu[2], tu);
    }
    if (std::fabs(c[1]) < 1e-3 * A) return; // luminance negligible: no way back
    const T3 r = T3::fromYxy(q);
    formsEq(k, "fromYxy", r, q.fromYxy()); formsEq(k, "fromYxy", r, T3::fromYxy(q[0], q[1], q[2]));
    const double tr = 2.5e-6 * A * cond * A / std::fabs(c[1]);
    for (int i = 0; i < 3; i++) k.near("round trip XYZ->Yxy->XYZ", r[i], c[i], i == 1 ? 0 : tr);
    if (uvok)
    {
        const T3 r2 = T3::fromYuv(uv);
        formsEq(k, "fromYuv", r2, uv.fromYuv()); formsEq(k, "fromYuv", r2, T3::fromYuv(uv[0], uv[1], uv[2]));
        for (int i = 0; i < 3; i++) k.near("round trip XYZ->Yuv->XYZ", r2[i], c[i], i == 1 ? 0 : tr * 4 * dcond * std::max(1.0, A / std::fabs(den)));
    }
    k.call(6);
}
void setup(mc::Explorer &ex)
{
    static std::vector<float> V;
    for (float f : {0.f, 1.f, 0.95047f, 1.08883f, 0.18f, 100.f, 1e-9f, 3e-9f, 5e-9f, 1.2e-8f, 1e-7f, 1e-5f, 1e-3f, 1e4f, 1e-12f}) V.push_back(f);
    const int n = ex.thorough ? 180 : 90;
    for (int i = 0; i < n; i++) V.push_back((float)std::exp(std::log(1e-6) + (std::log(2e2) - std::log(1e-6)) * i / (n - 1)));
    for (int i = 1; i < n; i++) V.push_back((float)i / n + 0.001f);
    for (float f : {0.02f, 0.3f, 1.f, 5e-9f, 1e-4f}) V.push_back(-f);
    const uint64_t m = V.size();
    ex.add("lattice", "XYZ triples of a lattice: zeros, thresholds, log and linear spacing, negatives, HDR", m * m * m, [=](mc::Ctx &k, uint64_t i) { mc::Mixed d(i); const float X = d.of(V), Y = d.of(V), Z = d.of(V); check(k, X, Y, Z); });
    static FloatLattice L{-34, 20, ex.thorough ? 20 : 16};
    for (int ax = 0; ax < 3; ax++)
        ex.add((std::string("axis") + "XYZ"[ax]).c_str(), "one component swept over the float lattice, the others from three backgrounds", L.n() * 3, [=](mc::Ctx &k, uint64_t i) {
            static const float bg[3][3] = {{0.3f, 0.4f, 0.2f}, {1e-3f, 2e-3f, 5e-3f}, {20.f, 30.f, 10.f}};
            float c[3] = {bg[i % 3][0], bg[i % 3][1], bg[i % 3][2]};
            c[ax] = L.at(i / 3);
            check(k, c[0], c[1], c[2]);
        });
    // from chromaticities
    static std::vector<float> ys = {0.f, 5e-9f, -5e-9f, 9e-9f, 1.1e-8f, -1.1e-8f, 1e-6f, 1e-4f}, Ys = {0.f, 1.f, 0.18f, 100.f, 1e-4f, 1e4f, -0.5f, 1e-9f, 1e12f};
    const int g = ex.thorough ? 400 : 160;
    for (int i = 0; i <= g; i++) ys.push_back((float)i / g * 1.0f);
    for (int i = 1; i < 20; i++) ys.push_back(-(float)i / 40);
    for (float f : {1.0001f, 1.01f, 1.2f, 1.5f, 2.f, 5.f, 40.f, 1e3f, -1.f, -3.f}) ys.push_back(f);
    ex.add("fromYxy", "every (Y, x, y) of the chromaticity lattice, including y near 0", Ys.size() * ys.size() * ys.size(), [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const float Y = d.of(Ys), x = d.of(ys), y = d.of(ys);
        const T3 r = T3::fromYxy(Y, x, y);
        k.call(); k.outf(r[0], r[1], r[2]);
        if (k.verbose) k.note("Yxy (%.9g, %.9g, %.9g) -> (%.9g, %.9g, %.9g)", Y, x, y, r[0], r[1], r[2]);
        formsEq(k, "fromYxy", r, T3(Y, x, y).fromYxy()); formsEq(k, "fromYxy", r, T3::fromYxy(T3(Y, x, y)));
        k.eq("Y", r[1], Y);
        k.ok(std::isfinite(r[0]) && std::isfinite(r[2]), "finite");
        if (std::fabs(y) < 0.99e-8) { k.eq("X for y=0", r[0], 0); k.eq("Z for y=0", r[2], 0); return; }
        const D3 w = Yxy_to_xyz(D3{{Y, x, y}});
        k.near("X", r[0], w[0], 1e-6 * std::fabs(w[0]));
        k.near("Z", r[2], w[2], 1e-6 * (std::fabs(w[2]) + std::fabs(Y / y) * (1 + std::fabs(x) + std::fabs(y))));
    });
    const uint64_t h = ex.thorough ? 700 : 250;
    ex.add("fromYuv", "every (Y, u, v) of the CIE 1960 lattice", Ys.size() * h * h, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const float Y = d.of(Ys), u = lin(d.pick(h), h, 0.0, 0.63), v = lin(d.pick(h), h, 0.002, 0.4);
        const T3 r = T3::fromYuv(Y, u, v), q = T3::YuvToYxy(T3(Y, u, v)), b = T3::YxyToYuv(q);
        k.call(3); k.outf(r[0], r[1], r[2]);
        const double den = 2.0 * u - 8.0 * v + 4, x = 3.0 * u / den, y = 2.0 * v / den;
        if (k.verbose) k.note("Yuv (%.9g, %.9g, %.9g) -> Yxy (%.9g, %.9g, %.9g)", Y, u, v, q[0], q[1], q[2]);
        k.near("x", q[1], x, 4e-6 * (std::fabs(x) + 0.01)); k.near("y", q[2], y, 4e-6 * (std::fabs(y) + 0.01));
        k.near("u back", b[1], u, 2e-5 * u + 1e-7); k.near("v back", b[2], v, 2e-5 * v + 1e-7);
        k.eq("Y", q[0], Y); k.eq("Y", b[0], Y); k.eq("Y", r[1], Y);
        const D3 w = Yxy_to_xyz(D3{{Y, x, y}});
        for (int j = 0; j < 3; j++) k.near("XYZ", r[j], w[j], 1e-5 * (std::fabs(w[j]) + std::fabs(Y / y)));
    });
    static std::vector<float> us = {0.f, 1e-4f, 0.01f, 0.05f, 0.1f, 0.1978f, 0.25f, 0.3122f, 0.4f, 0.4996f, 0.5001f, 0.55f, 0.6f, 0.624f, 0.65f, 0.7f, 0.8f, 0.999f, 1.f, 1.001f, 1.5f, 2.f, 3.f, 10.f};
    for (int i = 1; i <= (ex.thorough ? 120 : 40); i++) { us.push_back(i / (ex.thorough ? 100.f : 33.f)); us.push_back(-i / (ex.thorough ? 100.f : 33.f)); }
    ex.add("uv-wide", "chromaticity pairs far outside the spectrum locus, negative ones included: xy -> uv -> xy and uv -> xy -> uv against the CIE formulas", 2 * us.size() * us.size(), [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const bool toUv = d.pick(2);
        const double a = d.of(us), b = d.of(us);
        const double mag = toUv ? 2 * std::fabs(a) + 12 * std::fabs(b) + 3 : 2 * std::fabs(a) + 8 * std::fabs(b) + 4, den = toUv ? -2 * a + 12 * b + 3 : 2 * a - 8 * b + 4;
        if (std::fabs(den) < 0.02 * mag) return k.skip();
        const T3 in(0.37f, (float)a, (float)b), o = toUv ? T3::YxyToYuv(in) : T3::YuvToYxy(in), r = toUv ? T3::YuvToYxy(o) : T3::YxyToYuv(o);
        const double p = (toUv ? 4 : 3) * a / den, q = (toUv ? 6 : 2) * b / den, c = mag / std::fabs(den);
        k.call(2); k.outf(o[1], o[2]);
        if (k.verbose) k.note("%s (%.9g, %.9g) -> (%.9g, %.9g) -> (%.9g, %.9g)", toUv ? "xy" : "uv", in[1], in[2], o[1], o[2], r[1], r[2]);
        k.near("first coordinate", o[1], p, 1e-6 * c * std::fabs(p)); k.near("second coordinate", o[2], q, 1e-6 * c * std::fabs(q));
        k.eq("Y", o[0], 0.37f); k.eq("Y", r[0], 0.37f);
        const double den2 = toUv ? 2 * p - 8 * q + 4 : -2 * p + 12 * q + 3, mag2 = toUv ? 2 * std::fabs(p) + 8 * std::fabs(q) + 4 : 2 * std::fabs(p) + 12 * std::fabs(q) + 3, c2 = mag2 / std::fabs(den2);
        if (c2 > 100) return;
        k.near("first coordinate back", r[1], a, 3e-6 * c * c2 * (std::fabs(a) + 1e-7)); k.near("second coordinate back", r[2], b, 3e-6 * c * c2 * (std::fabs(b) + 1e-7));
    });
    ex.vary("after-other-arguments", {{0.3f, 0.4f, 0.2f}, {0.95f, 1.f, 1.09f}, {50.f, 40.f, 30.f}, {1e-3f, 2e-3f, 1e-3f}, {0.6f, 0.3f, 0.1f}}, [=](mc::Ctx &k, const float *a) { check(k, a[0], a[1], a[2]); }, [](const float *a) { const T3 c(a[0], a[1], a[2]); volatile float z = c.toYxy()[1] + c.toYuv()[1] + c.fromYxy()[0] + c.fromYuv()[0]; (void)z; });
    static const std::vector<float> SH = {0.f, 0.03f, 0.1f, 0.2f, 0.33f, 0.5f, 0.77f, 1.f, 1.6f, 3.f, -0.04f, -0.2f};
    ex.add("intensities", "colour shapes at every power of two from 2^-26 to 2^96: chromaticities and round trips do not depend on intensity", SH.size() * SH.size() * SH.size() * 123, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const float a = d.of(SH), b = d.of(SH), c = d.of(SH), s = std::ldexp(1.1f, (int)d.pick(123) - 26);
        check(k, a * s, b * s, c * s);
    });
}
MC_MAIN(setup)
