// C15: Bradford chromatic adaptation.
#include "ref.hpp"
using namespace ref;
typedef CS::Tristimulus T3;
typedef CS::Matrix3 MX;
static std::vector<D3> W;
static void pr(mc::Ctx &k, const D3 &a, const D3 &b)
{
    const T3 ta = tri(a), tb = tri(b);
    const D3 A = d3(ta), B = d3(tb);
    const D3 la = mul(BRADFORD, A), lb = mul(BRADFORD, B);
    const double ma = std::min(la[0], std::min(la[1], la[2])) / maxabs(A), mb = std::min(lb[0], std::min(lb[1], lb[2])) / maxabs(B);
    if (ma < 0.02 || mb < 0.02) return k.skip(); // cone responses not (clearly) positive
    const MX m = CS::Bradford(ta, tb);
    const M3 w = bradford(A, B);
    const double s = normInf(w), e = 1.2e-6 / ma + 1.2e-6 / mb;
    k.call(); k.outf(m[0], m[4], m[8]);
    if (k.verbose) k.note("white (%g, %g, %g) to (%g, %g, %g): [%g %g %g; %g %g %g; %g %g %g]", A[0], A[1], A[2], B[0], B[1], B[2], m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8]);
    for (int j = 0; j < 9; j++) k.near("Bradford matrix", m[j], w.m[j], e * s);
    const T3 r = ta.apply(m);
    for (int j = 0; j < 3; j++) k.near("source white maps to destination white", r[j], B[j], 2 * e * s * maxabs(A));
    const MX bk = CS::Bradford(tb, ta), id = bk.mul(m);
    k.call();
    for (int j = 0; j < 9; j++) k.near("swapped arguments give the inverse", id[j], j % 4 == 0, 3 * e * s * normInf(inv(w)));
    for (float q : {0.01f, 7.f, 100.f})
    {
        const MX z = CS::Bradford(ta * q, tb * q);
        k.call();
        for (int j = 0; j < 9; j++) k.near("independent of common intensity", z[j], m[j], 2 * e * s);
    }
}
void setup(mc::Explorer &ex)
{
    for (const T3 *t : {&CS::Illuminant_A, &CS::Illuminant_B, &CS::Illuminant_C, &CS::Illuminant_D50, &CS::Illuminant_D55, &CS::Illuminant_D60, &CS::Illuminant_D65, &CS::Illuminant_D75, &CS::Illuminant_E, &CS::Illuminant_F2, &CS::Illuminant_F7, &CS::Illuminant_F11}) W.push_back(d3(*t));
    const int n = ex.thorough ? 40 : 22;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) W.push_back(Yxy_to_xyz(D3{{(i + j) % 3 == 0 ? 1.0 : (i + j) % 3 == 1 ? 100.0 : 0.18, 0.12 + 0.48 * i / (n - 1), 0.12 + 0.48 * j / (n - 1)}}));
    const uint64_t N = W.size();
    ex.add("pairs", "all ordered pairs of whites (12 illuminants and a chromaticity grid at three luminances)", N * N, [=](mc::Ctx &k, uint64_t i) { pr(k, W[i % N], W[i / N]); });
    ex.add("identity", "every white adapted to itself", N, [=](mc::Ctx &k, uint64_t i) {
        const D3 l = mul(BRADFORD, W[i]);
        if (std::min(l[0], std::min(l[1], l[2])) < 0.02 * maxabs(W[i])) return k.skip();
        const MX m = CS::Bradford(tri(W[i]), tri(W[i]));
        k.call(); k.outf(m[0], m[1]);
        for (int j = 0; j < 9; j++) k.near("identity", m[j], j % 4 == 0, 4e-6);
    });
    const uint64_t M = ex.thorough ? 160 : 60;
    static std::vector<D3> S;
    for (uint64_t i = 0; i < M; i++) S.push_back(i < 12 ? W[i] : W[12 + (i - 12) * (N - 12) / (M - 12)]);
    ex.add("compose", "all ordered triples of a subset of whites: A to B to C equals A to C", M * M * M, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const D3 &a = d.of(S), &b = d.of(S), &c = d.of(S);
        double mn = 1e9;
        for (const D3 *p : {&a, &b, &c}) { const D3 l = mul(BRADFORD, *p); mn = std::min(mn, std::min(l[0], std::min(l[1], l[2])) / maxabs(*p)); }
        if (mn < 0.02) return k.skip();
        const MX ab = CS::Bradford(tri(a), tri(b)), bc = CS::Bradford(tri(b), tri(c)), ac = CS::Bradford(tri(a), tri(c)), p = bc.mul(ab);
        k.call(3); k.outf(p[0], p[4], p[8]);
        const double t = 8e-6 / mn * normInf(m3(ab)) * normInf(m3(bc));
        for (int j = 0; j < 9; j++) k.near("A to B to C against A to C", p[j], ac[j], t);
    });
    ex.vary("after-other-arguments", {{0.9642f, 1.f, 0.8249f, 0.95047f, 1.f, 1.08883f}, {1.0985f, 1.f, 0.35585f, 0.9642f, 1.f, 0.8249f}, {95.f, 100.f, 108.f, 96.f, 100.f, 82.f}, {1.f, 1.f, 1.f, 0.95f, 1.f, 1.1f}}, [=](mc::Ctx &k, const float *a) {
        for (int j = 0; j < 6; j++) if (a[j] <= 0) return;
        pr(k, D3{{a[0], a[1], a[2]}}, D3{{a[3], a[4], a[5]}});
    }, [](const float *a) { volatile float z = CS::Bradford(T3(a[0], a[1], a[2]), T3(a[3], a[4], a[5]))[0]; (void)z; });
    static const std::vector<float> SC = {1e-8f, 1e-4f, 0.01f, 0.18f, 1.f, 3.f, 10.f, 80.f, 100.f, 255.f, 1000.f, 10000.f, 1e6f, 1e9f};
    ex.add("intensities", "all ordered pairs of the 12 illuminants x all ordered pairs of 14 intensities", 144 * SC.size() * SC.size(), [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        D3 a = W[d.pick(12)], b = W[d.pick(12)];
        const double s = d.of(SC), t = d.of(SC);
        for (int j = 0; j < 3; j++) { a[j] *= s; b[j] *= t; }
        pr(k, a, b);
    });
}
MC_MAIN(setup)
