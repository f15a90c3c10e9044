// C17: CIEDE2000.
#include "ref.hpp"
using namespace ref;
typedef CS::Tristimulus T3;
static void pairCase(mc::Ctx &k, const T3 &a, const T3 &b, const float *w = nullptr, bool swap = true)
{
    const float  d  = w ? CS::Delta::E00(a, b, w[0], w[1], w[2]) : CS::Delta::E00(a, b);
    const double kl = w ? w[0] : 1, kc = w ? w[1] : 1, kh = w ? w[2] : 1;
    k.call(); k.outf(d);
    if (k.verbose) k.note("E00 of (%.9g, %.9g, %.9g) and (%.9g, %.9g, %.9g), weights %.4g %.4g %.4g = %.9g", a[0], a[1], a[2], b[0], b[1], b[2], kl, kc, kh, d);
    if (!k.ok(d >= 0 && std::isfinite(d), "difference finite and not negative")) return;
    double       amb, amb2;
    const double r = ciede2000(d3(a), d3(b), kl, kc, kh, false, amb);
    const double C = std::max(std::hypot(a[1], a[2]), std::hypot(b[1], b[2]));
    // component errors: hue from two rounded angles of up to 360 degrees, chroma and lightness relative
    const double tol = 1.2e-5 * r + (6e-6 * C + 2e-7) / std::min(kc, kh) * 1.0 / (1 + 0.015 * C) + 2e-7 * std::max(std::fabs(a[0]), std::fabs(b[0])) / kl;
    double other = r;
    if (amb < 2e-3) other = ciede2000(d3(a), d3(b), kl, kc, kh, true, amb2);
    if (std::fabs(d - other) < std::fabs(d - r))
        k.near("E00 (hues 180 degrees apart, other side)", d, other, tol);
    else
        k.near("E00", d, r, tol);
    if (a[0] == b[0] && a[1] == b[1] && a[2] == b[2]) k.eq("difference of identical colours", d, 0);
    if (swap)
    {
        const float e = w ? CS::Delta::E00(b, a, w[0], w[1], w[2]) : CS::Delta::E00(b, a);
        k.call();
        if (amb >= 2e-3) k.near("symmetry", e, d, 2 * tol);
        else k.ok(e >= 0 && std::isfinite(e), "swapped difference finite");
    }
}
void setup(mc::Explorer &ex)
{
    const bool th = ex.thorough;
    static std::vector<float> L = {0.f, 50.f, 100.f, 30.f, 71.5f};
    static std::vector<float> A = {0.f, 1.f, -1.f, 10.f, -10.f, 60.f, -60.f, 128.f, -128.f, 0.01f, -0.01f, 25.f, -25.f, 2.6772f, -79.7751f, 1e-4f};
    if (th) for (float f : {5.f, -5.f, 33.3f, -90.f, 90.f, -1e-6f}) A.push_back(f);
    const uint64_t l = L.size(), n = A.size();
    ex.add("pairs", "all pairs of L*a*b* colours of a signed lattice, default weights, both orders", l * l * n * n * n * n, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const float a = d.of(A), b = d.of(A), c = d.of(A), e = d.of(A), x = d.of(L), y = d.of(L);
        pairCase(k, T3(x, a, b), T3(y, c, e));
    });
    // hue circle: every pair of hues on a fine circle, for several chroma combinations
    static std::vector<float> C = {0.5f, 5.f, 25.f, 40.f, 70.f, 120.f};
    const uint64_t H = th ? 1440 : 720, cn = C.size();
    ex.add("hue-circle", "every pair of hues on a circle (half-degree steps, thorough quarter-degree), all chroma combinations: wrap-around, mean hue, rotation term", H * H * cn * cn, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const double g = d.pick(H) * 2 * M_PI / H, h = d.pick(H) * 2 * M_PI / H;
        const float  c = d.of(C), e = d.of(C);
        pairCase(k, T3(60.f, (float)(c * std::cos(g)), (float)(c * std::sin(g))), T3(55.f, (float)(e * std::cos(h)), (float)(e * std::sin(h))));
    });
    // hue pairs about 0/360 and about 180 apart, in thousandths of a degree
    const int M = th ? 400 : 150;
    ex.add("hue-seams", "hues within +-1.5 degrees of 0/360 and of opposite, in 0.01 degree steps", (uint64_t)(2 * M + 1) * (2 * M + 1) * 2 * 3, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const double g = ((double)d.pick(2 * M + 1) - M) * 0.01, h = ((double)d.pick(2 * M + 1) - M) * 0.01 + (d.pick(2) ? 180 : 0);
        const float  c = C[d.pick(3) + 1];
        pairCase(k, T3(40, (float)(c * std::cos(g * M_PI / 180)), (float)(c * std::sin(g * M_PI / 180))), T3(45, (float)(30 * std::cos(h * M_PI / 180)), (float)(30 * std::sin(h * M_PI / 180))));
    });
    static std::vector<float> W = {1.f, 2.f, 0.5f, 4.f, 0.1f, 1.05f, 0.95f, 10.f, 1.5f};
    static std::vector<float> B = {0.f, 12.f, -12.f, 55.f, -90.f, 100.f};
    const uint64_t w = W.size(), bn = B.size();
    ex.add("weights", "all weight triples x pairs of lattice colours", w * w * w * bn * bn * bn * bn * 3, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const float q[3] = {d.of(W), d.of(W), d.of(W)};
        const float a = d.of(B), b = d.of(B), c = d.of(B), e = d.of(B);
        const int   dl = (int)d.pick(3);
        pairCase(k, T3(50.f, a, b), T3(50.f + dl * 15.f, c, e), q);
    });
    ex.add("weights-partial", "defaulted trailing weights equal 1", w * bn * bn * bn * bn, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const float q = d.of(W), a = d.of(B), b = d.of(B), c = d.of(B), e = d.of(B);
        const T3 x(30, a, b), y(75, c, e);
        k.eq("E00(a,b,Kl)", CS::Delta::E00(x, y, q), CS::Delta::E00(x, y, q, 1.f, 1.f));
        k.eq("E00(a,b,Kl,Kc)", CS::Delta::E00(x, y, 2.f, q), CS::Delta::E00(x, y, 2.f, q, 1.f));
        k.eq("E00(a,b)", CS::Delta::E00(x, y), CS::Delta::E00(x, y, 1.f, 1.f, 1.f));
        k.call(6);
    });
    // lightness axis and chroma axis finely
    static Domain D;
    D.lattice(-20, 7, th ? 16 : 13);
    D.neglattice(-20, 7, th ? 16 : 13);
    const uint64_t dn = D.n();
    ex.add("fine", "one component of one colour over a fine float lattice against four partners", dn * 3 * 4, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int j = (int)d.pick(3), b = (int)d.pick(4);
        float v = D.at(d.v);
        if (j == 0 && !(v >= 0 && v <= 100)) return k.skip();
        static const float P[4][3] = {{50, 0, 0}, {50, 2.5f, 0}, {73, 25, -18}, {61.4292f, 2.248f, -31.9f}};
        const T3 q(P[b][0], P[b][1], P[b][2]);
        float c[3] = {P[(b + 1) & 3][0], P[(b + 1) & 3][1], P[(b + 1) & 3][2]};
        c[j] = v;
        pairCase(k, T3(c[0], c[1], c[2]), q);
        c[0] = P[b][0]; c[1] = P[b][1]; c[2] = P[b][2]; c[j] = v;
        pairCase(k, T3(c[0], c[1], c[2]), q);
    });
    // Sharma, Wu, Dalal's 34 published test pairs
    static const double S[34][7] = {
        {50.0000, 2.6772, -79.7751, 50.0000, 0.0000, -82.7485, 2.0425}, {50.0000, 3.1571, -77.2803, 50.0000, 0.0000, -82.7485, 2.8615},
        {50.0000, 2.8361, -74.0200, 50.0000, 0.0000, -82.7485, 3.4412}, {50.0000, -1.3802, -84.2814, 50.0000, 0.0000, -82.7485, 1.0000},
        {50.0000, -1.1848, -84.8006, 50.0000, 0.0000, -82.7485, 1.0000}, {50.0000, -0.9009, -85.5211, 50.0000, 0.0000, -82.7485, 1.0000},
        {50.0000, 0.0000, 0.0000, 50.0000, -1.0000, 2.0000, 2.3669}, {50.0000, -1.0000, 2.0000, 50.0000, 0.0000, 0.0000, 2.3669},
        {50.0000, 2.4900, -0.0010, 50.0000, -2.4900, 0.0009, 7.1792}, {50.0000, 2.4900, -0.0010, 50.0000, -2.4900, 0.0010, 7.1792},
        {50.0000, 2.4900, -0.0010, 50.0000, -2.4900, 0.0011, 7.2195}, {50.0000, 2.4900, -0.0010, 50.0000, -2.4900, 0.0012, 7.2195},
        {50.0000, -0.0010, 2.4900, 50.0000, 0.0009, -2.4900, 4.8045}, {50.0000, -0.0010, 2.4900, 50.0000, 0.0010, -2.4900, 4.8045},
        {50.0000, -0.0010, 2.4900, 50.0000, 0.0011, -2.4900, 4.7461}, {50.0000, 2.5000, 0.0000, 50.0000, 0.0000, -2.5000, 4.3065},
        {50.0000, 2.5000, 0.0000, 73.0000, 25.0000, -18.0000, 27.1492}, {50.0000, 2.5000, 0.0000, 61.0000, -5.0000, 29.0000, 22.8977},
        {50.0000, 2.5000, 0.0000, 56.0000, -27.0000, -3.0000, 31.9030}, {50.0000, 2.5000, 0.0000, 58.0000, 24.0000, 15.0000, 19.4535},
        {50.0000, 2.5000, 0.0000, 50.0000, 3.1736, 0.5854, 1.0000}, {50.0000, 2.5000, 0.0000, 50.0000, 3.2972, 0.0000, 1.0000},
        {50.0000, 2.5000, 0.0000, 50.0000, 1.8634, 0.5757, 1.0000}, {50.0000, 2.5000, 0.0000, 50.0000, 3.2592, 0.3350, 1.0000},
        {60.2574, -34.0099, 36.2677, 60.4626, -34.1751, 39.4387, 1.2644}, {63.0109, -31.0961, -5.8663, 62.8187, -29.7946, -4.0864, 1.2630},
        {61.2901, 3.7196, -5.3901, 61.4292, 2.2480, -4.9620, 1.8731}, {35.0831, -44.1164, 3.7933, 35.0232, -40.0716, 1.5901, 1.8645},
        {22.7233, 20.0904, -46.6940, 23.0331, 14.9730, -42.5619, 2.0373}, {36.4612, 47.8580, 18.3852, 36.2715, 50.5065, 21.2231, 1.4146},
        {90.8027, -2.0831, 1.4410, 91.1528, -1.6435, 0.0447, 1.4441}, {90.9257, -0.5406, -0.9208, 88.6381, -0.8985, -0.7239, 1.5381},
        {6.7747, -0.2908, -2.4247, 5.8714, -0.0985, -2.2286, 0.6377}, {2.0776, 0.0795, -1.1350, 0.9033, -0.0636, -0.5514, 0.9082}};
    ex.add("sharma", "the 34 published CIEDE2000 test pairs (also binds the reference model itself)", 34, [](mc::Ctx &k, uint64_t i) {
        const double *s = S[i];
        double        amb, amb2;
        const double  m0 = ciede2000(D3{{s[0], s[1], s[2]}}, D3{{s[3], s[4], s[5]}}, 1, 1, 1, false, amb);
        k.near("reference model", m0, s[6], 5.1e-5);
        const float f = CS::Delta::E00(T3((float)s[0], (float)s[1], (float)s[2]), T3((float)s[3], (float)s[4], (float)s[5]));
        k.call(); k.outf(f);
        if (amb < 2e-3)
        {
            const double m1 = ciede2000(D3{{s[0], s[1], s[2]}}, D3{{s[3], s[4], s[5]}}, 1, 1, 1, true, amb2);
            k.ok(std::fabs(f - m0) < 1e-4 || std::fabs(f - m1) < 1e-4, "published value (either side of an exactly opposite hue)");
        }
        else
            k.near("E00", f, s[6], 1e-4);
    });
    static const std::vector<float> LW = {-20.f, -1e-3f, 0.f, 3.f, 50.f, 99.f, 100.001f, 115.f, 180.f, 400.f, 2000.f}, AW = {0.f, 3.f, -3.f, 90.f, -140.f, 200.f, -260.f, 500.f, -900.f, 2000.f};
    ex.add("wide", "all pairs of colours with lightness from -20 to 2000 and chroma to 2800", LW.size() * LW.size() * 10000, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const float a = d.of(AW), b = d.of(AW), c = d.of(AW), e = d.of(AW), x = d.of(LW), y = d.of(LW);
        pairCase(k, T3(x, a, b), T3(y, c, e));
    });
    static const std::vector<float> DV = {0.f, 1e-4f, -1e-4f, 2e-3f, -2e-3f, 0.03f, -0.03f, 0.2f, -0.2f, 0.7f, -0.7f, 1.5f, -1.5f}, BL = {0.f, 1.f, 20.f, 50.f, 85.f, 99.f}, BA = {0.f, 1.f, -1.f, 7.f, -15.f, 40.f, -40.f, 95.f, -95.f};
    ex.add("nearby", "every base colour of a lattice and every small displacement of it (0, 1e-4 .. 1.5 in each component)", BL.size() * BA.size() * BA.size() * 2197, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const float x = d.of(BL), a = d.of(BA), b = d.of(BA), p = d.of(DV), q = d.of(DV), r = d.of(DV);
        pairCase(k, T3(x, a, b), T3(x + p, a + q, b + r));
    });
    ex.vary("after-other-arguments", {{50.f, 10.f, -20.f, 52.f, 12.f, -17.f, 1.f, 1.f, 1.f}, {73.f, 25.f, -18.f, 50.f, 2.5f, 0.f, 2.f, 1.f, 1.f}, {22.f, -0.5f, 3.f, 23.f, -0.3f, 2.f, 1.f, 0.5f, 3.f}}, [=](mc::Ctx &k, const float *a) {
        const float w[3] = {std::fabs(a[6]), std::fabs(a[7]), std::fabs(a[8])};
        pairCase(k, T3(a[0], a[1], a[2]), T3(a[3], a[4], a[5]), w);
        if (!k.bad) pairCase(k, T3(a[0], a[1], a[2]), T3(a[3], a[4], a[5]));
    }, [](const float *a) { volatile float z = CS::Delta::E00(T3(a[0], a[1], a[2]), T3(a[3], a[4], a[5]), std::fabs(a[6]), std::fabs(a[7]), std::fabs(a[8])); (void)z; });
}
MC_MAIN(setup)
