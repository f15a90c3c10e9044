// C06: CIELAB.
#include "ref.hpp"
using namespace ref;
typedef CS::Tristimulus T3;
static const float WH[][3] = {{0.9642f, 1.f, 0.8249f}, {0.95047f, 1.f, 1.08883f}, {1.0985f, 1.f, 0.35585f}, {1.f, 1.f, 1.f}, {96.42f, 100.f, 82.49f}, {0.3f, 0.5f, 2.f}, {0.01f, 0.02f, 0.015f}};
static const int NW = 7;
static void feq(mc::Ctx &k, const char *w, const T3 &a, const T3 &b, double s)
{
    for (int i = 0; i < 3; i++)
        if (!(std::fabs((double)a[i] - b[i]) <= 1e-6 * s)) return k.fail("%s: forms disagree (%.9g vs %.9g in component %d)", w, a[i], b[i], i);
}
static void fwd(mc::Ctx &k, const T3 &c, const T3 &w, bool dflt)
{
    const T3 lab = T3::toCIELAB(c, w), back = T3::fromCIELAB(lab, w);
    k.call(2); k.outf(lab[0], lab[1], lab[2]);
    feq(k, "toCIELAB", lab, c.toCIELAB(w), 500);
    if (dflt) { feq(k, "toCIELAB default white", lab, c.toCIELAB(), 500); feq(k, "fromCIELAB default white", back, lab.fromCIELAB(), 1); }
    feq(k, "fromCIELAB", back, lab.fromCIELAB(w), std::max(w[0], std::max(w[1], w[2])));
    const D3 r = xyz_to_lab(d3(c), d3(w));
    if (k.verbose) k.note("white (%g, %g, %g), XYZ (%.9g, %.9g, %.9g) -> Lab (%.9g, %.9g, %.9g) -> (%.9g, %.9g, %.9g)", w[0], w[1], w[2], c[0], c[1], c[2], lab[0], lab[1], lab[2], back[0], back[1], back[2]);
    k.near("L*", lab[0], r[0], 1.2e-4);
    k.near("a*", lab[1], r[1], 6e-4);
    k.near("b*", lab[2], r[2], 2.5e-4);
    for (int i = 0; i < 3; i++) k.near("round trip", back[i], std::min(c[i], w[i]), 8e-6 * w[i]);
}
void setup(mc::Explorer &ex)
{
    static std::vector<float> V = {0.f, 1.f, 216.f / 24389.f, 0.008856f, 0.0088565f, 0.00885f, 0.00886f, 0.1842f, 0.9999999f, 1.0000001f, 1.0001f, 1.5f, 40.f, 1e-6f, 1e-10f};
    const int n = ex.thorough ? 110 : 45;
    for (int i = 0; i < n; i++) V.push_back((float)std::exp(std::log(1e-4) * (1 - (double)i / n)));
    for (int i = 1; i < n; i++) V.push_back((float)i / n + 0.0007f);
    const uint64_t m = V.size();
    ex.add("forward", "white x ratio triple lattice, forward value and round trip, saturation above white", NW * m * m * m, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const float *w = WH[d.pick(NW)];
        const float a = d.of(V), b = d.of(V), c = d.of(V);
        fwd(k, T3(a * w[0], b * w[1], c * w[2]), T3(w[0], w[1], w[2]), w == WH[0]);
    });
    static FloatLattice L{-30, 2, ex.thorough ? 21 : 16};
    for (int ax = 0; ax < 3; ax++)
        ex.add((std::string("axis") + "XYZ"[ax]).c_str(), "one component over the float lattice, three backgrounds", L.n() * 3, [=](mc::Ctx &k, uint64_t i) {
            static const float bg[3][3] = {{0.3f, 0.4f, 0.2f}, {1e-3f, 2e-3f, 5e-3f}, {0.96f, 1.f, 0.8f}};
            float c[3] = {bg[i % 3][0], bg[i % 3][1], bg[i % 3][2]};
            c[ax] = L.at(i / 3);
            fwd(k, T3(c[0], c[1], c[2]), T3(0.9642f, 1.f, 0.8249f), true);
        });
    ex.add("white-black", "white -> (100,0,0) -> white and black -> (0,0,0) -> black for all whites", NW * 2, [=](mc::Ctx &k, uint64_t i) {
        const float *w = WH[i / 2];
        const T3 W(w[0], w[1], w[2]), c = i % 2 ? W : T3(0.f), lab = c.toCIELAB(W), b = lab.fromCIELAB(W);
        k.call(2); k.outf(lab[0], lab[1], lab[2]);
        k.near("L*", lab[0], i % 2 ? 100 : 0, 5e-5); k.near("a*", lab[1], 0, 1e-4); k.near("b*", lab[2], 0, 1e-4);
        for (int j = 0; j < 3; j++) k.near("back", b[j], c[j], 2e-6 * w[j]);
    });
    static const std::vector<float> SC = {1e-6f, 1e-3f, 0.05f, 0.3f, 0.5f, 0.99f, 1.01f, 2.f, 5.f, 9.9f, 11.f, 50.f, 80.f, 99.f, 101.f, 120.f, 255.f, 1000.f, 4000.f, 65535.f, 1e6f};
    static std::vector<float> VS = {0.f, 1.f, 216.f / 24389.f, 0.00885f, 0.00886f, 0.9999f, 1.0001f, 3.f, 1e-6f};
    for (int i = 0; i < (ex.thorough ? 40 : 14); i++) VS.push_back((float)std::exp(std::log(1e-4) * (1 - (double)i / (ex.thorough ? 40 : 14))));
    ex.add("white-intensity", "every white of the list at 21 intensities, uniformly and with only its Y scaled x ratio triples: forward value and round trip do not depend on the scale of the white", NW * SC.size() * 2 * VS.size() * VS.size() * VS.size(), [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const float a = d.of(VS), b = d.of(VS), c = d.of(VS);
        const float *w = WH[d.pick(NW)];
        const float s = d.of(SC), o = d.pick(2) ? 1.f : s;
        const T3 W(w[0] * o, w[1] * s, w[2] * o);
        fwd(k, T3(a * W[0], b * W[1], c * W[2]), W, false);
    });
    const uint64_t g = ex.thorough ? 161 : 81;
    ex.add("inverse", "white x (L*, a*, b*) lattice: inverse value, saturation at the white", 5 * g * g * g, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        static const float WI[5][3] = {{0.9642f, 1.f, 0.8249f}, {0.95047f, 1.f, 1.08883f}, {1.0985f, 1.f, 0.35585f}, {38.f, 40.f, 43.f}, {950.f, 1000.f, 1089.f}};
        const float *w = WI[d.pick(5)];
        const float Ls = lin(d.pick(g), g, 0, 110), a = lin(d.pick(g), g, -130, 130), b = lin(d.pick(g), g, -130, 130);
        const T3 lab(Ls, a, b), W(w[0], w[1], w[2]), x = T3::fromCIELAB(lab, W);
        k.call(); k.outf(x[0], x[1], x[2]);
        const D3 r = lab_to_xyz(d3(lab), d3(W));
        if (k.verbose) k.note("Lab (%.9g, %.9g, %.9g) -> (%.9g, %.9g, %.9g)", Ls, a, b, x[0], x[1], x[2]);
        for (int j = 0; j < 3; j++) k.near("XYZ", x[j], r[j], 5e-6 * w[j]);
    });
    static std::vector<float> AW;
    for (int i = -46; i <= 46; i++) { AW.push_back(10.f * i); AW.push_back(3.1f * i); }
    ex.add("inverse-wide", "(L*, a*, b*) far outside the usual box: inverse value, saturation at the white", 24 * AW.size() * AW.size(), [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        static const float LW[12] = {0.f, 0.01f, 1.f, 7.9f, 8.1f, 16.f, 50.f, 90.f, 99.9f, 100.f, 100.1f, 200.f};
        const T3 W = d.pick(2) ? T3(0.9642f, 1.f, 0.8249f) : T3(95.f, 100.f, 109.f);
        const T3 lab(LW[d.pick(12)], d.of(AW), d.of(AW)), x = T3::fromCIELAB(lab, W);
        k.call(); k.outf(x[0], x[1], x[2]);
        const D3 r = lab_to_xyz(d3(lab), d3(W));
        if (k.verbose) k.note("Lab (%.9g, %.9g, %.9g) -> (%.9g, %.9g, %.9g)", lab[0], lab[1], lab[2], x[0], x[1], x[2]);
        for (int j = 0; j < 3; j++) k.near("XYZ", x[j], r[j], 5e-6 * W[j] + 1e-6 * std::fabs(r[j]));
    });
    ex.vary("after-other-arguments", {{0.3f, 0.4f, 0.2f, 0.9642f, 1.f, 0.8249f}, {0.1f, 0.05f, 0.01f, 0.95047f, 1.f, 1.08883f}, {40.f, 50.f, 60.f, 95.f, 100.f, 109.f}, {0.001f, 0.002f, 0.005f, 1.f, 1.f, 1.f}}, [=](mc::Ctx &k, const float *a) {
        if (a[3] <= 0 || a[4] <= 0 || a[5] <= 0 || a[0] < 0 || a[1] < 0 || a[2] < 0) return;
        fwd(k, T3(a[0], a[1], a[2]), T3(a[3], a[4], a[5]), false);
    }, [](const float *a) { const T3 c(a[0], a[1], a[2]), w(a[3], a[4], a[5]); volatile float z = c.toCIELAB(w)[1] + T3::fromCIELAB(c.toCIELAB(w), w)[0]; (void)z; });
}
MC_MAIN(setup)
