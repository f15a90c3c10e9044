// C13: gamuts built from primaries and white, or from a matrix.
#include "ref.hpp"
using namespace ref;
typedef CS::Tristimulus T3;
typedef CS::Matrix3 MX;
static void chk(mc::Ctx &k, const float *p)
{
    Prim q;
    for (int i = 0; i < 8; i++) q.p[i] = p[i];
    M3 P;
    for (int j = 0; j < 3; j++) { P(0, j) = q.p[2 * j]; P(1, j) = q.p[2 * j + 1]; P(2, j) = 1 - q.p[2 * j] - q.p[2 * j + 1]; }
    const double area = std::fabs(det(P));
    if (area < 0.02) return k.skip(); // collinear or nearly so
    const double c1 = normInf(P) * normInf(inv(P));
    const M3 W = rgb_to_xyz(q);
    const double dW = det(W);
    if (!(std::fabs(dW) > 1e-4)) return k.skip(); // the white lies on a line through two primaries: no RGB basis
    const M3 WI = inv(W);
    const double c2 = normInf(W) * normInf(WI), nW = normInf(W), nI = normInf(WI);
    double colmin = 1e9; // a primary that carries almost no light cannot report its chromaticity accurately
    D3 sum;
    for (int j = 0; j < 3; j++) { sum[j] = W(0, j) + W(1, j) + W(2, j); colmin = std::min(colmin, std::fabs(sum[j])); }
    if (c1 > 300 || c2 > 3000) return k.skip();
    const CS::Gamut g("G", p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]);
    k.call(); k.outf(g.toXYZ()[0], g.toXYZ()[4], g.fromXYZ()[8]);
    if (k.verbose) k.note("R(%g,%g) G(%g,%g) B(%g,%g) W(%g,%g): toXYZ [%g %g %g; %g %g %g; %g %g %g]", p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], g.toXYZ()[0], g.toXYZ()[1], g.toXYZ()[2], g.toXYZ()[3], g.toXYZ()[4], g.toXYZ()[5], g.toXYZ()[6], g.toXYZ()[7], g.toXYZ()[8]);
    const double e1 = 8 * mc::EPS * c1 / area, t1 = e1 * nW;
    for (int i = 0; i < 9; i++) k.near("RGB to XYZ matrix", g.toXYZ()[i], W.m[i], t1);
    const double ampI = (e1 + 8 * mc::EPS / area) * c2;
    for (int i = 0; i < 9; i++) k.near("XYZ to RGB matrix", g.fromXYZ()[i], WI.m[i], ampI * nI * 2);
    // white
    const D3 wh = {{q.p[6] / q.p[7], 1, (1 - q.p[6] - q.p[7]) / q.p[7]}};
    const T3 w = g.toXYZ(T3(1.f)), pw = g.primaryWhite();
    k.near("luminance of (1,1,1)", w[1], 1, 3 * t1);
    for (int i = 0; i < 3; i++) { k.near("white of (1,1,1)", w[i], wh[i], 3 * t1); k.near("primaryWhite", pw[i], wh[i], 4 * t1 * std::max(1.0, nW / colmin)); }
    const T3 back = g.fromXYZ(w);
    for (int i = 0; i < 3; i++) k.near("XYZ to RGB of the white", back[i], 1, 4 * ampI * c2 + 1e-5 * c2);
    // primaries
    const T3 acc[3] = {g.primaryRed(), g.primaryGreen(), g.primaryBlue()};
    static const char *N[3] = {"red", "green", "blue"};
    for (int j = 0; j < 3; j++)
    {
        const T3 c = g.toXYZ(T3(j == 0, j == 1, j == 2));
        const double s = (double)c[0] + c[1] + c[2];
        if (std::fabs(sum[j]) > 1e-3)
        {
            const double tp = 4 * t1 / std::fabs(sum[j]) + 1e-6;
            k.near("x of a pure primary", c[0] / s, q.p[2 * j], tp); k.near("y of a pure primary", c[1] / s, q.p[2 * j + 1], tp);
            if (k.verbose) k.note("%s accessor (%.9g, %.9g, %.9g)", N[j], acc[j][0], acc[j][1], acc[j][2]);
            k.near("accessor x", acc[j][0], q.p[2 * j], tp); k.near("accessor y", acc[j][1], q.p[2 * j + 1], tp); k.near("accessor z", acc[j][2], 1 - q.p[2 * j] - q.p[2 * j + 1], 2 * tp);
            k.near("accessor sums to 1", (double)acc[j][0] + acc[j][1] + acc[j][2], 1, 2e-6 * (1 + nW / std::fabs(sum[j])));
        }
    }
    // inverse relation on a colour
    for (int v = 0; v < 4; v++)
    {
        static const float C[4][3] = {{0.2f, 0.5f, 0.9f}, {1.f, 0.f, 0.f}, {-0.3f, 2.f, 0.1f}, {0.f, 0.f, 10.f}};
        const T3 in(C[v][0], C[v][1], C[v][2]), o = g.fromXYZ(g.toXYZ(in));
        const double m = maxabs(d3(in));
        for (int i = 0; i < 3; i++) k.near("RGB->XYZ->RGB", o[i], in[i], (4 * ampI * c2 + 1e-5 * c2) * m);
        k.call(2);
    }
    k.ok(std::string(g.name()) == "G", "name");
}
void setup(mc::Explorer &ex)
{
    static std::vector<std::array<float, 2>> pts = {{0.64f, 0.33f}, {0.3f, 0.6f}, {0.15f, 0.06f}, {0.708f, 0.292f}, {0.17f, 0.797f}, {0.131f, 0.046f}, {0.73f, 0.28f}, {0.14f, 0.855f}, {0.1f, -0.05f}, {0.f, 1.f}, {0.0001f, -0.077f}, {0.7347f, 0.2653f}, {1.f, 0.f}, {0.f, 0.f}, {0.21f, 0.71f}};
    if (ex.thorough) for (int i = 0; i <= 6; i++) for (int j = 0; j <= 6 - i; j++) pts.push_back({i * 0.155f + 0.011f, j * 0.149f + 0.007f});
    else for (int i = 0; i <= 4; i++) for (int j = 0; j <= 4 - i; j++) pts.push_back({i * 0.215f + 0.011f, j * 0.209f + 0.007f});
    static std::vector<std::array<float, 2>> wp = {{0.3127f, 0.3290f}, {0.314f, 0.351f}, {0.32168f, 0.33767f}, {0.34567f, 0.35850f}, {0.44757f, 0.40745f}, {1.f / 3, 1.f / 3}, {0.25f, 0.25f}, {0.2f, 0.5f}, {0.5f, 0.3f}, {0.31f, 0.02f}};
    const uint64_t n = pts.size(), m = wp.size();
    ex.add("primaries", "every ordered triple of primaries from the chromaticity grid x white", n * n * n * m, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const auto W = d.of(wp), R = d.of(pts), G = d.of(pts), B = d.of(pts);
        const float p[8] = {R[0], R[1], G[0], G[1], B[0], B[1], W[0], W[1]};
        chk(k, p);
    });
    const uint64_t g = ex.thorough ? 900 : 400;
    ex.add("whites", "standard primary sets with every white chromaticity of a fine grid", 3 * g * g, [=](mc::Ctx &k, uint64_t i) {
        static const float S[3][6] = {{0.64f, 0.33f, 0.30f, 0.60f, 0.15f, 0.06f}, {0.708f, 0.292f, 0.17f, 0.797f, 0.131f, 0.046f}, {0.7347f, 0.2653f, 0.f, 1.f, 0.0001f, -0.077f}};
        mc::Mixed d(i);
        const float *s = S[d.pick(3)];
        const float x = lin(d.pick(g), g, 0.15, 0.55), y = lin(d.pick(g), g, 0.1, 0.6), p[8] = {s[0], s[1], s[2], s[3], s[4], s[5], x, y};
        chk(k, p);
    });
    ex.add("matrix", "a gamut built from each non-singular {-1,0,1} matrix (scaled to colour-like values) keeps it and its inverse", 19683, [=](mc::Ctx &k, uint64_t i) {
        M3 A;
        uint64_t q = i;
        for (int j = 0; j < 9; j++) { A.m[j] = (float)(((int)(q % 3) - 1) * 0.75 + (j % 4 == 0 ? 0.3 : 0)); q /= 3; }
        const double d = det(A);
        if (std::fabs(d) < 1e-2) return k.skip();
        const M3 I = inv(A);
        const double cond = normInf(A) * normInf(I);
        if (cond > 1e3) return k.skip();
        const CS::Gamut g("M", mat(A));
        k.call(); k.outf(g.toXYZ()[0], g.toXYZ()[5]);
        for (int j = 0; j < 9; j++) { k.eq("XYZ to RGB", g.fromXYZ()[j], A.m[j]); k.near("RGB to XYZ", g.toXYZ()[j], I.m[j], 2e-6 * cond * normInf(I)); }
        const D3 c = {{0.25, -0.5, 2}}, wf = mul(A, c), wt = mul(I, c);
        const T3 f = g.fromXYZ(tri(c)), t = g.toXYZ(tri(c));
        for (int j = 0; j < 3; j++) { k.near("fromXYZ(colour)", f[j], wf[j], 4e-6); k.near("toXYZ(colour)", t[j], wt[j], 6e-6 * cond * normInf(I)); }
        k.ok(std::string(g.name()) == "M", "name");
        double cs[3], cmin = 1e9;
        for (int j = 0; j < 3; j++) { cs[j] = I(0, j) + I(1, j) + I(2, j); cmin = std::min(cmin, std::fabs(cs[j])); }
        if (cmin < 0.05 || cond > 100) return; // a primary without light has no chromaticity
        const double e = 4e-6 * cond * normInf(I) / cmin;
        const T3 acc[3] = {g.primaryRed(), g.primaryGreen(), g.primaryBlue()}, pw = g.primaryWhite();
        for (int j = 0; j < 3; j++)
        {
            for (int r = 0; r < 3; r++) k.near("accessor of a primary", acc[j][r], I(r, j) / cs[j], e * (1 + normInf(I) / cmin));
            k.near("white accessor", pw[j], I(j, 0) + I(j, 1) + I(j, 2), 3 * e * (1 + normInf(I) / cmin) * normInf(I));
        }
    });
    static std::vector<float> CV = {0.f, 1.f, 0.5f, 0.18f, 0.02f, 1e-3f, 1e-6f, 2.f, 10.f, 12.5f, 100.f, 1e4f, 1e6f, 1e12f, -1e-4f, -0.1f, -1.f, -30.f, 0.999f, 1.001f, 0.25f, 0.75f};
    if (ex.thorough) for (int j = 1; j < 20; j++) CV.push_back(j / 20.f + 0.003f);
    ex.add("colours", "six gamuts (two of them given as matrices) x every colour triple with channels from -30 to 1e12: both directions are the matrices applied", 6 * CV.size() * CV.size() * CV.size(), [=](mc::Ctx &k, uint64_t i) {
        static const CS::Gamut G[6] = {CS::Gamut("a", 0.64f, 0.33f, 0.30f, 0.60f, 0.15f, 0.06f, 0.3127f, 0.3290f), CS::Gamut("b", 0.708f, 0.292f, 0.17f, 0.797f, 0.131f, 0.046f, 0.3127f, 0.3290f), CS::Gamut("c", 0.7347f, 0.2653f, 0.f, 1.f, 0.0001f, -0.077f, 0.32168f, 0.33767f),
            CS::Gamut("d", 0.68f, 0.32f, 0.265f, 0.69f, 0.15f, 0.06f, 0.314f, 0.351f), CS::Gamut("e", MX(3.2f, -1.5f, -0.5f, -0.97f, 1.88f, 0.04f, 0.06f, -0.2f, 1.06f)), CS::Gamut("f", MX(0.03f, 0.01f, 0.f, 0.002f, 0.04f, 0.01f, 0.f, -0.01f, 0.05f))};
        mc::Mixed d(i);
        const CS::Gamut &g = G[d.pick(6)];
        const float a = d.of(CV), b = d.of(CV), c = d.of(CV);
        const T3 in(a, b, c), t = g.toXYZ(in), f = g.fromXYZ(in);
        k.call(2); k.outf(t[0], t[1], f[2]);
        if (k.verbose) k.note("gamut %s, colour (%.9g, %.9g, %.9g): toXYZ (%.9g, %.9g, %.9g), fromXYZ (%.9g, %.9g, %.9g)", g.name(), a, b, c, t[0], t[1], t[2], f[0], f[1], f[2]);
        for (int r = 0; r < 3; r++)
        {
            double wt = 0, wf = 0, st = 0, sf = 0;
            for (int j = 0; j < 3; j++) { const double p = (double)g.toXYZ()[3 * r + j] * in[j], q = (double)g.fromXYZ()[3 * r + j] * in[j]; wt += p; wf += q; st += std::fabs(p); sf += std::fabs(q); }
            k.near("toXYZ(colour)", t[r], wt, 4e-7 * st); k.near("fromXYZ(colour)", f[r], wf, 4e-7 * sf);
        }
    });
    static const float MS[] = {1e-3f, 0.05f, 20.f, 1e3f};
    ex.add("matrix-scaled", "gamuts built from {-1,0,1} matrices plus a diagonal at four other magnitudes", 19683 * 4, [=](mc::Ctx &k, uint64_t i) {
        const float s = MS[i % 4];
        uint64_t q = i / 4;
        M3 A;
        for (int j = 0; j < 9; j++) { A.m[j] = (float)((((int)(q % 3) - 1) * 0.75 + (j % 4 == 0 ? 0.3 : 0)) * s); q /= 3; }
        const double dt = det(A) / ((double)s * s * s);
        if (std::fabs(dt) < 1e-2) return k.skip();
        const M3 I = inv(A);
        const double cond = normInf(A) * normInf(I);
        if (cond > 1e3) return k.skip();
        const CS::Gamut g("M", mat(A));
        k.call(); k.outf(g.toXYZ()[0], g.toXYZ()[5]);
        if (k.verbose) k.note("scale %g", s);
        for (int j = 0; j < 9; j++) { k.eq("XYZ to RGB", g.fromXYZ()[j], A.m[j]); k.near("RGB to XYZ", g.toXYZ()[j], I.m[j], 2e-6 * cond * normInf(I)); }
    });
    ex.vary("after-other-arguments", {{0.64f, 0.33f, 0.30f, 0.60f, 0.15f, 0.06f, 0.3127f, 0.3290f}, {0.708f, 0.292f, 0.170f, 0.797f, 0.131f, 0.046f, 0.3127f, 0.3290f}, {0.7347f, 0.2653f, 0.f, 1.f, 0.0001f, -0.077f, 0.32168f, 0.33767f}}, [=](mc::Ctx &k, const float *a) { chk(k, a); });
}
MC_MAIN(setup)
