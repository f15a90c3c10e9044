// C14: built-in gamuts and illuminants, and conversion between gamuts.
#include "ref.hpp"
using namespace ref;
typedef CS::Tristimulus T3;
typedef CS::Matrix3 MX;
void setup(mc::Explorer &ex)
{
    static const auto &G = gamuts();
    const uint64_t n = G.size();
    struct Ill { const char *n; const T3 *t; double X, Z; };
    static const Ill I[] = {{"A", &CS::Illuminant_A, 1.09850, 0.35585}, {"B", &CS::Illuminant_B, 0.99072, 0.85223}, {"C", &CS::Illuminant_C, 0.98074, 1.18232}, {"D50", &CS::Illuminant_D50, 0.96422, 0.82521}, {"D55", &CS::Illuminant_D55, 0.95682, 0.92149}, {"D60", &CS::Illuminant_D60, 0.95265, 1.00883}, {"D65", &CS::Illuminant_D65, 0.95047, 1.08883}, {"D75", &CS::Illuminant_D75, 0.94972, 1.22638}, {"E", &CS::Illuminant_E, 1, 1}, {"F2", &CS::Illuminant_F2, 0.99186, 0.67393}, {"F7", &CS::Illuminant_F7, 0.95041, 1.08747}, {"F11", &CS::Illuminant_F11, 1.00962, 0.64350}};
    ex.add("illuminants", "every built-in illuminant", 12, [=](mc::Ctx &k, uint64_t i) {
        k.call(); k.outf((*I[i].t)[0], (*I[i].t)[2]);
        if (k.verbose) k.note("illuminant %s", I[i].n);
        k.near("X", (*I[i].t)[0], I[i].X, 2e-6); k.near("Y", (*I[i].t)[1], 1, 0); k.near("Z", (*I[i].t)[2], I[i].Z, 2e-6);
    });
    ex.add("gamuts", "every built-in gamut: name, matrices, white, accessors", n, [=](mc::Ctx &k, uint64_t i) {
        const auto &g = G[i];
        const M3 inve = inv(g.toXYZ);
        k.call(8); k.outf(g.g->toXYZ()[0], g.g->fromXYZ()[0]);
        if (k.verbose) k.note("gamut %s", g.name);
        k.ok(std::string(g.g->name()) == g.name, "name");
        for (int j = 0; j < 9; j++)
        {
            k.near("RGB to XYZ", g.g->toXYZ()[j], g.toXYZ.m[j], 4e-6);
            k.near("XYZ to RGB", g.g->fromXYZ()[j], inve.m[j], 1.2e-5);
        }
        const T3 w = g.g->toXYZ(T3(1.f)), pw = g.g->primaryWhite();
        for (int j = 0; j < 3; j++) { k.near("white", w[j], g.white[j], 4e-6); k.near("primaryWhite", pw[j], g.white[j], 6e-6); }
        const T3 p[3] = {g.g->primaryRed(), g.g->primaryGreen(), g.g->primaryBlue()};
        for (int c = 0; c < 3; c++)
        {
            const double s = g.toXYZ(0, c) + g.toXYZ(1, c) + g.toXYZ(2, c);
            for (int r = 0; r < 3; r++) k.near("primary chromaticity", p[c][r], g.toXYZ(r, c) / s, 6e-6);
        }
    });
    ex.add("convert-matrix", "conversion matrix of all ordered pairs of gamuts; A to A is the identity", n * n, [=](mc::Ctx &k, uint64_t i) {
        const auto &a = G[i % n], &b = G[i / n];
        const MX m = CS::GamutConvert(*a.g, *b.g);
        const M3 w = mul(inv(b.toXYZ), a.toXYZ);
        k.call(); k.outf(m[0], m[1], m[2]);
        if (k.verbose) k.note("%s to %s: [%g %g %g; %g %g %g; %g %g %g]", a.name, b.name, m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8]);
        for (int j = 0; j < 9; j++) { k.near("conversion matrix", m[j], w.m[j], 2e-5); if (&a == &b) k.near("identity", m[j], j % 4 == 0, 8e-6); }
    });
    ex.add("compose", "all ordered triples of gamuts: A to B to C equals A to C", n * n * n, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const auto &a = d.of(G), &b = d.of(G), &c = d.of(G);
        const MX ab = CS::GamutConvert(*a.g, *b.g), bc = CS::GamutConvert(*b.g, *c.g), ac = CS::GamutConvert(*a.g, *c.g), p = bc.mul(ab);
        k.call(3); k.outf(p[0], p[4], p[8]);
        if (k.verbose) k.note("%s to %s to %s", a.name, b.name, c.name);
        for (int j = 0; j < 9; j++) k.near("A to B to C against A to C", p[j], ac[j], 5e-5);
    });
    static std::vector<float> V = {0.f, 1.f, 0.5f, 0.18f, 0.02f, 0.9f, -0.2f, 3.f, 100.f};
    if (ex.thorough) for (int i = 1; i < 16; i++) V.push_back(i / 16.f + 0.003f);
    const uint64_t m = V.size();
    ex.add("colours", "all ordered pairs of gamuts x colour lattice: converting equals going through XYZ", n * n * m * m * m, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const auto &a = d.of(G), &b = d.of(G);
        const float x = d.of(V), y = d.of(V), z = d.of(V);
        const T3 c(x, y, z), viaM = c.apply(CS::GamutConvert(*a.g, *b.g)), viaX = b.g->fromXYZ(a.g->toXYZ(c)), there = a.g->fromXYZ(b.g->toXYZ(viaX));
        const D3 w = mul(inv(b.toXYZ), mul(a.toXYZ, d3(c)));
        k.call(5); k.outf(viaX[0], viaX[1], viaX[2]);
        const double t = 4e-5 * maxabs(d3(c));
        if (k.verbose) k.note("%s (%g, %g, %g) in %s: (%g, %g, %g)", a.name, x, y, z, b.name, viaM[0], viaM[1], viaM[2]);
        for (int j = 0; j < 3; j++) { k.near("by matrix", viaM[j], w[j], t); k.near("through XYZ", viaX[j], w[j], t); k.near("there and back", there[j], c[j], 2 * t); }
    });
    // user-made gamuts that share a name, and storage that is used again
    static std::vector<Prim> Q;
    for (int r = 0; r < 3; r++) for (int g = 0; g < 3; g++) for (int b = 0; b < 3; b++) for (int w = 0; w < 3; w++)
    {
        static const double R[3][2] = {{0.64, 0.33}, {0.7347, 0.2653}, {0.68, 0.32}}, Gn[3][2] = {{0.30, 0.60}, {0.17, 0.797}, {0.265, 0.69}}, B[3][2] = {{0.15, 0.06}, {0.131, 0.046}, {0.1, -0.05}}, Wh[3][2] = {{0.3127, 0.3290}, {0.3457, 0.3585}, {0.314, 0.351}};
        Prim p;
        for (int j = 0; j < 2; j++) { p.p[j] = (float)R[r][j]; p.p[2 + j] = (float)Gn[g][j]; p.p[4 + j] = (float)B[b][j]; p.p[6 + j] = (float)Wh[w][j]; }
        Q.push_back(p);
    }
    const uint64_t nq = Q.size();
    ex.add("custom", "all ordered pairs of 81 gamuts made from primaries, all with one name and built in place, and each of them with every built-in gamut: conversion matrix both ways, identity", nq * (nq + n), [=](mc::Ctx &k, uint64_t i) {
        auto mk = [](const Prim &p) { return CS::Gamut("custom", p.p[0], p.p[1], p.p[2], p.p[3], p.p[4], p.p[5], p.p[6], p.p[7]); };
        const Prim &a = Q[i % nq];
        const uint64_t o = i / nq;
        const CS::Gamut ga = mk(a), gb = o < nq ? mk(Q[o]) : *G[o - nq].g;
        const M3 A = rgb_to_xyz(a), B = o < nq ? rgb_to_xyz(Q[o]) : G[o - nq].toXYZ, w = mul(inv(B), A), v = mul(inv(A), B);
        const MX x = CS::GamutConvert(ga, gb), y = CS::GamutConvert(gb, ga), z = CS::GamutConvert(ga, ga);
        k.call(3); k.outf(x[0], x[4], y[1]);
        for (int j = 0; j < 9; j++)
        {
            k.near("conversion matrix", x[j], w.m[j], 4e-5);
            k.near("conversion matrix back", y[j], v.m[j], 4e-5);
            k.near("identity", z[j], j % 4 == 0, 2e-5);
        }
        const T3 c(0.3f, 0.5f, 0.2f), t = gb.fromXYZ(ga.toXYZ(c));
        const D3 e = mul(w, d3(c));
        for (int j = 0; j < 3; j++) k.near("through XYZ", t[j], e[j], 4e-5);
    });
    static const std::vector<float> SH = {0.f, 0.1f, 0.45f, 1.f, -0.3f};
    ex.add("colour-scales", "all ordered pairs of gamuts x colour shapes at powers of two from 2^-60 to 2^60", n * n * 125 * 41, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const auto &a = d.of(G), &b = d.of(G);
        const float x = d.of(SH), y = d.of(SH), z = d.of(SH), s = std::ldexp(1.1f, 3 * (int)d.pick(41) - 60);
        const T3 c(x * s, y * s, z * s), viaX = b.g->fromXYZ(a.g->toXYZ(c)), viaM = c.apply(CS::GamutConvert(*a.g, *b.g));
        const D3 w = mul(inv(b.toXYZ), mul(a.toXYZ, d3(c)));
        k.call(3); k.outf(viaX[0], viaX[1], viaX[2]);
        const double t = 4e-5 * maxabs(d3(c));
        if (k.verbose) k.note("%s (%g, %g, %g) in %s: (%g, %g, %g)", a.name, c[0], c[1], c[2], b.name, viaX[0], viaX[1], viaX[2]);
        for (int j = 0; j < 3; j++) { k.near("by matrix", viaM[j], w[j], t); k.near("through XYZ", viaX[j], w[j], t); }
    });
}
MC_MAIN(setup)
