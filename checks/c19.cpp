// C19: spectral arithmetic and observers.
#include "ref.hpp"
#include <memory>
using namespace ref;
typedef CS::Spectrum S;
typedef CS::Tristimulus T3;
static const CS::Observer *OB[3] = {&CS::CIE1931, &CS::CIE31JV, &CS::CIE2012};
static const S *CM[3][3] = {{&CS::CIE1931_X, &CS::CIE1931_Y, &CS::CIE1931_Z}, {&CS::CIE1931_JuddVos_X, &CS::CIE1931_JuddVos_Y, &CS::CIE1931_JuddVos_Z}, {&CS::CIE2012_X, &CS::CIE2012_Y, &CS::CIE2012_Z}};
static const int NP = 12;
static S pattern(int kind)
{
    S::spectrum a;
    for (int i = 0; i < 400; i++)
        switch (kind)
        {
        case 0: a[i] = 1.f; break;
        case 1: a[i] = (float)(i % 17); break;
        case 2: a[i] = (float)((i * 7919) % 101) - 50.f; break;
        case 3: a[i] = 0.f; break;
        case 4: a[i] = (i & 1) ? -1.f : 1.f; break;
        case 5: a[i] = (float)i / 512.f; break;
        case 6: a[i] = 1e6f * (float)((i * 31) % 13); break;
        case 7: a[i] = 1e-6f * (float)((i * 57) % 29 + 1); break;
        case 8: a[i] = i < 200 ? 0.f : 2.f; break;
        case 9: a[i] = (float)(399 - i); break;
        case 10: a[i] = CS::CIE_D65[i]; break;
        default: a[i] = CS::Macbeth::Patch[7][i]; break;
        }
    return S(a);
}
static std::vector<S> P;
static S impulse(int i, float v, float bg = 0.f)
{
    S::spectrum a;
    a.fill(bg);
    a[i] = v;
    return S(a);
}
static double dsum(const S &a, double &mag)
{
    double s = 0;
    mag = 0;
    for (int i = 0; i < 400; i++) { s += a[i]; mag += std::fabs(a[i]); }
    return s;
}
static double ddot(const S &a, const S &b, const S *c, double &mag)
{
    double s = 0;
    mag = 0;
    for (int i = 0; i < 400; i++) { const double t = (double)a[i] * b[i] * (c ? (*c)[i] : 1.0); s += t; mag += std::fabs(t); }
    return s;
}
static const double ACC = 420 * 1.1920928955078125e-07 / 2 + 3e-7; // recursive summation of 400 terms, any order
static void trist(mc::Ctx &k, int o, const S &s, const S *l)
{
    const T3 t = l ? OB[o]->fromReflectanceAndLight(s, *l) : OB[o]->fromSpectrum(s);
    k.call(); k.outf(t[0], t[1], t[2]);
    static const char *N[3] = {"X", "Y", "Z"};
    for (int j = 0; j < 3; j++)
    {
        double m, n, q;
        const double w = ddot(s, *CM[o][j], l, m), z = dsum(*CM[o][j], n);
        (void)q;
        k.near(N[j], t[j], w / z, (m * ACC * 2 + std::fabs(w) * ACC) / z + 1e-42);
    }
}
void setup(mc::Explorer &ex)
{
    for (int i = 0; i < NP; i++) P.push_back(pattern(i));
    static std::vector<float> V = {1.f, -1.f, 0.5f, 3.f, 100.f, -0.25f, 1e-3f, 1e5f, 0.f, 255.f};
    const uint64_t nv = V.size();
    ex.add("elementwise", "impulse (every index, 10 values, backgrounds 0 and 2) against every pattern: scale, add, multiply, member and static forms, at every index", 400 * nv * 2 * NP, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int at = (int)d.pick(400);
        const float v = d.of(V), bg = d.pick(2) ? 2.f : 0.f;
        const S a = impulse(at, v, bg), &b = P[d.pick(NP)];
        const S m1 = a * b, m2 = S::mul(b, a), s1 = a + b, s2 = S::add(b, a), f1 = b * v, f2 = S::mul(b, v);
        k.call(6);
        if (k.verbose) k.note("impulse %.6g at %d on background %.6g", v, at, bg);
        for (int j = 0; j < 400; j++)
        {
            const float x = j == at ? v : bg, p = x * b[j], q = x + b[j], r = b[j] * v;
            k.w->cmps += 6;
            if (!(m1[j] == p && m2[j] == p && s1[j] == q && s2[j] == q && f1[j] == r && f2[j] == r))
            { k.fail("sample %d: product %.9g/%.9g (expected %.9g), sum %.9g/%.9g (expected %.9g), scaled %.9g/%.9g (expected %.9g)", j, m1[j], m2[j], p, s1[j], s2[j], q, f1[j], f2[j], r); return; }
        }
        k.outf(m1[at], s1[at], f1[at]);
    });
    ex.add("scale-values", "scaling by a fine float lattice, three patterns", 3ull * (41ull << (ex.thorough ? 12 : 9)) * 2, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int p = (int)d.pick(3), sg = (int)d.pick(2);
        const FloatLattice L{-20, 20, ex.thorough ? 12 : 9};
        const float v = (sg ? -1 : 1) * L.at(d.v);
        static const int W[3] = {1, 2, 10};
        const S f = P[W[p]] * v;
        k.call();
        for (int j = 0; j < 400; j++) if (!(f[j] == P[W[p]][j] * v)) { k.fail("sample %d scaled by %.9g is %.9g", j, v, f[j]); return; }
        k.ok(true, "scaled");
    });
    ex.add("sums", "sum, dot, dot3: impulses at every index, all patterns", 400 * nv * NP, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int at = (int)d.pick(400);
        const float v = d.of(V);
        const S a = impulse(at, v), &b = P[d.pick(NP)];
        k.call(7);
        k.near("sum of an impulse", a.sum(), v, mc::EPS * std::fabs(v));
        const double w = (double)v * b[at], t = 2 * mc::EPS * std::fabs(w) + 1e-42;
        k.near("dot", a.dot(b), w, t);
        k.near("static dot", S::dot(b, a), w, t);
        k.near("dot3", S::dot3(a, b, P[0]), w, t);
        k.near("dot3", S::dot3(P[0], a, b), w, t);
        k.near("dot3", S::dot3(b, P[9], a), w * (399 - at), 3 * mc::EPS * std::fabs(w * (399 - at)) + 1e-42);
        k.outf(a.dot(b), (float)at);
    });
    ex.add("sums-patterns", "sum, dot and dot3 of all pattern combinations", NP * NP * NP, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const S &a = P[d.pick(NP)], &b = P[d.pick(NP)], &c = P[d.pick(NP)];
        double m, w = dsum(a, m);
        k.call(5);
        k.near("sum", a.sum(), w, m * ACC);
        k.near("static sum", S::sum(a), w, m * ACC);
        w = ddot(a, b, nullptr, m);
        k.near("dot", a.dot(b), w, m * ACC);
        k.near("static dot", S::dot(a, b), w, m * ACC);
        w = ddot(a, b, &c, m);
        k.near("dot3", S::dot3(a, b, c), w, m * ACC);
    });
    static Domain D;
    D.lattice(-30, 30, ex.thorough ? 10 : 6).neglattice(-30, 30, ex.thorough ? 10 : 6);
    ex.add("constant", "the constant spectrum, every value of a float lattice, all 400 samples", D.n() + 2, [=](mc::Ctx &k, uint64_t i) {
        const float e = i >= D.n() ? (i == D.n() ? 0.f : 1.f) : D.at(i);
        const S s = i == D.n() + 1 ? S::E() : S::E(e);
        k.call();
        for (int j = 0; j < 400; j++) if (!(s[j] == e && s.s()[j] == e)) { k.fail("sample %d of E(%.9g) is %.9g", j, e, s[j]); return; }
        const S z;
        for (int j = 0; j < 400; j++) if (z[j] != 0) { k.fail("default spectrum not zero at %d", j); return; }
        k.ok(true, "constant");
    });
    ex.add("observe-impulse", "tristimulus of an impulse at every wavelength, every value, three observers: the weight of that wavelength alone (decides the linear map)", 400 * nv * 3, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int at = (int)d.pick(400), o = (int)d.pick(3);
        const float v = d.of(V);
        if (k.verbose) k.note("observer %d, impulse %.6g at %d", o, v, at);
        trist(k, o, impulse(at, v), nullptr);
        trist(k, o, impulse(at, v), &P[10]);
        trist(k, o, P[11], nullptr);
        const S li = impulse(at, v);
        trist(k, o, P[11], &li);
    });
    ex.add("observe-pairs", "additivity: impulses at every pair of wavelengths, three observers", 400 * 400 * 3, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int a = (int)d.pick(400), b = (int)d.pick(400), o = (int)d.pick(3);
        S::spectrum s;
        s.fill(0);
        s[a] += 2.f;
        s[b] += 0.75f;
        const T3 t = OB[o]->fromSpectrum(S(s));
        k.call(); k.outf(t[0], t[1], t[2]);
        for (int j = 0; j < 3; j++)
        {
            double n;
            static double z[3][3];
            if (!z[o][j]) z[o][j] = dsum(*CM[o][j], n);
            const double w = (2.0 * (*CM[o][j])[a] + 0.75 * (*CM[o][j])[b]) / z[o][j];
            k.near("component", t[j], w, (ACC + 4 * mc::EPS) * std::fabs(w) + 1e-42);
        }
    });
    ex.add("observe-patterns", "tristimulus of all patterns, of all reflectance-light pattern pairs and of their product spectrum; equal energy maps to (1,1,1)", NP * NP * 3, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const S &a = P[d.pick(NP)], &b = P[d.pick(NP)];
        const int o = (int)d.pick(3);
        trist(k, o, a, nullptr);
        trist(k, o, a, &b);
        const T3 p = OB[o]->fromReflectanceAndLight(a, b), q = OB[o]->fromSpectrum(a * b);
        k.call(2);
        for (int j = 0; j < 3; j++)
        {
            double m, n;
            ddot(a, b, CM[o][j], m);
            dsum(*CM[o][j], n);
            k.near("reflectance under light against product spectrum", p[j], q[j], 4 * m * ACC / n + 1e-42);
        }
        const T3 e = OB[o]->fromSpectrum(S::E(1.f));
        for (int j = 0; j < 3; j++) k.near("equal energy", e[j], 1, ACC * 2);
    });
    ex.add("intensities", "all patterns and all reflectance-light pattern pairs at 41 powers of two from 2^-60 to 2^60, three observers: tristimulus, sums and dot products", NP * (NP + 1) * 41 * 3, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int o = (int)d.pick(3), e = 3 * (int)d.pick(41) - 60;
        const S &a = P[d.pick(NP)];
        const int q = (int)d.pick(NP + 1);
        S::spectrum b;
        for (int j = 0; j < 400; j++) b[j] = std::ldexp(q < NP ? P[q][j] : a[j], e); // exact
        const S l(b);
        if (k.verbose) k.note("observer %d, light pattern %d times 2^%d", o, q, e);
        if (q == NP)
        {
            trist(k, o, l, nullptr);
            double m, w = dsum(l, m);
            k.near("sum", l.sum(), w, m * ACC);
            k.call();
            return;
        }
        trist(k, o, a, &l);
        double m, w = ddot(a, l, nullptr, m);
        k.near("dot", a.dot(l), w, m * ACC);
        w = ddot(a, l, &P[5], m);
        k.near("dot3", S::dot3(a, l, P[5]), w, m * ACC);
        k.call(2);
    });
    ex.add("custom-observer", "an observer built from arbitrary functions keeps them and normalises by their sums", 400 * 5, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int at = (int)d.pick(400), q = (int)d.pick(5);
        static const int PX[5] = {0, 1, 5, 8, 10}, PY[5] = {5, 9, 0, 1, 11}, PZ[5] = {9, 0, 8, 10, 1};
        const S &x = P[PX[q]], &y = P[PY[q]], &z = P[PZ[q]];
        const CS::Observer o(x, y, z);
        const T3 t = o.fromSpectrum(impulse(at, 3.f));
        k.call(2); k.outf(t[0], t[1], t[2]);
        const S *c[3] = {&x, &y, &z};
        for (int j = 0; j < 3; j++)
        {
            double m, w = 3.0 * (*c[j])[at] / dsum(*c[j], m);
            k.near("component", t[j], w, (ACC + 4 * mc::EPS) * std::fabs(w) + 1e-42);
        }
#ifndef VERIF_CORE
        const T3 g = CS::Observer::SpectrumIntegrate(impulse(at, 3.f), x, y, z), h = CS::Observer::SpectrumIntegrate3(impulse(at, 3.f), P[1], x, y, z);
        for (int j = 0; j < 3; j++)
        {
            k.near("SpectrumIntegrate", g[j], 3.0 * (*c[j])[at], 2 * mc::EPS * 3.0 * std::fabs((*c[j])[at]));
            k.near("SpectrumIntegrate3", h[j], 3.0 * (*c[j])[at] * P[1][at], 4 * mc::EPS * 3.0 * std::fabs((*c[j])[at] * P[1][at]));
        }
#endif
    });
    ex.add("reused-storage", "two spectra assigned in place: every ordered pair of (content, light) pairs over the 12 patterns, tristimulus with each observer, sums and products after each assignment", 144 * 144 * 3, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int o = (int)d.pick(3);
        static S a, l;
        for (int s = 0; s < 2 && !k.bad; s++)
        {
            const int pa = (int)d.pick(NP), pl = (int)d.pick(NP);
            a = P[pa];
            l = P[pl];
            if (k.verbose) k.note("patterns %d under %d, observer %d", pa, pl, o);
            trist(k, o, a, nullptr);
            if (!k.bad) trist(k, o, a, &l);
            double m;
            const double w = dsum(a, m), q = ddot(a, l, nullptr, m);
            double ms;
            dsum(a, ms);
            k.near("sum", a.sum(), w, ms * ACC * 2);
            k.near("dot", S::dot(a, l), q, m * ACC * 2);
            k.call(2);
        }
    });
    static const std::vector<float> PED = {0.f, 0.03f, 0.2f, 0.5f, 1.f, 7.5f, -0.4f, 130.f}, HT = {1.f, -0.7f, 0.15f, 0.013f, 40.f, 3e3f, -25.f}, WID = {0.6f, 4.f, 15.f, 40.f, 110.f}, LIT = {0.f, 0.01f, -0.004f};
    const uint64_t NC = ex.thorough ? 81 : 21, CS_ = 400 / (NC - 1);
    ex.add("shapes", "bump, edge up, edge down or slope: 8 pedestals x 7 heights x 5 widths x 21 places (thorough 81) x 3 tilts, three observers: tristimulus, under five lights, sum, dot, dot3, element-wise operations", PED.size() * HT.size() * WID.size() * NC * LIT.size() * 4 * 3, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int o = (int)d.pick(3), form = (int)d.pick(4);
        const float ped = d.of(PED), ht = d.of(HT), w = d.of(WID), tilt = d.of(LIT), at = (float)(d.v * CS_);
        S::spectrum a;
        for (int j = 0; j < 400; j++)
        {
            const float x = (j - at) / w;
            a[j] = ped + tilt * j + ht * (form == 0 ? (x * x < 20 ? std::exp(-x * x) : 0.f) : form == 1 ? (x >= 0 ? 1.f : 0.f) : form == 2 ? (x < 0 ? 1.f : 0.f) : std::min(1.f, std::max(0.f, x)));
        }
        const S sp(a);
        if (k.verbose) k.note("form %d, pedestal %g, height %g, width %g, at %g nm, tilt %g, observer %d", form, ped, ht, w, 380 + at, tilt, o);
        trist(k, o, sp, nullptr);
        static const int LT[5] = {0, 5, 8, 9, 10};
        const S &l = P[LT[(i / 12) % 5]];
        if (!k.bad) trist(k, o, sp, &l);
        if (!k.bad) trist(k, o, l, &sp);
        double m, q = dsum(sp, m);
        k.near("sum", sp.sum(), q, m * ACC);
        q = ddot(sp, l, nullptr, m);
        k.near("dot", sp.dot(l), q, m * ACC + 1e-38);
        k.near("dot", S::dot(l, sp), q, m * ACC + 1e-38);
        q = ddot(sp, l, &sp, m);
        k.near("dot3", S::dot3(sp, l, sp), q, m * ACC + 1e-38);
        const S m1 = sp * l, s1 = sp + l, f1 = sp * 0.37f, m2 = S::mul(sp, sp), s2 = S::add(sp, sp);
        k.call(9);
        for (int j = 0; j < 400; j++)
            if (!(m1[j] == a[j] * l[j] && s1[j] == a[j] + l[j] && f1[j] == a[j] * 0.37f && m2[j] == a[j] * a[j] && s2[j] == a[j] + a[j])) return k.fail("sample %d of product, sum or scaled spectrum", j);
    });
}
MC_MAIN(setup)
