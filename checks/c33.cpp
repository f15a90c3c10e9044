// C33: clamping and ordering helpers.
#include "ref.hpp"
using namespace ref;
typedef CS::Tristimulus T3;
static void eqT(mc::Ctx &k, const char *w, const T3 &a, float x, float y, float z)
{
    k.eq(w, a[0], x); k.eq(w, a[1], y); k.eq(w, a[2], z);
}
static float lo(float a, float b) { return a < b ? a : b; }
static float hi(float a, float b) { return a > b ? a : b; }
void setup(mc::Explorer &ex)
{
    static std::vector<float> V = {0.f, 1.f, -1.f, 0.5f, -0.5f, 2.f, -2.f, 1e-40f, -1e-40f, FLT_MAX, -FLT_MAX, 1.0000001f, 0.99999994f, 100.f, -1e-7f, 1e-7f, 255.f, INFINITY, -INFINITY};
    const uint64_t n = V.size();
    ex.add("clip", "every colour and every pair of bounds of a lattice with ties, denormals, extremes and infinities", n * n * n * n * n, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const float a = d.of(V), b = d.of(V), c = d.of(V), l = d.of(V), h = d.of(V);
        if (!(l <= h)) return k.skip();
        const T3 t(a, b, c), o = t.clip(l, h), s = T3::clip(t, l, h);
        k.call(2); k.outf(o[0], o[1], o[2]);
        if (k.verbose) k.note("clip (%.9g, %.9g, %.9g) to %.9g..%.9g -> (%.9g, %.9g, %.9g)", a, b, c, l, h, o[0], o[1], o[2]);
        const float e[3] = {a < l ? l : a > h ? h : a, b < l ? l : b > h ? h : b, c < l ? l : c > h ? h : c};
        eqT(k, "clip", o, e[0], e[1], e[2]);
        eqT(k, "static clip", s, e[0], e[1], e[2]);
    });
    ex.add("order", "min, max of all pairs; min3, max3, positive, hasNegative of all colours", n * n * n * n * n * n, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const float a = d.of(V), b = d.of(V), c = d.of(V), x = d.of(V), y = d.of(V), z = d.of(V);
        const T3 t(a, b, c), u(x, y, z);
        k.call(4);
        const T3 mn = t.min(u), mx = t.max(u);
        if (k.verbose) k.note("(%.9g, %.9g, %.9g) and (%.9g, %.9g, %.9g)", a, b, c, x, y, z);
        eqT(k, "min", mn, lo(a, x), lo(b, y), lo(c, z));
        eqT(k, "max", mx, hi(a, x), hi(b, y), hi(c, z));
        eqT(k, "static min", T3::min(t, u), lo(a, x), lo(b, y), lo(c, z));
        eqT(k, "static max", T3::max(t, u), hi(a, x), hi(b, y), hi(c, z));
        if (i < n * n * n)
        {
            k.call(8);
            k.eq("min3", t.min3(), lo(a, lo(b, c)));
            k.eq("max3", t.max3(), hi(a, hi(b, c)));
            k.outf(t.min3(), t.max3());
            eqT(k, "positive", t.positive(), hi(a, 0), hi(b, 0), hi(c, 0));
            eqT(k, "static positive", T3::positive(t), hi(a, 0), hi(b, 0), hi(c, 0));
            const bool neg = a < 0 || b < 0 || c < 0;
            k.ok(t.hasNegative() == neg, "hasNegative");
            k.ok(T3::hasNegative(t) == neg, "static hasNegative");
#ifndef VERIF_CORE
            k.ok(t.isNegative(a) == (a < 0), "isNegative");
            k.eq("mini", T3::mini(a, b), lo(a, b));
            k.eq("maxi", T3::maxi(a, b), hi(a, b));
            k.eq("abs", T3::abs_f(a), std::fabs(a));
#endif
            // default bounds style use: clip to 0..1 and positive agree with max against black
        }
    });
    static Domain D;
    D.lattice(-126, 127, ex.thorough ? 16 : 12);
    D.neglattice(-126, 127, ex.thorough ? 16 : 12);
    D.window(0.f, 70000).window(1.f, 70000);
    const uint64_t dn = D.n();
    ex.add("fine", "one component over a fine float lattice, in every position, clipped to 0..1 and -1..100", dn * 3, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int j = (int)d.pick(3);
        const float v = D.at(d.v);
        float c[3] = {0.25f, 0.5f, 0.75f};
        c[j] = v;
        const T3 t(c[0], c[1], c[2]), o = t.clip(0.f, 1.f), q = t.clip(-1.f, 100.f), p = t.positive();
        k.call(6); k.outf(o[j]);
        for (int m = 0; m < 3; m++)
        {
            k.eq("clip 0..1", o[m], m != j ? c[m] : v < 0 ? 0 : v > 1 ? 1 : v);
            k.eq("clip -1..100", q[m], m != j ? c[m] : v < -1 ? -1 : v > 100 ? 100 : v);
            k.eq("positive", p[m], m != j ? c[m] : v < 0 ? 0 : v);
        }
        k.eq("min3", t.min3(), lo(c[0], lo(c[1], c[2])));
        k.eq("max3", t.max3(), hi(c[0], hi(c[1], c[2])));
        k.ok(t.hasNegative() == (v < 0), "hasNegative");
    });
    static std::vector<float> FL, CL;
    for (int i = -14; i < 76; i++) FL.push_back(0.02f * i + 0.0137f);
    for (float v : {1e-5f, 0.00033f, 0.0021f, 0.0053f, 0.0104f, 1.77f, 2.6f, 3.9f, 7.1f, 16.3f, 51.f, 103.f, 255.f, 777.f, 1234.5f, 9.9e4f}) { FL.push_back(v); FL.push_back(-v); }
    FL.push_back(0.f); FL.push_back(1.f); FL.push_back(-1.f);
    for (float v : {0.f, 1.f, 0.0007f, 0.0023f, 0.0061f, 0.0103f, 0.055f, 0.127f, 0.21f, 0.315f, 0.43f, 0.505f, 0.62f, 0.735f, 0.81f, 0.935f, 1.07f, 1.6f, 13.7f, 1500.f}) { CL.push_back(v); if (v != 0) CL.push_back(-v); }
    static const float BD[14][2] = {{0, 1}, {0, 100}, {-1, 1}, {0.0625f, 0.92f}, {0.2f, 0.43f}, {0.5f, 0.5f}, {-0.1f, 0.f}, {-5, 1500}, {1, 2}, {0.001f, 0.005f}, {0.9f, 1.1f}, {-300, -0.2f}, {0, 65504}, {16, 235}};
    auto all = [](mc::Ctx &k, const float *a, const float *b, int n) {
        const T3 t(a[0], a[1], a[2]), u(b[0], b[1], b[2]);
        const float l = BD[n][0], h = BD[n][1];
        if (k.verbose) k.note("(%.9g, %.9g, %.9g) and (%.9g, %.9g, %.9g), bounds %g..%g", a[0], a[1], a[2], b[0], b[1], b[2], l, h);
        k.call(12); k.outf(t.min3(), t.max3(), a[1]);
        eqT(k, "min", t.min(u), lo(a[0], b[0]), lo(a[1], b[1]), lo(a[2], b[2]));
        eqT(k, "max", t.max(u), hi(a[0], b[0]), hi(a[1], b[1]), hi(a[2], b[2]));
        eqT(k, "static min", T3::min(t, u), lo(a[0], b[0]), lo(a[1], b[1]), lo(a[2], b[2]));
        eqT(k, "static max", T3::max(t, u), hi(a[0], b[0]), hi(a[1], b[1]), hi(a[2], b[2]));
        eqT(k, "clip", t.clip(l, h), lo(hi(a[0], l), h), lo(hi(a[1], l), h), lo(hi(a[2], l), h));
        eqT(k, "static clip", T3::clip(t, l, h), lo(hi(a[0], l), h), lo(hi(a[1], l), h), lo(hi(a[2], l), h));
        eqT(k, "positive", t.positive(), hi(a[0], 0), hi(a[1], 0), hi(a[2], 0));
        eqT(k, "static positive", T3::positive(t), hi(a[0], 0), hi(a[1], 0), hi(a[2], 0));
        k.eq("min3", t.min3(), lo(a[0], lo(a[1], a[2])));
        k.eq("max3", t.max3(), hi(a[0], hi(a[1], a[2])));
        const bool neg = a[0] < 0 || a[1] < 0 || a[2] < 0;
        k.ok(t.hasNegative() == neg && T3::hasNegative(t) == neg, "hasNegative");
    };
    ex.add("colours", "every colour over 39^3 ordinary values x 14 pairs of bounds (a partner colour goes round with them), both orders", CL.size() * CL.size() * CL.size() * 14, [=](mc::Ctx &k, uint64_t i) {
        static const float YB[9][3] = {{0.95f, 1.f, 1.089f}, {-0.3f, 0.47f, 12.7f}, {0.18f, 0.18f, 0.18f}, {0.f, -0.02f, 0.6f}, {0.43f, 0.22f, 0.08f}, {0.002f, 0.004f, 0.006f}, {0.93f, 0.95f, 0.98f}, {-1.3f, -0.7f, -250.f}, {1500.f, 0.3f, 1e-5f}};
        mc::Mixed d(i);
        const int n = (int)d.pick(14);
        float a[3];
        for (int j = 0; j < 3; j++) a[j] = d.of(CL);
        all(k, a, YB[n % 9], n);
        if (!k.bad) all(k, YB[n % 9], a, n);
    });
    ex.add("colours-fine", "every colour with two components over 125 values and one over 39, against its mirror image", FL.size() * FL.size() * CL.size() * 3, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int o = (int)d.pick(3);
        float a[3], b[3];
        a[o] = d.of(CL); a[(o + 1) % 3] = d.of(FL); a[(o + 2) % 3] = d.of(FL);
        for (int j = 0; j < 3; j++) b[j] = a[2 - j];
        all(k, a, b, (int)((i / 3) % 14));
    });
}
MC_MAIN(setup)
