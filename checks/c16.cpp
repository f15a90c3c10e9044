// C16: UV, E76 and ICtCp differences.
#include "ref.hpp"
using namespace ref;
typedef CS::Tristimulus T3;
typedef float (*Dist)(const T3 &, const T3 &);
static float dUV(const T3 &a, const T3 &b) { return CS::Delta::UV(a, b); }
static float dE76(const T3 &a, const T3 &b) { return CS::Delta::E76(a, b); }
static float dICtCp(const T3 &a, const T3 &b) { return CS::Delta::ICtCp(a, b); }
static Dist         F[3] = {dUV, dE76, dICtCp};
static const char  *N[3] = {"UV", "E76", "ICtCp"};
// reference distance, and the rounding slack of the real one (forward error of the components, relative error of the rest)
static double refd(int m, const T3 &a, const T3 &b, double &tol)
{
    if (m == 0)
    {
        const double r = std::hypot((double)a[1] - b[1], (double)a[2] - b[2]);
        tol = 4 * mc::EPS * r;
        return r;
    }
    if (m == 1)
    {
        const double r = std::sqrt(((double)a[0] - b[0]) * ((double)a[0] - b[0]) + ((double)a[1] - b[1]) * ((double)a[1] - b[1]) + ((double)a[2] - b[2]) * ((double)a[2] - b[2]));
        tol = 4 * mc::EPS * r;
        return r;
    }
    // the ICtCp components themselves are C09's subject; the metric is judged on the library's own components
    const T3     p = CS::XYZ_to_ICtCp(a), q = CS::XYZ_to_ICtCp(b);
    const double i = (double)p[0] - q[0], t = 0.5 * ((double)p[1] - q[1]), c = (double)p[2] - q[2], r = std::sqrt(i * i + t * t + c * c);
    tol = 6 * mc::EPS * r + 1e-6;
    return r;
}
static bool same(const T3 &a, const T3 &b, int m) { return (m == 0 || a[0] == b[0]) && a[1] == b[1] && a[2] == b[2]; }
static void pairCase(mc::Ctx &k, int m, const T3 &a, const T3 &b)
{
    const float d = F[m](a, b), e = F[m](b, a);
    k.call(2); k.outf(d, (float)m);
    if (k.verbose) k.note("%s of (%.9g, %.9g, %.9g) and (%.9g, %.9g, %.9g) = %.9g, swapped %.9g", N[m], a[0], a[1], a[2], b[0], b[1], b[2], d, e);
    k.ok(d >= 0 && std::isfinite(d), "difference finite and not negative");
    double tol;
    const double r = refd(m, a, b, tol);
    // differences whose square underflows are below single precision
    k.near("distance", d, r, tol + 1.2e-19);
    k.near("symmetry", e, d, 2 * mc::EPS * d + (m == 2 ? 2e-6 : 0));
    if (same(a, b, m)) k.eq("difference of identical colours", d, 0);
    else if (m < 2 && r > 1e-18) k.ok(d > 0, "distinct colours have a positive difference");
    if (m == 0)
    {
        k.eq("UV after changing the luminance", F[0](T3(a[0] * 3 + 1, a[1], a[2]), T3(b[0] - 7, b[1], b[2])), d);
        k.call();
    }
}
void setup(mc::Explorer &ex)
{
    static std::vector<float> A = {0.f, 1.f, -1.f, 0.5f, -0.5f, 100.f, -100.f, 127.f, -128.f, 3.f, -3.f, 1e-3f, -1e-3f, 33.3f, -66.6f, 0.1979f, 0.4683f, 1e-6f, 1e4f, -1e4f, 50.f, 99.999f, 12.5f};
    if (ex.thorough)
        for (int i = 0; i < 30; i++) A.push_back((i - 15) * 7.3f);
    const uint64_t n = A.size();
    for (int m = 0; m < 2; m++)
        ex.add(m ? "pairs-e76" : "pairs-uv", "all pairs of colours with components from a signed lattice", n * n * n * n * n * n, [=](mc::Ctx &k, uint64_t i) {
            mc::Mixed d(i);
            const float a = d.of(A), b = d.of(A), c = d.of(A), e = d.of(A), f = d.of(A), g = d.of(A);
            if (m == 0 && (i / (n * n * n)) % n > 3) { k.skip(); return; } // the second luminance only needs a few values for UV
            pairCase(k, m, T3(a, b, c), T3(e, f, g));
        });
    static std::vector<float> X = {0.f, 1.f, 0.18f, 0.5f, 1e-3f, 1e-5f, 100.f, 10.f, 0.9505f, 1.089f, 2.f, 0.05f, 150.f, -0.1f};
    if (ex.thorough) for (float f : {0.3f, 0.75f, 50.f, 1e-4f}) X.push_back(f);
    const uint64_t x = X.size();
    ex.add("pairs-ictcp", "all pairs of XYZ colours with components from a lattice incl. saturating ones", x * x * x * x * x * x, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const float a = d.of(X), b = d.of(X), c = d.of(X), e = d.of(X), f = d.of(X), g = d.of(X);
        pairCase(k, 2, T3(a, b, c), T3(e, f, g));
    });
    // every single component varied finely against a fixed partner
    static Domain D;
    D.lattice(-40, 12, ex.thorough ? 16 : 13);
    D.neglattice(-40, 12, ex.thorough ? 16 : 13);
    const uint64_t dn = D.n();
    ex.add("fine", "each component of one colour over a fine two-sided float lattice, partner fixed; distance and exactness", dn * 9 * 2, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int   m = (int)d.pick(3), j = (int)d.pick(3), base = (int)d.pick(2);
        const float v = D.at(d.v);
        if (m == 2 && !(v >= 0 && v <= 100)) return k.skip();
        float c[3] = {base ? 50.f : 0.f, base ? 0.2f : 0.f, base ? 0.47f : 0.f};
        if (m == 2) { c[0] = base ? .95f : 1; c[1] = base ? 1.f : .4f; c[2] = base ? 1.09f : .7f; }
        const T3 q(c[0], c[1], c[2]);
        c[j] = v;
        pairCase(k, m, T3(c[0], c[1], c[2]), q);
    });
    static std::vector<float> S = {0.f, 1.f, -1.f, 50.f, -77.5f, 0.01f, 3.f};
    const uint64_t s = S.size(), s3 = s * s * s;
    for (int m = 0; m < 2; m++)
        ex.add(m ? "triangle-e76" : "triangle-uv", "triangle inequality on all triples of lattice colours", s3 * s3 * s3, [=](mc::Ctx &k, uint64_t i) {
            mc::Mixed d(i);
            const float a = d.of(S), b = d.of(S), c = d.of(S), e = d.of(S), f = d.of(S), g = d.of(S), p = d.of(S), q = d.of(S), r = d.of(S);
            const T3    u(a, b, c), v(e, f, g), w(p, q, r);
            const double uv = F[m](u, v), vw = F[m](v, w), uw = F[m](u, w);
            k.call(3);
            if (k.verbose) k.note("d(u,v)=%.9g d(v,w)=%.9g d(u,w)=%.9g", uv, vw, uw);
            k.ok(uw <= uv + vw + 4 * mc::EPS * (uv + vw), "triangle inequality");
        });
    static std::vector<float> Y = {0.f, 1.f, 0.18f, 0.01f, 100.f, 10.f};
    const uint64_t y = Y.size(), y3 = y * y * y;
    ex.add("triangle-ictcp", "triangle inequality on all triples of lattice colours", y3 * y3 * y3, [=](mc::Ctx &k, uint64_t i) {
        static std::vector<float> tab; // distances are pure functions of the pair (C26); tabulated per worker
        if (tab.empty())
        {
            tab.resize(y3 * y3);
            auto col = [&](uint64_t j) { return T3(Y[j % y], Y[j / y % y], Y[j / y / y]); };
            for (uint64_t p = 0; p < y3; p++)
                for (uint64_t q = 0; q < y3; q++) tab[p * y3 + q] = F[2](col(p), col(q));
            k.call(y3 * y3);
        }
        mc::Mixed d(i);
        const uint64_t u = d.pick(y3), v = d.pick(y3), w = d.pick(y3);
        const double uv = tab[u * y3 + v], vw = tab[v * y3 + w], uw = tab[u * y3 + w];
        if (k.verbose) k.note("colours %llu %llu %llu: d(u,v)=%.9g d(v,w)=%.9g d(u,w)=%.9g", (unsigned long long)u, (unsigned long long)v, (unsigned long long)w, uv, vw, uw);
        k.ok(uw <= uv + vw + 4 * mc::EPS * (uv + vw) + 2e-6, "triangle inequality");
    });
    ex.vary("after-other-arguments", {{50.f, 10.f, -20.f, 52.f, 12.f, -17.f}, {1.f, 0.2f, 0.47f, 1.f, 0.21f, 0.46f}, {0.3f, 0.4f, 0.2f, 0.31f, 0.4f, 0.2f}}, [=](mc::Ctx &k, const float *a) { for (int m = 0; m < 3 && !k.bad; m++) pairCase(k, m, T3(a[0], a[1], a[2]), T3(a[3], a[4], a[5])); }, [](const float *a) { for (int m = 0; m < 3; m++) { volatile float z = F[m](T3(a[0], a[1], a[2]), T3(a[3], a[4], a[5])); (void)z; } });
    static const std::vector<float> SH = {0.f, 1.f, -1.f, 0.5f, 0.97f, -0.3f};
    ex.add("scales", "all pairs of colour shapes at powers of two from 2^-60 to 2^60: UV and E76", (uint64_t)46656 * 41 * 2, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int m = (int)d.pick(2);
        const float s = std::ldexp(1.1f, 3 * (int)d.pick(41) - 60);
        const float a = d.of(SH), b = d.of(SH), c = d.of(SH), e = d.of(SH), f = d.of(SH), g = d.of(SH);
        if (m == 0 && s > 1e9f && (a || e)) return k.skip(); // the luminance change of that check is not exact there
        pairCase(k, m, T3(a * s, b * s, c * s), T3(e * s, f * s, g * s));
    });
}
MC_MAIN(setup)
