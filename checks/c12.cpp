// C12: inversion.
#include "ref.hpp"
using namespace ref;
typedef CS::Matrix3 MX;
static void chk(mc::Ctx &k, const M3 &A, double maxcond)
{
    const double d = det(A);
    if (d == 0) return k.skip();
    const M3 I = inv(A);
    const double cond = normInf(A) * normInf(I);
    if (cond > maxcond) return k.skip();
    const MX a = mat(A), x = MX::invert(a), y = a.invert();
    k.call(3); k.outf(x[0], x[4], x[8]);
    if (k.verbose) k.note("A=[%g %g %g; %g %g %g; %g %g %g], condition %.3g, inverse [%g %g %g; %g %g %g; %g %g %g]", A.m[0], A.m[1], A.m[2], A.m[3], A.m[4], A.m[5], A.m[6], A.m[7], A.m[8], cond, x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8]);
    // cofactor inversion in floats: error of det relative to det grows with sum|terms|/|det| <= cond^2
    double tt = 0;
    static const int P[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {1, 0, 2}, {2, 1, 0}};
    for (auto &p : P) tt += std::fabs(A(0, p[0]) * A(1, p[1]) * A(2, p[2]));
    const double amp = 6 * mc::EPS * (cond + tt / std::fabs(d));
    const double nI = normInf(I), nA = normInf(A);
    for (int i = 0; i < 9; i++)
    {
        k.near("inverse element", x[i], I.m[i], amp * nI);
        k.near("member form", y[i], x[i], 1e-6 * nI);
    }
    const MX l = x.mul(a), r = a.mul(x);
    for (int i = 0; i < 9; i++)
    {
        k.near("inverse * matrix", l[i], i % 4 == 0, amp * cond + 1e-6 * cond);
        k.near("matrix * inverse", r[i], i % 4 == 0, amp * cond + 1e-6 * cond);
    }
    const MX b = x.invert();
    if (amp * cond * cond < 0.1)
        for (int i = 0; i < 9; i++) k.near("inverse of the inverse", b[i], A.m[i], nA * 4 * amp * cond * cond);
}
void setup(mc::Explorer &ex)
{
    ex.add("{-1,0,1}", "every 3x3 matrix over {-1,0,1}", 19683, [=](mc::Ctx &k, uint64_t i) { M3 m; for (int j = 0; j < 9; j++) { m.m[j] = (int)(i % 3) - 1; i /= 3; } chk(k, m, 1e4); });
    ex.add("{-2..2}", "every 3x3 matrix over {-2..2}", 1953125, [=](mc::Ctx &k, uint64_t i) { M3 m; for (int j = 0; j < 9; j++) { m.m[j] = (int)(i % 5) - 2; i /= 5; } chk(k, m, 1e4); });
    if (ex.thorough) ex.add("{-3..3}", "every 3x3 matrix over {-3..3}", 40353607, [=](mc::Ctx &k, uint64_t i) { M3 m; for (int j = 0; j < 9; j++) { m.m[j] = (int)(i % 7) - 3; i /= 7; } chk(k, m, 1e4); });
    static const float W[] = {0.8951f, 0.f, -0.1614f, 1.7135f};
    ex.add("colour-like", "every 3x3 matrix over four non-dyadic values", 262144, [=](mc::Ctx &k, uint64_t i) { M3 m; for (int j = 0; j < 9; j++) { m.m[j] = W[i & 3]; i >>= 2; } chk(k, m, 1e4); });
    static const float S[] = {1e-10f, 1e-6f, 1e-3f, 0.02f, 0.37f, 1.f, 11.f, 300.f, 1e3f, 1e6f, 1e10f};
    ex.add("scaled", "every {-1,0,1} matrix at eleven magnitudes from 1e-10 to 1e10", 19683 * 11, [=](mc::Ctx &k, uint64_t i) { M3 m; const float s = S[i % 11]; i /= 11; for (int j = 0; j < 9; j++) { m.m[j] = (float)(((int)(i % 3) - 1) * s); i /= 3; } chk(k, m, 1e4); });
    static const float RS[] = {1.f, 0.03f, 25.f, 400.f, 1e-3f};
    const uint64_t nr = ex.thorough ? 5 : 3;
    ex.add("badly-scaled", "every {-1,0,1} matrix with its rows, or its columns, scaled by every triple of 1, 0.03, 25 (thorough: also 400, 1e-3)", 19683 * 2 * nr * nr * nr, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const bool col = d.pick(2);
        float s[3];
        for (int j = 0; j < 3; j++) s[j] = RS[d.pick(nr)];
        M3 m;
        for (int j = 0; j < 9; j++) m.m[j] = (float)((int)d.pick(3) - 1) * s[col ? j % 3 : j / 3];
        chk(k, m, 1e6);
    });
    ex.add("diagonal-dominant", "identity plus every pattern of off-diagonal {-0.25,0,0.3}", 729 * 8, [=](mc::Ctx &k, uint64_t i) {
        static const float O[] = {-0.25f, 0.f, 0.3f};
        M3 m; const uint64_t d = i % 8; i /= 8;
        for (int j = 0; j < 9; j++) if (j % 4 == 0) m.m[j] = (d >> (j / 4) & 1) ? 2.5f : 0.7f; else { m.m[j] = O[i % 3]; i /= 3; }
        chk(k, m, 1e4);
    });
    // rotations and signed permutations, and every small disturbance of them
    static std::vector<M3> base;
    {
        static const int P[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {1, 0, 2}, {2, 1, 0}};
        for (auto &p : P)
            for (int s = 0; s < 8; s++)
            {
                M3 m{};
                for (int j = 0; j < 9; j++) m.m[j] = 0;
                for (int j = 0; j < 3; j++) m.m[3 * j + p[j]] = s >> j & 1 ? -1 : 1;
                base.push_back(m);
            }
        for (int ax = 0; ax < 3; ax++)
            for (double t : {0.01, 0.3, 0.7853981634, 1.2, 2.0, -0.5})
            {
                M3 m{};
                const int a = (ax + 1) % 3, b = (ax + 2) % 3;
                for (int j = 0; j < 9; j++) m.m[j] = j % 4 == 0;
                m.m[3 * a + a] = m.m[3 * b + b] = (float)std::cos(t);
                m.m[3 * a + b] = (float)-std::sin(t);
                m.m[3 * b + a] = (float)std::sin(t);
                base.push_back(m);
            }
    }
    static const float DD[] = {1e-5f, 1e-3f, 0.01f, 0.03f, 0.1f, 0.2f};
    const uint64_t nd = ex.thorough ? 6 : 3, nb = ex.thorough ? base.size() : 24;
    ex.add("near-rotations", "signed permutations and axis rotations (quick: 24 of them, thorough: all 66) with every entry moved by -d, 0 or +d, for d in 1e-3, 0.03, 0.2 (thorough: six values)", nb * nd * 19683, [=](mc::Ctx &k, uint64_t i) {
        const float d = ex.thorough ? DD[i % 6] : DD[2 * (i % 3) + 1];
        i /= nd;
        M3 m = base[ex.thorough ? i / 19683 : (i / 19683) * 66 / 24];
        i %= 19683;
        for (int j = 0; j < 9; j++) { m.m[j] = (float)(m.m[j] + ((int)(i % 3) - 1) * d); i /= 3; }
        chk(k, m, 1e4);
    });
    const uint64_t n = ex.thorough ? 4000001 : 400001;
    ex.add("crosstalk", "cross-talk parameter r over -10..10 (uniform), except near 1/3", n, [=](mc::Ctx &k, uint64_t i) {
        const float r = lin(i, n, -10, 10);
        const MX c = MX::crosstalk(r);
        k.call(); k.outf(c[0], c[1]);
        if (k.verbose) k.note("r=%.9g: [%g %g %g ...]", r, c[0], c[1], c[2]);
        const double m = 1 + 3 * std::fabs((double)r);
        for (int j = 0; j < 3; j++) k.near("row sum", (double)c[3 * j] + c[3 * j + 1] + c[3 * j + 2], 1, 4e-7 * m);
        for (int j = 0; j < 9; j++) k.near("element", c[j], j % 4 ? (double)r : 1 - 2 * (double)r, 4e-7 * m);
        const double g = std::fabs(3 * (double)r - 1);
        if (g < 1e-3) return k.skip();
        const MX v = MX::crosstalkInvert(r), p = c.mul(v), q = v.mul(c);
        k.call();
        const double t = 4e-6 * m * m / g * std::max(1.0, 1 / g);
        for (int j = 0; j < 9; j++) { k.near("crosstalk * inverse", p[j], j % 4 == 0, t); k.near("inverse * crosstalk", q[j], j % 4 == 0, t); }
    });
    ex.vary("after-other-arguments", {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {0.4124f, 0.3576f, 0.1805f, 0.2126f, 0.7152f, 0.0722f, 0.0193f, 0.1192f, 0.9505f}, {2, -1, 0.5f, 3, 4, -2, 1, 1, 1}}, [=](mc::Ctx &k, const float *a) { M3 m; for (int j = 0; j < 9; j++) m.m[j] = a[j]; chk(k, m, 1e4); }, [](const float *a) { float b[9]; for (int j = 0; j < 9; j++) b[j] = a[j]; volatile float z = MX::fromArray(b).invert()[0]; (void)z; });
}
MC_MAIN(setup)
