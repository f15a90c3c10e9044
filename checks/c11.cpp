// C11: vector/matrix/tristimulus algebra is exact on exactly representable data.
#include "ref.hpp"
#include <array>
using namespace ref;
typedef CS::Tristimulus T3;
typedef CS::Vector3 V3;
typedef CS::Matrix3 MX;
struct IM { int m[9]; };
static IM decode(uint64_t i, int lo, int radix)
{
    IM r;
    for (int j = 0; j < 9; j++) { r.m[j] = lo + (int)(i % radix); i /= radix; }
    return r;
}
static MX mx(const IM &a) { return MX(a.m[0], a.m[1], a.m[2], a.m[3], a.m[4], a.m[5], a.m[6], a.m[7], a.m[8]); }
static long idet(const IM &a)
{
    const int *m = a.m;
    return (long)m[0] * (m[4] * m[8] - m[5] * m[7]) - (long)m[1] * (m[3] * m[8] - m[5] * m[6]) + (long)m[2] * (m[3] * m[7] - m[4] * m[6]);
}
static IM imul(const IM &a, const IM &b)
{
    IM r;
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) r.m[i * 3 + j] = a.m[i * 3] * b.m[j] + a.m[i * 3 + 1] * b.m[3 + j] + a.m[i * 3 + 2] * b.m[6 + j];
    return r;
}
static bool meq(const MX &a, const IM &b)
{
    for (int i = 0; i < 9; i++) if (!(a[i] == (float)b.m[i])) return false;
    return true;
}
static bool meq(const MX &a, const MX &b)
{
    for (int i = 0; i < 9; i++) if (!(a[i] == b[i])) return false;
    return true;
}
static bool veq(const V3 &a, double x, double y, double z) { return a[0] == x && a[1] == y && a[2] == z; }
static bool teq(const T3 &a, double x, double y, double z) { return a[0] == x && a[1] == y && a[2] == z; }
static void show(mc::Ctx &k, const char *n, const IM &a) { k.note("%s=[%d %d %d; %d %d %d; %d %d %d]", n, a.m[0], a.m[1], a.m[2], a.m[3], a.m[4], a.m[5], a.m[6], a.m[7], a.m[8]); }

static void pairCheck(mc::Ctx &k, const IM &A, const IM &B)
{
    const MX a = mx(A), b = mx(B);
    const IM P = imul(A, B);
    const MX p = MX::mul(a, b), q = a.mul(b);
    k.call(6);
    if (k.verbose) { show(k, "A", A); show(k, "B", B); }
    k.out((uint64_t)(P.m[0] + 7 * P.m[1] + 49 * P.m[2] + 343 * P.m[3] + 2401 * P.m[4] + 16807 * P.m[5]) ^ (uint64_t)P.m[8] << 40);
    if (!meq(p, P)) k.fail("static mul(A,B) is wrong");
    if (!meq(q, P)) k.fail("member A.mul(B) is wrong");
    IM S;
    for (int i = 0; i < 9; i++) S.m[i] = A.m[i] + B.m[i];
    if (!meq(MX::add(a, b), S) || !meq(a.add(b), S)) k.fail("add is wrong");
    double mp = 0;
    for (int i = 0; i < 9; i++) mp = std::max(mp, std::fabs((double)P.m[i]));
    const double slack = 6 * mp * mp * mp < 16777216.0 ? 0 : 6e-6 * mp * mp * mp; // exact while the products fit in 24 bits
    k.w->cmps += 24;
    if (!(std::fabs(MX::det(p) - (double)(idet(A) * idet(B))) <= slack)) k.fail("det(AB)=%g, det(A)det(B)=%ld", MX::det(p), idet(A) * idet(B));
    if (!meq(p.transpose(), MX::mul(b.transpose(), a.transpose()))) k.fail("(AB)^T differs from B^T A^T");
    const V3 v(2.f, -3.f, 5.f), r1 = p.apply(v), r2 = a.apply(b.apply(v));
    if (!(r1[0] == r2[0] && r1[1] == r2[1] && r1[2] == r2[2])) k.fail("(AB)v differs from A(Bv)");
}
static void unary(mc::Ctx &k, const IM &A)
{
    const MX a = mx(A), I;
    k.w->cmps += 400;
    const int *m = A.m;
    k.call(30); k.out((uint64_t)idet(A) * 1000003 + (uint64_t)(m[0] + 3 * m[1] + 9 * m[2] + 27 * m[3] + 81 * m[4]));
    if (k.verbose) show(k, "A", A);
    const float arr[9] = {(float)m[0], (float)m[1], (float)m[2], (float)m[3], (float)m[4], (float)m[5], (float)m[6], (float)m[7], (float)m[8]};
    if (!meq(MX::fromArray(arr), A)) k.fail("fromArray");
    if (!meq(I.mul(a), A) || !meq(a.mul(I), A)) k.fail("default matrix is not neutral");
    const IM Tr = {{m[0], m[3], m[6], m[1], m[4], m[7], m[2], m[5], m[8]}};
    if (!meq(MX::transpose(a), Tr) || !meq(a.transpose(), Tr)) k.fail("transpose");
    if (!(MX::det(a) == (float)idet(A)) || !(a.det() == (float)idet(A))) k.fail("determinant %g, exact %ld", a.det(), idet(A));
    if (a.size() != 9) k.fail("size");
    int n = 0;
    for (auto it = a.begin(); it != a.end(); ++it, ++n) if (n >= 9 || !(*it == (float)m[n])) return k.fail("iteration");
    if (n != 9) k.fail("iteration length %d", n);
    for (int i = 0; i < 3; i++)
    {
        if (!veq(a.row(i), m[3 * i], m[3 * i + 1], m[3 * i + 2])) k.fail("row(%d)", i);
        if (!veq(a.col(i), m[i], m[3 + i], m[6 + i])) k.fail("col(%d)", i);
    }
    for (float s : {2.f, -0.5f, 0.f})
    {
        const MX x = MX::mul(a, s), y = a.mul(s);
        for (int i = 0; i < 9; i++) if (!(x[i] == m[i] * s) || !(y[i] == m[i] * s)) return k.fail("scalar product");
    }
    for (float s : {2.f, -0.5f, 4.f})
    {
        const MX x = MX::div(a, s), y = a.div(s);
        for (int i = 0; i < 9; i++) if (!(x[i] == m[i] / s) || !(y[i] == m[i] / s)) return k.fail("scalar division");
    }
    if (!meq(MX::diag(V3(m[0], m[1], m[2])), IM{{m[0], 0, 0, 0, m[1], 0, 0, 0, m[2]}})) k.fail("diag");
    if (!meq(CS::Gamut::diag(V3(m[0], m[1], m[2])), IM{{m[0], 0, 0, 0, m[1], 0, 0, 0, m[2]}})) k.fail("Gamut::diag");
    for (int v = 0; v < 27; v++)
    {
        const int x = v % 3 * 3 - 2, y = v / 3 % 3 * 5 - 4, z = v / 9 * 7 - 6;
        const double w[3] = {(double)m[0] * x + m[1] * y + m[2] * z, (double)m[3] * x + m[4] * y + m[5] * z, (double)m[6] * x + m[7] * y + m[8] * z};
        const V3 vec(x, y, z);
        if (!veq(MX::apply(a, vec), w[0], w[1], w[2]) || !veq(a.apply(vec), w[0], w[1], w[2])) return k.fail("apply to (%d,%d,%d)", x, y, z);
        const T3 t(x, y, z);
        if (!teq(T3::apply(t, a), w[0], w[1], w[2]) || !teq(t.apply(a), w[0], w[1], w[2])) return k.fail("Tristimulus apply to (%d,%d,%d)", x, y, z);
    }
}
// values that are not exactly representable: every result within a few rounding errors of the terms it is made of
static const double EPS = 1.0 / 16777216;
static void realMatrix(mc::Ctx &k, const float *f)
{
    static const float PB[3][9] = {{0.4124f, 0.3576f, 0.1805f, 0.2126f, 0.7152f, 0.0722f, 0.0193f, 0.1192f, 0.9505f}, {1.7f, -0.61f, 0.043f, 33.1f, 0.007f, -2.9f, -0.37f, 0.91f, 5.3f}, {0.9f, 0.05f, 0.05f, 0.05f, 0.9f, 0.05f, 0.05f, 0.05f, 0.9f}};
    static const float PV[4][3] = {{0.95f, 1.f, 1.089f}, {-0.3f, 0.47f, 12.7f}, {0.18f, 0.18f, 0.18f}, {0.f, -0.02f, 0.6f}};
    static const float PS[7] = {0.507f, -1.3f, 310.f, 0.0031f, 1.02f, -0.093f, 7.7f};
    const MX a = MX::fromArray(f), a2(f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8]);
    if (k.verbose) k.note("A=[%.9g %.9g %.9g; %.9g %.9g %.9g; %.9g %.9g %.9g]", f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8]);
    k.call(40); k.w->cmps += 300;
    const double t[6] = {(double)f[0] * f[4] * f[8], (double)f[1] * f[5] * f[6], (double)f[2] * f[3] * f[7], -(double)f[0] * f[5] * f[7], -(double)f[2] * f[4] * f[6], -(double)f[1] * f[3] * f[8]};
    double det = 0, dm = 0;
    for (double x : t) { det += x; dm += std::fabs(x); }
    const MX tr = MX::transpose(a), tr2 = a.transpose();
    k.outf((float)det, f[0] + 3 * f[4], f[8] - f[2]);
    for (int j = 0; j < 9; j++)
    {
        if (!(a[j] == f[j]) || !(a2[j] == f[j])) return k.fail("entries are those given");
        if (!(tr[j] == f[j % 3 * 3 + j / 3]) || !(tr2[j] == tr[j])) return k.fail("transpose: entry %d is %.9g", j, tr[j]);
    }
    for (int r = 0; r < 3; r++)
        if (!veq(a.row(r), f[3 * r], f[3 * r + 1], f[3 * r + 2]) || !veq(a.col(r), f[r], f[3 + r], f[6 + r])) return k.fail("row or column %d", r);
    if (!(std::fabs(MX::det(a) - det) <= 10 * EPS * dm) || !(std::fabs(a.det() - det) <= 10 * EPS * dm)) return k.fail("determinant %.9g, exact %.12g", a.det(), det);
    for (float z : PS)
    {
        const MX m1 = MX::mul(a, z), m2 = a.mul(z), d1 = MX::div(a, z), d2 = a.div(z);
        for (int j = 0; j < 9; j++)
        {
            const double w = (double)f[j] * z, v = (double)f[j] / z;
            if (!(std::fabs(m1[j] - w) <= 2 * EPS * std::fabs(w)) || !(std::fabs(m2[j] - w) <= 2 * EPS * std::fabs(w))) return k.fail("matrix times %g, entry %d: %.9g, exact %.12g", z, j, m1[j], w);
            if (!(std::fabs(d1[j] - v) <= 4 * EPS * std::fabs(v)) || !(std::fabs(d2[j] - v) <= 4 * EPS * std::fabs(v))) return k.fail("matrix divided by %g, entry %d: %.9g, exact %.12g", z, j, d1[j], v);
        }
    }
    for (auto &v : PV)
    {
        const V3 x(v[0], v[1], v[2]), p = MX::apply(a, x), q = a.apply(x);
        const T3 tx(v[0], v[1], v[2]), tp = T3::apply(tx, a), tq = tx.apply(a);
        for (int r = 0; r < 3; r++)
        {
            double w = 0, m = 0;
            for (int c = 0; c < 3; c++) { const double y = (double)f[3 * r + c] * v[c]; w += y; m += std::fabs(y); }
            const double tl = 5 * EPS * m;
            if (!(std::fabs(p[r] - w) <= tl) || !(std::fabs(q[r] - w) <= tl) || !(std::fabs(tp[r] - w) <= tl) || !(std::fabs(tq[r] - w) <= tl)) return k.fail("apply to (%g,%g,%g), component %d: %.9g, exact %.12g", v[0], v[1], v[2], r, p[r], w);
        }
    }
    for (int n = 0; n < 4; n++)
    {
        const float *g = n < 3 ? PB[n] : f;
        const MX b = MX::fromArray(g), p = MX::mul(a, b), q = MX::mul(b, a), pm = a.mul(b), qm = b.mul(a), s1 = MX::add(a, b), s2 = a.add(b), s3 = MX::add(b, a);
        for (int r = 0; r < 3; r++)
            for (int c = 0; c < 3; c++)
            {
                double w = 0, m = 0, w2 = 0, n2 = 0;
                for (int x = 0; x < 3; x++)
                {
                    const double y = (double)f[3 * r + x] * g[3 * x + c], y2 = (double)g[3 * r + x] * f[3 * x + c];
                    w += y; m += std::fabs(y); w2 += y2; n2 += std::fabs(y2);
                }
                const int j = 3 * r + c;
                const double sm = (double)f[j] + g[j], ts = 2 * EPS * std::fabs(sm);
                if (!(std::fabs(p[j] - w) <= 5 * EPS * m) || !(std::fabs(pm[j] - w) <= 5 * EPS * m)) return k.fail("product with matrix %d, entry %d: %.9g, exact %.12g", n, j, p[j], w);
                if (!(std::fabs(q[j] - w2) <= 5 * EPS * n2) || !(std::fabs(qm[j] - w2) <= 5 * EPS * n2)) return k.fail("matrix %d times it, entry %d: %.9g, exact %.12g", n, j, q[j], w2);
                if (!(std::fabs(s1[j] - sm) <= ts) || !(std::fabs(s2[j] - sm) <= ts) || !(std::fabs(s3[j] - sm) <= ts)) return k.fail("sum with matrix %d, entry %d: %.9g, exact %.12g", n, j, s1[j], sm);
            }
    }
}
static void realColour(mc::Ctx &k, const float *a, const float *b, float s)
{
    const T3 x(a[0], a[1], a[2]), y(b[0], b[1], b[2]);
    const V3 vx(a[0], a[1], a[2]), vy(b[0], b[1], b[2]);
    k.call(16); k.w->cmps += 40;
    if (k.verbose) k.note("a=(%.9g,%.9g,%.9g) b=(%.9g,%.9g,%.9g) s=%.9g", a[0], a[1], a[2], b[0], b[1], b[2], s);
    k.outf(a[0] + b[0], a[1] * s, a[2]);
    const T3 S[3] = {T3::add(x, y), x.add(y), x + y}, P[3] = {T3::mul(x, y), x.mul(y), x * y}, Z[3] = {T3::scale(x, s), x.scale(s), x * s}, D = x / s;
    double dot = 0, dm = 0;
    for (int j = 0; j < 3; j++)
    {
        const double sm = (double)a[j] + b[j], p = (double)a[j] * b[j], z = (double)a[j] * s, d = (double)a[j] / s;
        dot += p; dm += std::fabs(p);
        for (int f = 0; f < 3; f++)
        {
            if (!(std::fabs(S[f][j] - sm) <= 2 * EPS * std::fabs(sm))) return k.fail("sum, form %d, component %d: %.9g, exact %.12g", f, j, S[f][j], sm);
            if (!(std::fabs(P[f][j] - p) <= 2 * EPS * std::fabs(p))) return k.fail("element-wise product, form %d, component %d: %.9g, exact %.12g", f, j, P[f][j], p);
            if (!(std::fabs(Z[f][j] - z) <= 2 * EPS * std::fabs(z))) return k.fail("scaling, form %d, component %d: %.9g, exact %.12g", f, j, Z[f][j], z);
        }
        if (!(std::fabs(D[j] - d) <= 4 * EPS * std::fabs(d))) return k.fail("division, component %d: %.9g, exact %.12g", j, D[j], d);
    }
    const float dd[4] = {T3::dot(x, y), x.dot(y), V3::dot(vx, vy), vx.dot(vy)};
    for (float d : dd) if (!(std::fabs(d - dot) <= 5 * EPS * dm)) return k.fail("dot product %.9g, exact %.12g", d, dot);
}
void setup(mc::Explorer &ex)
{
    const uint64_t N3 = 19683, N5 = 1953125;
    ex.add("unary{-1,0,1}", "every 3x3 matrix over {-1,0,1}: all unary operations, all forms", N3, [=](mc::Ctx &k, uint64_t i) { unary(k, decode(i, -1, 3)); });
    ex.add("unary{-2..2}", "every 3x3 matrix over {-2..2}", N5, [=](mc::Ctx &k, uint64_t i) { unary(k, decode(i, -2, 5)); });
    // distinct prime entries make any index mix-up visible
    ex.add("distinct", "matrices with nine pairwise different entries under all 362880 orders", 362880, [=](mc::Ctx &k, uint64_t i) {
        int p[9] = {2, 3, 5, 7, 11, 13, 17, 19, 23};
        IM A;
        for (int j = 0; j < 9; j++) { const int r = (int)(i % (9 - j)); i /= 9 - j; A.m[j] = p[r]; for (int q = r; q < 8 - j; q++) p[q] = p[q + 1]; }
        unary(k, A);
        const IM B = {{1, -4, 9, 25, -6, 8, 14, 10, -21}};
        pairCheck(k, A, B); pairCheck(k, B, A);
    });
    ex.add("pairs{-1,0,1}", "all ordered pairs of 3x3 matrices over {-1,0,1}", N3 * N3, [=](mc::Ctx &k, uint64_t i) { pairCheck(k, decode(i % N3, -1, 3), decode(i / N3, -1, 3)); });
    if (ex.thorough)
        ex.add("pairs{0,1}x{-2..2}", "all ordered pairs of a 3x3 matrix over {0,1} and one over {-2..2}, both orders", 512 * N5, [=](mc::Ctx &k, uint64_t i) { const IM a = decode(i % 512, 0, 2), b = decode(i / 512, -2, 5); pairCheck(k, a, b); pairCheck(k, b, a); });
    // power-of-two scales leave every result exact, so the laws must hold bit for bit at every magnitude
    const int step = ex.thorough ? 1 : 6;
    const uint64_t NE = 120 / step + 1;
    ex.add("scaled", "every 3x3 matrix over {-1,0,1} scaled by 2^e, e=-60..60 (steps of 6, thorough every one): product with and scaling by a factor of opposite scale, division, sum, transpose, application, determinant", N3 * NE, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int e = -60 + step * (int)d.pick(NE);
        const IM A = decode(d.v, -1, 3);
        const float s = std::ldexp(1.f, e);
        float f[9];
        for (int j = 0; j < 9; j++) f[j] = A.m[j] * s;
        const MX a = MX::fromArray(f);
        static const IM B = {{1, -4, 9, 25, -6, 8, 14, 10, -21}};
        const IM P = imul(A, B), Q = imul(B, A);
        const MX b = mx(B), p = a.mul(b), q = MX::mul(b, a), t = a.transpose(), sum = a.add(MX::mul(b, s));
        const V3 v = a.apply(V3(2.f, -3.f, 5.f)), w = b.apply(V3(f[0], f[1], f[2]));
        k.call(24); k.outf(p[0] + p[4], q[1] - q[5], e);
        if (k.verbose) { show(k, "A", A); k.note("scale 2^%d", e); }
        for (int j = 0; j < 9; j++)
        {
            if (!(a[j] == f[j])) return k.fail("fromArray at scale 2^%d", e);
            if (!(p[j] == P.m[j] * s) || !(q[j] == Q.m[j] * s)) return k.fail("product at scale 2^%d", e);
            if (!(t[j] == f[j % 3 * 3 + j / 3])) return k.fail("transpose at scale 2^%d", e);
            if (!(sum[j] == (A.m[j] + B.m[j]) * s)) return k.fail("sum at scale 2^%d", e);
        }
        for (int sg = 1; sg >= -1; sg -= 2)
        {
            const float z = sg * s;
            const MX m1 = MX::mul(mx(A), z), m2 = mx(A).mul(z), d1 = MX::div(a, z), d2 = a.div(z), u1 = MX::div(mx(A), z), u2 = mx(A).div(z);
            for (int j = 0; j < 9; j++)
            {
                if (!(m1[j] == A.m[j] * z) || !(m2[j] == A.m[j] * z)) return k.fail("matrix times %g", z);
                if (!(d1[j] == sg * A.m[j]) || !(d2[j] == sg * A.m[j])) return k.fail("matrix divided by %g", z);
                if (!(u1[j] == A.m[j] / z) || !(u2[j] == A.m[j] / z)) return k.fail("unit matrix divided by %g", z);
            }
        }
        const int *m = A.m;
        for (int r = 0; r < 3; r++)
        {
            if (!(v[r] == (2 * m[3 * r] - 3 * m[3 * r + 1] + 5 * m[3 * r + 2]) * s)) return k.fail("apply at scale 2^%d", e);
            if (!(w[r] == (B.m[3 * r] * m[0] + B.m[3 * r + 1] * m[1] + B.m[3 * r + 2] * m[2]) * s)) return k.fail("apply to a vector of scale 2^%d", e);
            if (!veq(a.row(r), f[3 * r], f[3 * r + 1], f[3 * r + 2]) || !veq(a.col(r), f[r], f[3 + r], f[6 + r])) return k.fail("row or column at scale 2^%d", e);
        }
        if (e >= -40 && e <= 40 && (!(a.det() == std::ldexp((float)idet(A), 3 * e)) || !(MX::det(a) == a.det()))) return k.fail("determinant %g at scale 2^%d, exact %ld", a.det(), e, idet(A));
        const T3 x(f[0], f[1], f[2]), y(f[3], f[4], f[5]), ut(m[0], m[1], m[2]);
        if (!teq(x + y, f[0] + f[3], f[1] + f[4], f[2] + f[5]) || !teq(T3::add(x, y), f[0] + f[3], f[1] + f[4], f[2] + f[5])) return k.fail("tristimulus sum at scale 2^%d", e);
        if (!teq(x / s, m[0], m[1], m[2]) || !teq(ut / s, m[0] / s, m[1] / s, m[2] / s) || !teq(ut * s, f[0], f[1], f[2]) || !teq(ut.scale(s), f[0], f[1], f[2])) return k.fail("tristimulus scaling by 2^%d", e);
        if (!teq(x * T3(m[3], m[4], m[5]), f[0] * m[3], f[1] * m[4], f[2] * m[5])) return k.fail("element-wise product at scale 2^%d", e);
        if (!(x.dot(T3(m[3], m[4], m[5])) == (m[0] * m[3] + m[1] * m[4] + m[2] * m[5]) * s) || !(V3::dot(x.vec3(), V3(m[3], m[4], m[5])) == (m[0] * m[3] + m[1] * m[4] + m[2] * m[5]) * s)) return k.fail("dot product at scale 2^%d", e);
        k.w->cmps += 110;
    });
    static const float W[] = {0.f, 1.f, -1.f, 2.f, -3.f, 0.5f, 7.f, -0.25f, 16.f};
    ex.add("vectors", "every pair of 3-vectors over 9 values: dot, sum, scaling, product, accessors, all forms", 531441, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        float a[3], b[3];
        for (int j = 0; j < 3; j++) a[j] = W[d.pick(9)];
        for (int j = 0; j < 3; j++) b[j] = W[d.pick(9)];
        const V3 va(a[0], a[1], a[2]), vb(b[0], b[1], b[2]);
        const T3 ta(a[0], a[1], a[2]), tb(vb);
        const double dot = (double)a[0] * b[0] + (double)a[1] * b[1] + (double)a[2] * b[2];
        k.call(24); k.outf((float)dot, a[0] + b[0], a[1]);
        if (k.verbose) k.note("a=(%g,%g,%g) b=(%g,%g,%g)", a[0], a[1], a[2], b[0], b[1], b[2]);
        k.ok(va.dot(vb) == dot && V3::dot(va, vb) == dot, "Vector3 dot");
        k.ok(T3::dot(ta, tb) == dot && ta.dot(tb) == dot, "Tristimulus dot");
        k.ok(va.x() == a[0] && va.y() == a[1] && va.z() == a[2] && va.size() == 3, "Vector3 accessors");
        k.ok(ta.a() == a[0] && ta.b() == a[1] && ta.c() == a[2] && ta.size() == 3, "Tristimulus accessors");
        k.ok(teq(tb, b[0], b[1], b[2]) && veq(tb.vec3(), b[0], b[1], b[2]), "Tristimulus from a vector");
        k.ok(teq(T3(a[1]), a[1], a[1], a[1]) && teq(T3(), 0, 0, 0), "Tristimulus from a scalar, default");
        k.ok(teq(T3::add(ta, tb), a[0] + b[0], a[1] + b[1], a[2] + b[2]) && teq(ta.add(tb), a[0] + b[0], a[1] + b[1], a[2] + b[2]) && teq(ta + tb, a[0] + b[0], a[1] + b[1], a[2] + b[2]), "sum");
        k.ok(teq(T3::mul(ta, tb), a[0] * b[0], a[1] * b[1], a[2] * b[2]) && teq(ta.mul(tb), a[0] * b[0], a[1] * b[1], a[2] * b[2]) && teq(ta * tb, a[0] * b[0], a[1] * b[1], a[2] * b[2]), "element-wise product");
        const float s = b[0];
        k.ok(teq(T3::scale(ta, s), a[0] * s, a[1] * s, a[2] * s) && teq(ta.scale(s), a[0] * s, a[1] * s, a[2] * s) && teq(ta * s, a[0] * s, a[1] * s, a[2] * s), "scaling");
        if (s == 0.5f || s == 2.f || s == -0.25f || s == 16.f || s == 1.f || s == -1.f) k.ok(teq(ta / s, a[0] / s, a[1] / s, a[2] / s), "division");
        int n = 0; bool good = true;
        for (auto it = va.begin(); it != va.end(); ++it, ++n) good &= n < 3 && *it == a[n];
        for (auto it = ta.begin(); it != ta.end(); ++it, ++n) good &= n < 6 && *it == a[n - 3];
        k.ok(good && n == 6, "iteration");
    });
    // a fine ladder for two entries at a time, a coarser one for three and for whole colours
    static std::vector<float> FL, CL, VL;
    for (int i = -14; i < 76; i++) FL.push_back(0.02f * i + 0.0137f);
    for (float v : {1e-5f, 0.00033f, 0.0021f, 0.0053f, 0.0104f, 1.77f, 2.6f, 3.9f, 7.1f, 16.3f, 51.f, 103.f, 255.f, 777.f, 1234.5f, 9.9e4f}) { FL.push_back(v); FL.push_back(-v); }
    FL.push_back(0.f); FL.push_back(1.f); FL.push_back(-1.f);
    for (float v : {0.f, 1.f, 0.0007f, 0.0023f, 0.0061f, 0.0103f, 0.055f, 0.127f, 0.21f, 0.315f, 0.43f, 0.505f, 0.62f, 0.735f, 0.81f, 0.935f, 1.07f, 1.6f, 13.7f, 1500.f}) { CL.push_back(v); if (v != 0) CL.push_back(-v); }
    static const float MB[4][9] = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {0.4124f, 0.3576f, 0.1805f, 0.2126f, 0.7152f, 0.0722f, 0.0193f, 0.1192f, 0.9505f}, {3.24f, -1.537f, -0.4986f, -0.9693f, 1.876f, 0.0416f, 0.0556f, -0.204f, 1.057f}, {-2.5f, 0.31f, 1.44f, 1.3f, -0.27f, 0.9f, 0.04f, 2.2f, 1.6f}};
    static std::vector<std::array<int, 3>> TP;
    for (int a = 0; a < 9; a++) for (int b = a + 1; b < 9; b++) for (int c = b + 1; c < 9; c++) TP.push_back({{a, b, c}});
    static std::vector<std::array<int, 2>> DP;
    for (int a = 0; a < 9; a++) for (int b = a + 1; b < 9; b++) DP.push_back({{a, b}});
    const uint64_t nb = ex.thorough ? 4 : 2;
    ex.add("real-two-entries", "two entries of a matrix over all pairs of 125 values that are not exactly representable (steps of 0.02 in -0.27..1.5, magnitudes 1e-5..1e5), the others from base matrices: every operation and form within a few rounding errors", (uint64_t)DP.size() * FL.size() * FL.size() * nb, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int b = (int)d.pick(nb);
        const auto p = DP[d.pick(DP.size())];
        float f[9];
        memcpy(f, MB[ex.thorough ? b : b * 2 + 1], sizeof f);
        f[p[0]] = d.of(FL); f[p[1]] = d.of(FL);
        realMatrix(k, f);
    });
    ex.add("real-three-entries", "three entries over all triples of 39 values, the others from base matrices", (uint64_t)TP.size() * CL.size() * CL.size() * CL.size() * (ex.thorough ? 4 : 1), [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int b = ex.thorough ? (int)d.pick(4) : 1;
        const auto p = TP[d.pick(TP.size())];
        float f[9];
        memcpy(f, MB[b], sizeof f);
        for (int j : p) f[j] = d.of(CL);
        realMatrix(k, f);
    });
    static const float YB[9][3] = {{0.95f, 1.f, 1.089f}, {-0.3f, 0.47f, 12.7f}, {0.18f, 0.18f, 0.18f}, {0.f, -0.02f, 0.6f}, {0.43f, 0.22f, 0.08f}, {0.002f, 0.004f, 0.006f}, {0.93f, 0.95f, 0.98f}, {-1.3f, -0.7f, -250.f}, {1500.f, 0.3f, 1e-5f}};
    static const std::vector<float> SS = {0.507f, -1.3f, 310.f, 0.0031f, 1.02f, -0.093f, 7.7f, 0.2f, 0.33f, 0.45f, 0.61f, 0.7f, 0.8f, 0.9f, 0.99f, 1.7f, 3.1f, 17.f, 41.f, 999.f, 1.1e4f, -0.6f, -3.3f, -90.f, 1e-6f, 0.013f, 0.051f};
    ex.add("real-colours", "every colour over 39^3 values x 27 factors (the partner colour, one of 9, goes round with them), both orders: sum, product, scaling, division, dot product, every form", (uint64_t)CL.size() * CL.size() * CL.size() * SS.size(), [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int n = (int)d.pick(SS.size());
        float a[3];
        for (int j = 0; j < 3; j++) a[j] = d.of(CL);
        realColour(k, a, YB[n % 9], SS[n]);
        if (!k.bad) realColour(k, YB[n % 9], a, SS[n]);
    });
    ex.add("real-colours-fine", "every colour with two components over 125 values and one over 39 x its mirror image", (uint64_t)FL.size() * FL.size() * CL.size() * 3, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int o = (int)d.pick(3);
        float a[3], b[3];
        a[o] = d.of(CL); a[(o + 1) % 3] = d.of(FL); a[(o + 2) % 3] = d.of(FL);
        for (int j = 0; j < 3; j++) b[j] = a[2 - j];
        realColour(k, a, b, a[0] != 0 ? a[0] : 0.7f);
    });
}
MC_MAIN(setup)
