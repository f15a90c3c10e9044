// C22: SVD and least-squares solver (built with AddressSanitizer).
#include "ref.hpp"
#include "dsvd.hpp"
using namespace ref;
namespace SV = CS::SOLVER;
typedef std::vector<std::vector<double>> A2;
static const double E = 1.1920928955078125e-07;
static void describe(mc::Ctx &k, const A2 &a, const std::vector<double> &b)
{
    std::string s;
    char        t[48];
    for (auto &r : a) { s += "["; for (double x : r) { snprintf(t, sizeof t, " %.9g", x); s += t; } s += " ]"; }
    s += " b = [";
    for (double x : b) { snprintf(t, sizeof t, " %.9g", x); s += t; }
    k.note("A = %s ]", s.c_str());
}
static void one(mc::Ctx &k, const A2 &a, const std::vector<std::vector<double>> &bs)
{
    const int m = (int)a.size(), n = (int)a[0].size();
    SV::Matrix M(m, n);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) M[i][j] = (float)a[i][j];
    if (k.verbose) describe(k, a, bs[0]);
    if (m < n)
    {
        SV::Vector b(m), x(n), w(n);
        SV::Matrix c = M, v(n, n);
        for (int i = 0; i < m; i++) b[i] = (float)bs[0][i];
        k.call(2);
        k.ok(SV::solve(M, b, x) < 0, "an under-determined system is reported by a negative return value");
#ifndef VERIF_CORE
        k.ok(SV::svdcmp(c, w, v) < 0, "svdcmp reports fewer rows than columns");
#endif
        return;
    }
    const dsvd::Svd ref(a);
    const double norm = ref.wmax;
#ifndef VERIF_CORE
    {
        SV::Matrix u = M, v(n, n);
        SV::Vector w(n);
        const int r = SV::svdcmp(u, w, v);
        k.call();
        if (!k.ok(r >= 0, "svdcmp succeeds")) return;
        const double t = 12 * E * (n + std::min((double)m, 6 * std::sqrt((double)m)));
        std::vector<double> ws(n), wr(ref.w);
        for (int j = 0; j < n; j++) { ws[j] = w[j]; if (!k.ok(w[j] >= 0 && std::isfinite(w[j]), "singular values finite and not negative")) return; }
        for (int i = 0; i < m; i++)
            for (int j = 0; j < n; j++)
            {
                double s = 0;
                for (int q = 0; q < n; q++) s += (double)u[i][q] * w[q] * v[j][q];
                k.near("U diag(w) V^T", s, a[i][j], t * norm);
            }
        for (int p = 0; p < n; p++)
            for (int q = p; q < n; q++)
            {
                double s = 0, z = 0;
                for (int i = 0; i < n; i++) s += (double)v[i][p] * v[i][q];
                k.near("V^T V", s, p == q, t);
                if (w[p] > 1e-4 * norm && w[q] > 1e-4 * norm)
                {
                    for (int i = 0; i < m; i++) z += (double)u[i][p] * u[i][q];
                    k.near("U^T U", z, p == q, t);
                }
            }
        std::sort(ws.begin(), ws.end());
        std::sort(wr.begin(), wr.end());
        for (int j = 0; j < n; j++) { k.near("singular value", ws[j], wr[j], t * norm); k.outf((float)ws[j]); }
        if (k.bad) return;
    }
#endif
    double small, zero;
    ref.gap(1e-5, small, zero);
    // systems whose smallest singular value is near the solver's own cut (1e-5) may legitimately go either way
    if (norm > 0 && (small < 5e-4 || zero > 1e-7)) { k.skip(); return; }
    for (auto &bd : bs)
    {
        SV::Vector b(m), x(n);
        for (int i = 0; i < m; i++) b[i] = (float)bd[i];
        for (int j = 0; j < n; j++) x[j] = 77.f; // previous contents must not matter
        const int r = SV::solve(M, b, x);
        k.call();
        if (!k.ok(r >= 0, "solve succeeds")) return;
        const std::vector<double> w = ref.solve(bd, 1e-5);
        double xn = 0, rn = 0, bn = 0;
        for (double q : w) xn = std::max(xn, std::fabs(q));
        for (int i = 0; i < m; i++)
        {
            double s = -bd[i];
            for (int j = 0; j < n; j++) s += a[i][j] * w[j];
            rn += s * s;
            bn += bd[i] * bd[i];
        }
        const double cond = 1 / small, tol = 12 * E * (n + std::min((double)m, 6 * std::sqrt((double)m))) * (cond * xn + cond * cond * std::sqrt(rn) / std::max(norm, 1e-300) * (norm > 0) + cond * std::sqrt(bn) / std::max(norm, 1e-300) * (norm > 0)) + 1e-30;
        if (k.verbose) k.note("singular value ratio %.3g", small);
        for (int j = 0; j < n; j++) { if (k.verbose) k.note("x[%d]", j); k.near("solution", x[j], w[j], tol); k.outf(x[j]); }
        if (k.bad) { if (!k.verbose) describe(k, a, bd); return; }
    }
}
static std::vector<std::vector<double>> rhs(int m, int kinds)
{
    std::vector<std::vector<double>> r;
    for (int q = 0; q < kinds; q++)
    {
        std::vector<double> b(m);
        for (int i = 0; i < m; i++) b[i] = q == 0 ? i + 1 : q == 1 ? ((i & 1) ? -1 : 2) : q == 2 ? (i == m - 1) : q == 3 ? 0 : 100.0 * ((i * 5) % 7) - 250;
        r.push_back(b);
    }
    return r;
}
static void shape(mc::Explorer &ex, int m, int n, int lo, int hi, int kinds, double scale = 1)
{
    const uint64_t base = hi - lo + 1;
    uint64_t N = 1;
    for (int i = 0; i < m * n; i++) N *= base;
    char name[64], desc[160];
    snprintf(name, sizeof name, "%dx%d{%d..%d}%s", m, n, lo, hi, scale == 1 ? "" : scale > 1e9 ? "huge" : scale > 1 ? "large" : scale < 1e-9 ? "minute" : "tiny");
    snprintf(desc, sizeof desc, "every %dx%d matrix with integer entries %d..%d%s, %d right-hand sides", m, n, lo, hi, scale == 1 ? "" : " times a power of two", kinds);
    ex.add(name, desc, N, [=](mc::Ctx &k, uint64_t i) {
        A2 a(m, std::vector<double>(n));
        for (int r = 0; r < m; r++) for (int c = 0; c < n; c++) { a[r][c] = scale * (lo + (int)(i % base)); i /= base; }
        one(k, a, rhs(m, kinds));
    });
}
void setup(mc::Explorer &ex)
{
    const bool th = ex.thorough;
    for (int m = 1; m <= 6; m++) shape(ex, m, 1, m > 4 ? -2 : -4, m > 4 ? 2 : 4, 5);
    shape(ex, 2, 2, -4, 4, 5);
    shape(ex, 3, 2, -2, 2, 5);
    shape(ex, 4, 2, -2, 2, th ? 5 : 1);
    shape(ex, 5, 2, -1, 1, 4);
    shape(ex, 3, 3, -1, 1, 5);
    shape(ex, 3, 3, -2, 2, th ? 3 : 1);
    shape(ex, 4, 3, -1, 1, th ? 4 : 1);
    shape(ex, 4, 4, 0, 1, 2);
    shape(ex, 5, 3, 0, 1, 3);
    if (th) shape(ex, 5, 4, 0, 1, 1), shape(ex, 3, 3, -3, 3, 1);
    shape(ex, 2, 2, -3, 3, 5, 1.0 / (1 << 20));
    shape(ex, 2, 2, -3, 3, 5, 1 << 20);
    shape(ex, 3, 3, -1, 1, 2, 1.0 / (1 << 20));
    shape(ex, 3, 3, -1, 1, 2, 1 << 20);
    shape(ex, 2, 2, -3, 3, 5, std::ldexp(1.0, -47));
    shape(ex, 2, 2, -3, 3, 5, std::ldexp(1.0, 47));
    shape(ex, 3, 3, -1, 1, 2, std::ldexp(1.0, -47));
    shape(ex, 3, 3, -1, 1, 2, std::ldexp(1.0, 47));
    shape(ex, 4, 2, -1, 1, 3, std::ldexp(1.0, -47));
    shape(ex, 4, 2, -1, 1, 3, std::ldexp(1.0, 47));
    // fewer equations than unknowns
    shape(ex, 1, 2, -2, 2, 1);
    shape(ex, 2, 3, -1, 1, 1);
    shape(ex, 1, 3, -2, 2, 1);
    shape(ex, 3, 4, 0, 1, 1);
    // larger shapes: modular patterns and Vandermonde-like fits, every (m, n, step, modulus)
    const int MX = 30;
    ex.add("patterns", "m x n up to 30 x 9 with entries (i*p + j*q + i*j) mod r - r/2, every p, q < 6 (rank-deficient ones included)", (uint64_t)MX * 9 * 36 * 4, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int m = (int)d.pick(MX) + 1, n = (int)d.pick(9) + 1, p = (int)d.pick(6), q = (int)d.pick(6);
        static const int R[4] = {5, 7, 11, 13};
        const int r = R[d.pick(4)];
        A2 a(m, std::vector<double>(n));
        for (int y = 0; y < m; y++) for (int x = 0; x < n; x++) a[y][x] = (y * p + x * q + y * x) % r - r / 2;
        one(k, a, rhs(m, 4));
    });
    ex.add("fits", "polynomial fits: 1..4 coefficients, 2..64 points over five supports, nine scalings of the abscissa or of the equations, exact and disturbed data", 63 * 4 * 5 * 9, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int m = (int)d.pick(63) + 2, n = (int)d.pick(4) + 1, su = (int)d.pick(5), sc = (int)d.pick(9);
        static const double LO[5] = {0, -1, 1, -2, 0.25}, HI[5] = {1, 1, 3, 0.5, 0.75}, EQ[9] = {1, 1e-12, 1e-6, 1e-3, 10, 255, 65535, 1e9, 1e12};
        A2 a(m, std::vector<double>(n));
        std::vector<std::vector<double>> bs(3, std::vector<double>(m));
        for (int y = 0; y < m; y++)
        {
            const double x = LO[su] + (HI[su] - LO[su]) * y / (m - 1);
            double p = EQ[sc], v = 0;
            for (int c = 0; c < n; c++) { a[y][c] = (float)p; v += a[y][c] * (c - 1.5); p *= x; }
            bs[0][y] = (float)v;
            bs[1][y] = (float)(v + EQ[sc] * 0.1 * ((y * 7) % 5 - 2));
            bs[2][y] = (float)(y == m / 2);
        }
        one(k, a, bs);
    });
    static const int TALL[] = {64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 400, 511, 512, 513, 600, 777, 1000, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049, 4000, 4096, 4097, 5000};
    ex.add("tall", "30 row counts 64..5000, 1..9 unknowns: small integer patterns plus a large last, middle or no row, exact and disturbed right-hand sides", 30 * 9 * 3 * (th ? 4 : 1), [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int m = TALL[d.pick(30)], n = (int)d.pick(9) + 1, big = (int)d.pick(3), r = 7 + 4 * (int)d.pick(th ? 4 : 1);
        A2 a(m, std::vector<double>(n));
        for (int y = 0; y < m; y++) for (int x = 0; x < n; x++) a[y][x] = (y * 3 + x * (y % 5) + x * x + (y / 7) * (x % 3)) % r - r / 2;
        if (big) { double *q = a[big == 1 ? m - 1 : m / 2].data(); for (int x = 0; x < n; x++) q[x] = 20 * (x + 1) - 50 * (x & 1); }
        std::vector<std::vector<double>> bs(2, std::vector<double>(m));
        for (int y = 0; y < m; y++)
        {
            double v = 0;
            for (int x = 0; x < n; x++) v += a[y][x] * (x - 1.5);
            bs[0][y] = v;
            bs[1][y] = v + ((y * 7) % 5 - 2) + (y == m - 1) * 1000;
        }
        one(k, a, bs);
    }, 1);
    ex.add("wide", "square and nearly square systems with 10..24 unknowns, four patterns, two conditionings", 15 * 3 * 4 * 2, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int n = 10 + (int)d.pick(15), m = n + (int)d.pick(3), p = (int)d.pick(4), dg = (int)d.pick(2);
        A2 a(m, std::vector<double>(n));
        for (int y = 0; y < m; y++) for (int x = 0; x < n; x++) a[y][x] = (y * (p + 2) + x * 5 + y * x) % 7 - 3 + (x == y) * (dg ? 12 : 40);
        one(k, a, rhs(m, 5));
    }, 1);
    ex.add("fraction", "explicit cut-off fraction: diagonal and rotated systems with singular values 1 and 2^-k, k = 0..16, solved with cut-offs 2^-j/1.5, j = 0..18 and the default: the small value counts as zero exactly when it is below the fraction", 17 * 20 * 4 * 3, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int e = (int)d.pick(17), j = (int)d.pick(20), rot = (int)d.pick(4), sc = (int)d.pick(3);
        static const double SC[3] = {1, 1.0 / 1024, 4096};
        const double s = std::ldexp(1.0, -e), cut = j == 19 ? 1e-5 : std::ldexp(1.0, -j) / 1.5;
        // columns: Q diag(1, s) R with rational rotations
        static const double CS_[4] = {1, 0.6, 0.0, 0.8}, SN[4] = {0, 0.8, 1.0, -0.6};
        const double c = CS_[rot], z = SN[rot];
        A2 a(3, std::vector<double>(2, 0.0));
        for (int y = 0; y < 2; y++)
            for (int x = 0; x < 2; x++)
            {
                const double u[2] = {y == 0 ? c : z, y == 0 ? -z : c}, v[2] = {x == 0 ? c : -z, x == 0 ? z : c};
                a[y][x] = (float)(SC[sc] * (u[0] * v[0] + s * u[1] * v[1]));
            }
        a[2][0] = a[2][1] = 0;
        const dsvd::Svd ref(a);
        double lo = 1e300;
        for (double w : ref.w) lo = std::min(lo, w / ref.wmax);
        if (lo < 1e-5) return k.skip();
        SV::Matrix M(3, 2);
        SV::Vector b(3), x(2);
        std::vector<double> bd = {SC[sc] * 2, -SC[sc], SC[sc] * 5};
        for (int y = 0; y < 3; y++) { b[y] = (float)bd[y]; for (int q = 0; q < 2; q++) M[y][q] = (float)a[y][q]; }
        x[0] = x[1] = 55.f;
        const int r = j == 19 ? SV::solve(M, b, x) : SV::solve(M, b, x, (float)cut);
        k.call();
        if (!k.ok(r >= 0, "solve succeeds")) return;
        const std::vector<double> w = ref.solve(bd, cut);
        const bool kept = lo >= cut;
        const double cond = kept ? 1 / lo : 1, xn = std::max(std::fabs(w[0]), std::fabs(w[1]));
        const double bn = std::sqrt(bd[0] * bd[0] + bd[1] * bd[1]);
        // a dropped direction leaks by (rounding of the direction) x (its component)
        const double tol = 24 * E * 5 * (cond * xn + cond * bn / ref.wmax) + 1e-30;
        if (k.verbose) k.note("singular value ratio %.6g, cut-off %.6g", lo, cut);
        for (int q = 0; q < 2; q++) k.near("solution", x[q], w[q], tol);
    });
    ex.add("any-entries", "every matrix of 1..3 rows and 1..2 columns (thorough: 3) over {0, 1, -2, NaN, infinity, 3e38, 1e-45}: the solver returns, reads and writes only its own storage and leaves the caller's copies alone",
        7 + 49 + 343 + 2401 + 117649 + (ex.thorough ? 40353607 : 0), [=](mc::Ctx &k, uint64_t i) {
        static const float V[7] = {0.f, 1.f, -2.f, NAN, INFINITY, 3e38f, 1e-45f};
        static const int    SH[6][2] = {{1, 1}, {2, 1}, {3, 1}, {2, 2}, {3, 2}, {3, 3}};
        static const uint64_t CN[6] = {7, 49, 343, 2401, 117649, 40353607};
        int sh = 0;
        while (i >= CN[sh]) i -= CN[sh++];
        const int m = SH[sh][0], n = SH[sh][1];
        SV::Matrix M(m, n);
        SV::Vector b(m), x(n);
        std::vector<float> in;
        for (int r = 0; r < m; r++) { b[r] = (float)(r + 1); for (int c = 0; c < n; c++) { M[r][c] = V[i % 7]; in.push_back(V[i % 7]); i /= 7; } }
        const int e = SV::solve(M, b, x);
        k.call(); k.out((uint64_t)(e < 0) * 8 + m * 3 + n + std::isfinite(x[0]) * 64);
        bool same = M.rows() == m && M.cols() == n && x.v_.size() == (size_t)n && b.v_.size() == (size_t)m;
        for (int r = 0; same && r < m; r++) { same &= b[r] == (float)(r + 1); for (int c = 0; c < n; c++) same &= !memcmp(&M[r][c], &in[r * n + c], 4); }
        k.ok(same, "the caller's matrix and right-hand side keep their values, the solution its length");
    });
    ex.add("block", "the corrector's own shape: block-diagonal systems with 3 repeated blocks, patches from a lattice, with trailing zero rows", 7776, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int N = 3 + (int)d.pick(6);
        double v[4];
        for (double &x : v) x = (int)d.pick(6) * 0.2;
        A2 a(3 * N + 3, std::vector<double>(9, 0.0));
        for (int p = 0; p < N; p++)
        {
            const double c[3] = {(float)(v[p % 4] + 0.1 * (p == 0)), (float)v[(p + 1) % 4], (float)(v[(p * 3 + 2) % 4] + 0.05 * p)};
            for (int r = 0; r < 3; r++) for (int q = 0; q < 3; q++) a[3 * p + r][3 * r + q] = c[q];
        }
        one(k, a, rhs(3 * N + 3, 3));
    });
}
MC_MAIN(setup)
