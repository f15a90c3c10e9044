// C23: colour-correction matrix.
#include "ref.hpp"
#include "dsvd.hpp"
using namespace ref;
typedef CS::Tristimulus T3;
typedef std::vector<T3> VT;
static const double E = 1.1920928955078125e-07;
static std::vector<M3> MS = {
    {{1, 0, 0, 0, 1, 0, 0, 0, 1}}, {{0.5, 0.25, 0.125, 0, 2, -0.5, 1, -1, 0.75}}, {{0, 1, 0, 0, 0, 1, 1, 0, 0}}, {{1.5, -0.25, -0.25, -0.5, 2, -0.5, 0.125, -0.625, 1.5}},
    {{0, 0, 0, 0, 0, 0, 0, 0, 0}}, {{1, 2, 3, 4, 5, 6, 7, 8, 9}}, {{0.4124, 0.3576, 0.1805, 0.2126, 0.7152, 0.0722, 0.0193, 0.1192, 0.9505}}, {{-3, 0, 0, 0, 0.01, 0, 0, 0, 100}}};
// least-squares reference: rows of the matrix solved independently
static bool expect(const VT &p, const VT &t, M3 &m, double &cond, double &res, double &scale, bool &full, double &tmax)
{
    dsvd::Mat a(p.size(), std::vector<double>(3));
    for (size_t i = 0; i < p.size(); i++) for (int j = 0; j < 3; j++) a[i][j] = p[i][j];
    const dsvd::Svd s(a);
    double small, zero;
    s.gap(1e-5, small, zero);
    if (s.wmax > 0 && (small < 2e-3 || zero > 1e-7)) return false;
    full = zero == 0 && s.wmax > 0;
    for (int j = 0; j < 3; j++) if (s.w[j] <= 1e-5 * s.wmax) full = false;
    cond  = 1 / small;
    scale = s.wmax;
    res   = 0;
    tmax  = 0;
    for (int r = 0; r < 3; r++)
    {
        std::vector<double> b(p.size());
        for (size_t i = 0; i < p.size(); i++) { b[i] = t[i][r]; tmax = std::max(tmax, std::fabs(b[i])); }
        const std::vector<double> x = s.solve(b, 1e-5);
        double q = 0;
        for (int j = 0; j < 3; j++) m(r, j) = x[j];
        for (size_t i = 0; i < p.size(); i++) { const double d = mul(m, d3(p[i]))[r] - b[i]; q += d * d; }
        res = std::max(res, std::sqrt(q));
    }
    return true;
}
static void one(mc::Ctx &k, const VT &p, const VT &t)
{
    M3 w; double cond, res, scale, tmax; bool full;
    if (!expect(p, t, w, cond, res, scale, full, tmax)) return k.skip();
    const CS::Matrix3 g = CS::Corrector::solve(p, t);
    k.call();
    if (k.verbose)
    {
        for (size_t i = 0; i < p.size() && i < 5; i++) k.note("patch (%.6g, %.6g, %.6g) target (%.6g, %.6g, %.6g)", p[i][0], p[i][1], p[i][2], t[i][0], t[i][1], t[i][2]);
        k.note("%d patches, condition %.3g, residual %.3g", (int)p.size(), cond, res);
    }
    double wn = 0;
    for (double x : w.m) wn = std::max(wn, std::fabs(x));
    const double n = std::sqrt((double)p.size());
    if (full)
    {
        const double tol = 30 * E * (cond * wn + (cond * cond * res + cond * tmax * n) / scale) * (1 + n / 4) + 1e-30;
        for (int i = 0; i < 9; i++) k.near("matrix entry", g[i], w.m[i], tol);
        k.outf(g[0], g[4], g[5]);
    }
    // in every case the summed squared error is minimal
    for (int r = 0; r < 3; r++)
    {
        double e0 = 0, e1 = 0;
        for (size_t i = 0; i < p.size(); i++)
        {
            const D3 q = d3(p[i]);
            const double a = mul(w, q)[r] - t[i][r], b = mul(m3(g), q)[r] - t[i][r];
            e0 += a * a; e1 += b * b;
        }
        k.near("summed squared error", std::sqrt(e1), std::sqrt(e0), 30 * E * (cond * tmax * n + cond * cond * res) * (1 + n / 4) + 1e-30);
    }
}
static T3 lat(uint64_t i) // 26 non-black corners/edges/centres
{
    i++;
    return T3((i % 3) * 0.5f, (i / 3 % 3) * 0.5f, (i / 9) * 0.5f);
}
static T3 img(const M3 &m, const T3 &p) { return tri(mul(m, d3(p))); }
static const CS::Observer *OB[3] = {&CS::CIE1931, &CS::CIE31JV, &CS::CIE2012};
static CS::Spectrum light(int l) { return l == 0 ? CS::CIE_D65 : l == 1 ? CS::Spectrum::E(1.f) : CS::Spectrum::blackbody(2000.f + 500.f * (l - 2)); }
void setup(mc::Explorer &ex)
{
    const bool th = ex.thorough;
    const uint64_t nm = th ? MS.size() : 3;
    ex.add("triples", "every ordered triple of 26 lattice patches, exact linear targets for several matrices (dependent triples: minimal error only)", 26ull * 26 * 26 * nm, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const M3 &m = MS[(d.pick(nm) + 1) % MS.size()];
        const uint64_t a = d.pick(26), b = d.pick(26), c = d.pick(26);
        VT p = {lat(a), lat(b), lat(c)}, t;
        for (auto &x : p) t.push_back(img(m, x));
        one(k, p, t);
    });
    ex.add("quads", "every set of four lattice patches (increasing order), inexact targets: least squares", 26ull * 26 * 26 * 26, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const uint64_t a = d.pick(26), b = d.pick(26), c = d.pick(26), e = d.pick(26);
        if (!(a < b && b < c && c < e)) return k.skip();
        VT p = {lat(a), lat(b), lat(c), lat(e)}, t = {lat((b * 7 + 3) % 26), lat((a * 5 + 1) % 26), lat((e * 3 + 8) % 26), lat((c * 11 + 2) % 26)};
        one(k, p, t);
    });
    ex.add("pairs", "every pair of patches (rank at most two): minimal error", 26ull * 26 * 4, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const uint64_t a = d.pick(26), b = d.pick(26);
        const M3 &m = MS[d.pick(4) + 1];
        VT p = {lat(a), lat(b)}, t;
        for (auto &x : p) t.push_back(img(m, x));
        one(k, p, t);
    });
    ex.add("orders", "all 120 orders of five patches x matrices x exact/inexact targets", 120 * 26 * 2 * MS.size(), [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        uint64_t o = d.pick(120);
        const uint64_t s = d.pick(26);
        const bool exact = d.pick(2);
        const M3 &m = MS[d.v];
        std::vector<int> id = {0, 1, 2, 3, 4};
        VT p, t;
        for (int n = 5; n > 0; n--)
        {
            const int q = id[o % n];
            id.erase(id.begin() + o % n);
            o /= n;
            const T3 c = lat((s + q * 9 + q * q) % 26);
            p.push_back(c);
            T3 u = img(m, c);
            if (!exact) u = T3(u[0] + 0.1f * q, u[1] - 0.05f * q * q, u[2] + 0.2f * (q == 3));
            t.push_back(u);
        }
        one(k, p, t);
    });
    ex.add("counts", "every number of patches 3..60 from a colour sequence, 8 matrices, exact and disturbed targets, intensities 0.001..1000", 58 * MS.size() * 2 * 4, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int n = 3 + (int)d.pick(58);
        const M3 &m = MS[d.pick(MS.size())];
        const bool exact = d.pick(2);
        static const float SC[4] = {1.f, 0.001f, 1000.f, 0.18f};
        const float s = SC[d.v];
        VT p, t;
        for (int j = 0; j < n; j++)
        {
            p.push_back(T3(s * ((j * 37 + 11) % 64) / 64.f, s * ((j * 23 + 40) % 64) / 64.f, s * ((j * 51 + 5) % 64) / 64.f));
            T3 u = img(m, p.back());
            if (!exact) u = T3(u[0] + s * 0.01f * (j % 3), u[1] - s * 0.02f * (j % 5), u[2] + s * 0.015f * (j % 2));
            t.push_back(u);
        }
        one(k, p, t);
    });
    ex.add("matrices", "every 3x3 matrix over {-1,0,1} as the exact linear map, for five patch sets (two of three colours, two of five, one of twelve)", 19683 * 5, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        M3 m;
        for (double &x : m.m) x = (int)d.pick(3) - 1;
        const int q = (int)d.v, n = q < 2 ? 3 : q < 4 ? 5 : 12;
        VT p, t;
        for (int j = 0; j < n; j++) p.push_back(q == 0 ? T3(j == 0, j == 1, j == 2) : T3(((j * 5 + q * 3 + 7) % 8) / 8.f, ((j * 3 + 2 * q) % 8) / 8.f, ((j * j + 3 * j + q) % 8) / 8.f));
        for (auto &x : p) t.push_back(img(m, x));
        one(k, p, t);
    });
    static const float IS[] = {1e-9f, 1e-6f, 1e-3f, 0.05f, 1.f, 3.f, 100.f, 255.f, 4095.f, 65535.f, 1e6f, 1e9f};
    ex.add("intensities", "patches and targets at every pair of 12 intensities from 1e-9 to 1e9 (a camera's code values against XYZ), 3, 6 and 24 patches, 4 matrices, exact and disturbed", 144 * 3 * 4 * 2, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const float s = IS[d.pick(12)], u = IS[d.pick(12)];
        static const int NN[3] = {3, 6, 24};
        const int n = NN[d.pick(3)];
        const M3 &m = MS[1 + d.pick(4)];
        const bool exact = d.pick(2);
        VT p, t;
        for (int j = 0; j < n; j++)
        {
            const double a = ((j * 37 + 11) % 64) / 64., b = ((j * 23 + 40) % 64) / 64., c = ((j * 51 + 5) % 64) / 64.;
            const D3 w = mul(m, D3{{a, b, c}});
            p.push_back(T3((float)(s * a), (float)(s * b), (float)(s * c)));
            t.push_back(T3((float)(u * (w[0] + (exact ? 0 : 0.01 * (j % 3)))), (float)(u * (w[1] - (exact ? 0 : 0.02 * (j % 5)))), (float)(u * (w[2] + (exact ? 0 : 0.015 * (j % 2))))));
        }
        one(k, p, t);
    });
    ex.add("large-charts", "96, 140, 288, 576 and 1000 patches, 4 matrices, exact and disturbed", 5 * 4 * 2, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        static const int NN[5] = {96, 140, 288, 576, 1000};
        const int n = NN[d.pick(5)];
        const M3 &m = MS[1 + d.pick(4)];
        const bool exact = d.pick(2);
        VT p, t;
        for (int j = 0; j < n; j++)
        {
            p.push_back(T3(((j * 37 + 11) % 997) / 997.f, ((j * 231 + 40) % 991) / 991.f, ((j * 511 + 5) % 983) / 983.f));
            T3 u = img(m, p.back());
            if (!exact) u = T3(u[0] + 0.01f * (j % 3), u[1] - 0.02f * (j % 5), u[2] + 0.015f * (j % 2));
            t.push_back(u);
        }
        one(k, p, t);
    });
    const uint64_t nl = th ? 18 : 9;
    ex.add("chart", "measured = linear image of the chart reference, every light x observer x matrix: one-argument solve (with defaults) recovers the inverse, the made gamut converts measured values to reference XYZ", nl * 3 * 4 * 24, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int patch = (int)d.pick(24), l = (int)d.pick(nl), o = (int)d.pick(3), q = (int)d.v;
        static const int W[4] = {0, 1, 3, 6};
        const M3 m = MS[W[q]];
        const CS::Spectrum li = light(l);
        static CS::Matrix3 *cache[18][3][4];
        static CS::Gamut *gc[18][3][4];
        static VT meas[18][3][4], refc[18][3];
        if (refc[l][o].empty())
        {
            // chart reference computed from the tables in double (the tables and reference() are C21's subject)
            for (int p = 0; p < 24; p++)
            {
                double s[3] = {0, 0, 0}, n[3] = {0, 0, 0};
                const CS::Spectrum *c[3] = {&OB[o]->X_, &OB[o]->Y_, &OB[o]->Z_};
                for (int x = 0; x < 400; x++) for (int j = 0; j < 3; j++) { s[j] += (double)CS::Macbeth::Patch[p][x] * li[x] * (*c[j])[x]; n[j] += (*c[j])[x]; }
                refc[l][o].push_back(T3((float)(s[0] / n[0]), (float)(s[1] / n[1]), (float)(s[2] / n[2])));
            }
        }
        if (!cache[l][o][q])
        {
            for (auto &x : refc[l][o]) meas[l][o][q].push_back(img(m, x));
            cache[l][o][q] = new CS::Matrix3(l == 0 && o == 0 ? CS::Corrector::solve(meas[l][o][q]) : o == 0 ? CS::Corrector::solve(meas[l][o][q], li) : CS::Corrector::solve(meas[l][o][q], li, *OB[o]));
            gc[l][o][q] = new CS::Gamut(l == 0 && o == 0 ? CS::Corrector::makeGamut("cam", meas[l][o][q]) : o == 0 ? CS::Corrector::makeGamut("cam", meas[l][o][q], li) : CS::Corrector::makeGamut("cam", meas[l][o][q], li, *OB[o]));
            k.call(2);
        }
        const T3 &in = meas[l][o][q][patch], &want = refc[l][o][patch];
        const T3 a = cache[l][o][q]->apply(in.vec3()), b = gc[l][o][q]->toXYZ(in), back = gc[l][o][q]->fromXYZ(want);
        k.outf(a[0], a[1], b[2]);
        if (k.verbose) k.note("light %d observer %d matrix %d patch %d: measured (%.6g, %.6g, %.6g) -> (%.6g, %.6g, %.6g) / gamut (%.6g, %.6g, %.6g)", l, o, q, patch, in[0], in[1], in[2], a[0], a[1], a[2], b[0], b[1], b[2]);
        double mx = 0;
        for (auto &x : refc[l][o]) mx = std::max(mx, maxabs(d3(x)));
        for (int j = 0; j < 3; j++)
        {
            // reference() sums 400 products in single precision (C21 allows 1.2e-4)
            k.near("corrected colour", a[j], want[j], 3e-4 * mx);
            k.near("gamut toXYZ(measured)", b[j], want[j], 4e-4 * mx);
            k.near("gamut fromXYZ(reference)", back[j], in[j], 4e-4 * maxabs(d3(img(m, T3((float)mx, (float)mx, (float)mx)))) + 2e-3 * mx * normInf(m));
        }
        k.ok(strcmp(gc[l][o][q]->name(), "cam") == 0, "gamut name");
    });
    ex.add("chart-noise", "chart measured with a deterministic disturbance: least squares against the reference, every light x observer", nl * 3 * 8, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int l = (int)d.pick(nl), o = (int)d.pick(3), z = (int)d.v;
        const CS::Spectrum li = light(l);
        VT r = CS::Macbeth::reference(li, *OB[o]), p;
        for (int j = 0; j < 24; j++)
        {
            const T3 u = img(MS[3], r[j]);
            const float e = 0.02f * u[1];
            p.push_back(T3(u[0] + e * ((j * 3 + z) % 5), u[1] + e * ((j * 7 + z) % 4), u[2] - e * ((j * 11 + z) % 3)));
        }
        M3 w; double cond, res, scale, tmax; bool full;
        if (!expect(p, r, w, cond, res, scale, full, tmax)) return k.skip();
        const CS::Matrix3 g = CS::Corrector::solve(p, li, *OB[o]), h = CS::Corrector::solve(p, r);
        k.call(2); k.outf(g[0], g[1], g[8]);
        double wn = 0;
        for (double x : w.m) wn = std::max(wn, std::fabs(x));
        const double tol = 10 * E * (cond * wn + (cond * cond * res + cond * tmax * 5) / scale) * 2;
        for (int j = 0; j < 9; j++) { k.near("matrix entry", g[j], w.m[j], tol); k.near("two-argument form", h[j], w.m[j], tol); }
    });
}
MC_MAIN(setup)
