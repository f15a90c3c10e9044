// C18: sampling of spectra (built with AddressSanitizer; tables are exact-size heap blocks).
#include "ref.hpp"
#include <limits>
#include <memory>
using namespace ref;
struct Range { float lo, hi; };
static std::vector<Range> R = {{380.f, 779.f}, {380.f, 780.f}, {400.f, 700.f}, {360.f, 830.f}, {390.f, 830.f}, {300.f, 500.f}, {600.f, 601.f}, {0.f, 1.f}, {-5.f, 5.f}, {700.5f, 900.25f}, {100.f, 379.f}, {780.f, 1000.f}, {3.8e-7f, 7.8e-7f}, {3800.f, 7800.f}, {0.38f, 0.78f}, {-1e6f, 2e6f}};
static std::vector<int> NS;
// reference in double; also the slack: one rounding-sized shift of the position, times the steepest nearby slope
static double refFetch(const float *s, int n, double lo, double hi, double t, double &tol)
{
    const int c = n - 1;
    if (t <= lo) { tol = 0; return s[0]; }
    if (t >= hi) { tol = 0; return s[c]; }
    const double p = (t - lo) / (hi - lo) * c;
    int i = (int)p;
    if (i >= c) i = c - 1;
    const double f = p - i, v = s[i] * (1 - f) + s[i + 1] * f;
    const double dp = 8 * mc::EPS * (std::max(std::fabs(lo), std::fabs(hi)) / (hi - lo) * c + c);
    double slope = 0, mag = 0;
    const int a = std::max(0, (int)std::floor(p - dp)), b = std::min(c, (int)std::ceil(p + dp) + 0);
    for (int j = a; j < b; j++) slope = std::max(slope, (double)std::fabs((double)s[j + 1] - s[j]));
    mag = std::max(std::fabs(s[i]), std::fabs(s[i + 1]));
    tol = slope * dp + 4 * mc::EPS * mag;
    return v;
}
struct Table
{
    std::unique_ptr<float[]> p;
    int n;
    explicit Table(int k) : p(new float[k]), n(k) {}
};
static void fill(Table &t, int kind, int at)
{
    for (int i = 0; i < t.n; i++)
        switch (kind)
        {
        case 0: t.p[i] = i == at ? 1.f : 0.f; break;                   // unit impulse
        case 1: t.p[i] = 3.25f; break;                                 // constant
        case 2: t.p[i] = 0.5f * i - 7.f; break;                        // linear
        case 3: t.p[i] = (float)((i * 7919) % 101) - 50.f; break;      // jagged, both signs
        case 4: t.p[i] = 1e-30f * (i + 1); break;                      // tiny
        default: t.p[i] = 1e20f * ((i & 1) ? -1 : 1) * (i + 1); break; // huge, alternating
        }
}
static const int FR = 19; // positions per interval
static float position(const Range &r, int n, int seg, int f)
{
    const double st = ((double)r.hi - r.lo) / (n - 1);
    if (f < 16) return (float)(r.lo + st * (seg + f / 16.0));
    const float node = (float)(r.lo + st * seg);
    return f == 16 ? std::nextafterf(node, 1e9f) : f == 17 ? std::nextafterf(node, -1e9f) : (float)(r.lo + st * (seg + 0.9999));
}
static void one(mc::Ctx &k, const Table &t, const Range &r, float x)
{
    double      tol;
    const float g = CS::Spectrum::fetch(t.p.get(), t.n, r.lo, r.hi, x);
    k.call(); k.outf(g);
    const double w = refFetch(t.p.get(), t.n, r.lo, r.hi, x, tol);
    if (k.verbose) k.note("%d samples over %.6g..%.6g at %.9g -> %.9g", t.n, r.lo, r.hi, x, g);
    k.near("fetch", g, w, tol);
}
void setup(mc::Explorer &ex)
{
    const int upto = ex.thorough ? 130 : 48;
    for (int i = 2; i <= upto; i++) NS.push_back(i);
    for (int i : {64, 81, 95, 100, 128, 256, 301, 321, 399, 400, 401, 471, 512, 1000, 1024, 2001, 5000}) if (i > upto) NS.push_back(i);
    // impulses: fetch is linear in the table, so impulses at every index decide every table
    static std::vector<uint64_t> off(1, 0);
    for (int n : NS) off.push_back(off.back() + (uint64_t)(n <= 60 ? n : std::min(n, ex.thorough ? n : 60)));
    static const bool th = ex.thorough;
    ex.add("impulse", "unit impulse at every index of tables of every size x ranges, read at 19 positions in the five intervals around it and beyond both ends", off.back() * R.size(), [](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const Range r = R[d.pick(R.size())];
        size_t q = 0;
        while (off[q + 1] <= d.v) q++;
        const int n = NS[q];
        const uint64_t cnt = off[q + 1] - off[q];
        int at = (int)(d.v - off[q]);
        if (cnt < (uint64_t)n) at = at < 20 ? at : at >= (int)cnt - 20 ? n - ((int)cnt - at) : (int)((uint64_t)at * n / cnt);
        Table t(n);
        fill(t, 0, at);
        for (int s = std::max(0, at - 3); s < std::min(n - 1, at + 3); s++)
            for (int f = 0; f < FR; f++) one(k, t, r, position(r, n, s, f));
        for (float x : {r.lo, r.hi, r.lo - 1, r.hi + 1, std::nextafterf(r.lo, 1e9f), std::nextafterf(r.hi, -1e9f), -1e30f, 1e30f, -INFINITY, INFINITY}) one(k, t, r, x);
    });
    ex.add("dense", "every size x range x 5 data patterns, every interval at 19 positions", NS.size() * R.size() * 5, [](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const Range r = R[d.pick(R.size())];
        const int kind = (int)d.pick(5) + 1, n = NS[d.v];
        Table t(n);
        fill(t, kind, 0);
        for (int s = 0; s < n - 1; s++)
            for (int f = 0; f < FR; f++) one(k, t, r, position(r, n, s, f));
        for (float x : {r.lo, r.hi, r.lo - 100, r.hi + 100, -INFINITY, INFINITY}) one(k, t, r, x);
        k.beat();
    });
    ex.add("construct", "Spectrum built from every size x range x pattern: all 400 samples obey the rule", NS.size() * R.size() * 5, [](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const Range r = R[d.pick(R.size())];
        const int kind = (int)d.pick(5) + 1, n = NS[d.v];
        Table t(n);
        fill(t, kind, 0);
        const CS::Spectrum s(t.p.get(), n, r.lo, r.hi);
        k.call();
        for (int j = 0; j < 400; j++)
        {
            double tol;
            const double w = refFetch(t.p.get(), n, r.lo, r.hi, 380.0 + j, tol);
            k.near("sample", s[j], w, tol);
            if (kind == 1) k.near("constant table", s[j], 3.25, 4 * 3.25 * mc::EPS);
            k.outf(s[j]);
        }
    });
    ex.add("identity", "a 400-sample 380..779 table (impulse at every index, and 5 patterns) is reproduced by the constructor, with explicit and with defaulted range", 405, [](mc::Ctx &k, uint64_t i) {
        Table t(400);
        fill(t, i < 400 ? 0 : (int)(i - 399), (int)i);
        const CS::Spectrum a(t.p.get()), b(t.p.get(), 400, 380.f, 779.f);
        k.call(2);
        for (int j = 0; j < 400; j++)
        {
            // 1 ulp of a neighbour may leak in when the position is rounded
            const double tol = 4 * mc::EPS * std::fabs(t.p[j]);
            k.near("default range", a[j], t.p[j], tol);
            k.near("explicit range", b[j], t.p[j], tol);
            k.near("read back at the sample", a.fetch(380.f + j), t.p[j], 2 * tol);
            k.call();
        }
    });
    // member fetch over a fine wavelength lattice incl. outside the table
    const uint64_t W = ex.thorough ? 600 * 256 + 1 : 600 * 64 + 1;
    const double step = ex.thorough ? 1 / 256.0 : 1 / 64.0;
    ex.add("member", "Spectrum::fetch at every 1/64 nm (thorough 1/256) from 280 to 880 nm, 6 patterns", W * 6, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int kind = (int)d.pick(6);
        const float x = (float)(280.0 + d.v * step);
        static std::unique_ptr<CS::Spectrum> S[6];
        if (!S[kind])
        {
            CS::Spectrum::spectrum a;
            Table t(400);
            fill(t, kind, 200);
            for (int j = 0; j < 400; j++) a[j] = t.p[j];
            S[kind].reset(new CS::Spectrum(a));
        }
        double tol;
        const float g = S[kind]->fetch(x);
        k.call(); k.outf(g);
        const double w = refFetch(&S[kind]->s()[0], 400, 380, 779, x, tol);
        if (k.verbose) k.note("pattern %d at %.9g nm -> %.9g", kind, x, g);
        k.near("fetch", g, w, tol);
    });
    // the same storage with other contents, size or range: a value kept from an earlier look at it would be seen
    ex.add("wild", "every combination of 20 positions and range ends (zero, denormal, ordinary, extreme, infinite, not a number) with tables of 1, 2, 3, 5, 61 and 400 samples, and with the member form, the constructor and observers: nothing outside the table is read", 20ull * 20 * 20 * 6, [](mc::Ctx &k, uint64_t i) {
        typedef std::numeric_limits<float> NL;
        static const float A[20] = {0.f, -0.f, NL::denorm_min(), NL::min(), 1e-3f, 1.f, -1.f, 380.f, 379.99997f, 555.5f, 779.f, 779.00006f, 1e10f, -1e10f, 1e30f, NL::max(), -NL::max(), NL::infinity(), -NL::infinity(), NL::quiet_NaN()};
        static const int N[6] = {1, 2, 3, 5, 61, 400};
        mc::Mixed d(i);
        const int n = N[d.pick(6)];
        const float t = A[d.pick(20)], lo = A[d.pick(20)], hi = A[d.pick(20)];
        Table tab(n);
        fill(tab, 2, 0);
        if (k.verbose) k.note("%d samples over [%g, %g] read at %g", n, lo, hi, t);
        k.call();
        const float v = CS::Spectrum::fetch(tab.p.get(), n, lo, hi, t);
        k.w->cmps++;
        if (std::isfinite(lo) && std::isfinite(hi) && lo < hi && t <= lo) k.eq("below the range", v, tab.p[0]);
        else if (std::isfinite(lo) && std::isfinite(hi) && lo < hi && t >= hi) k.eq("above the range", v, tab.p[n - 1]);
        else if (n == 1 && !(v != v)) k.eq("table of one sample", v, tab.p[0]);
        if (!k.bad)
        {
            std::unique_ptr<CS::Spectrum> s(new CS::Spectrum(tab.p.get(), n, lo, hi));
            k.call(2);
            const float w = s->fetch(t);
            if (t <= 380.f && std::isfinite((*s)[0])) k.near("member form below", w, (*s)[0], 0);
            else if (t >= 779.f && std::isfinite((*s)[399])) k.near("member form above", w, (*s)[399], 0);
        }
        k.outf(v);
    });
    ex.add("reused-storage", "one buffer of 400 samples refilled in place (6 contents), read with 6 sizes, 4 ranges and 5 positions, in all orders of two readings; and as a spectrum assigned in place", (6 * 6 * 4 * 5) * (6 * 6 * 4 * 5), [](mc::Ctx &k, uint64_t i) {
        static Table buf(400);
        static const int SZ[6] = {2, 5, 40, 81, 399, 400};
        static const Range RG[4] = {{380.f, 779.f}, {380.f, 780.f}, {400.f, 700.f}, {0.f, 1.f}};
        static const double PS[5] = {0.0, 0.013, 0.5, 0.77, 1.0};
        mc::Mixed d(i);
        for (int s = 0; s < 2 && !k.bad; s++)
        {
            const int kind = (int)d.pick(6), n = SZ[d.pick(6)];
            const Range r = RG[d.pick(4)];
            const double p = PS[d.pick(5)];
            fill(buf, kind, n / 2);
            const float x = (float)(r.lo + p * (r.hi - r.lo));
            double tol;
            const float g = CS::Spectrum::fetch(buf.p.get(), n, r.lo, r.hi, x);
            k.call(); k.outf(g);
            if (k.verbose) k.note("content %d, %d samples over %g..%g at %.9g -> %.9g", kind, n, r.lo, r.hi, x, g);
            const double want = refFetch(buf.p.get(), n, r.lo, r.hi, x, tol);
            k.near("fetch", g, want, tol);
            static CS::Spectrum sp;
            if (i % 97 == 0)
            {
                sp = CS::Spectrum(buf.p.get(), n, r.lo, r.hi);
                for (int j = 0; j < 400; j += 7) { const double w = refFetch(buf.p.get(), n, r.lo, r.hi, 380.0 + j, tol); k.near("sample", sp[j], w, tol); }
                const float y = (float)(380 + p * 399), h = sp.fetch(y);
                k.call(2);
                const double w = refFetch(&sp.s()[0], 400, 380, 779, y, tol);
                k.near("member fetch", h, w, tol);
            }
        }
    });
}
MC_MAIN(setup)
