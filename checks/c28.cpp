// C28: every walk through the graph of colour representations describes the same colour.
#include "ref.hpp"
using namespace ref;
typedef CS::Tristimulus T3;
enum Kind { XYZ_, YXY, YUV, LAB65, LAB50, OKLAB, ITP, RGB, HSV, SCREEN, HSVS };
struct Node { Kind k; int g; int t; std::string name; };
static std::vector<Node>             N;
static std::vector<std::vector<int>> adj;
static const char *TN[] = {"linear", "gamma 2.2", "sRGB", "BT.709", "ST 2084", "S-Log", "S-Log2", "S-Log3", "HLG"};
static const D3 W65 = {{0.95047, 1, 1.08883}}, W50 = {{0.9642, 1, 0.8249}};
static T3 w65() { return CS::Illuminant_D65; }
static CS::Matrix3 conv[16][16];
// one conversion step on the real code; u and v are adjacent
static T3 step(const Node &u, const Node &v, const T3 &c)
{
    const auto &G = gamuts();
    if (u.k == XYZ_)
        switch (v.k)
        {
        case YXY: return c.toYxy();
        case YUV: return c.toYuv();
        case LAB65: return c.toCIELAB(w65());
        case LAB50: return c.toCIELAB();
        case OKLAB: return CS::XYZ_to_OKLAB(c);
        case ITP: return CS::XYZ_to_ICtCp(c);
        default: return G[v.g].g->fromXYZ(c);
        }
    if (v.k == XYZ_)
        switch (u.k)
        {
        case YXY: return c.fromYxy();
        case YUV: return c.fromYuv();
        case LAB65: return c.fromCIELAB(w65());
        case LAB50: return c.fromCIELAB();
        case OKLAB: return CS::OKLAB_to_XYZ(c);
        case ITP: return CS::ICtCp_to_XYZ(c);
        default: return G[u.g].g->toXYZ(c);
        }
    if (u.k == YXY && v.k == YUV) return T3::YxyToYuv(c);
    if (u.k == YUV && v.k == YXY) return T3::YuvToYxy(c);
    if (u.k == RGB && v.k == RGB) return c.apply(conv[u.g][v.g]);
    if (v.k == HSV || v.k == HSVS) return c.toHSV();
    if (u.k == HSV || u.k == HSVS) return c.fromHSV();
    if (v.k == SCREEN) return CS::OTF::toScreen((CS::OTF::TYPE)v.t, c, 2.2f);
    return CS::OTF::toScene((CS::OTF::TYPE)u.t, c, 2.2f);
}
static double dec(int t, double s)
{
    switch (t)
    {
    case CS::OTF::GAMMA: return std::pow(s, (double)2.2f);
    case CS::OTF::SRGB: return srgb_dec(s);
    case CS::OTF::BT709: return bt709_dec(s);
    case CS::OTF::ST2084: return pq_dec(s);
    case CS::OTF::SLOG: return slog_dec(s);
    case CS::OTF::SLOG2: return slog2_dec(s);
    case CS::OTF::SLOG3: return slog3_dec(s);
    case CS::OTF::HLG: return hlg_dec(s);
    default: return s;
    }
}
// what colour (XYZ) a representation denotes, by the published definitions in double precision
static D3 meaning(const Node &u, const D3 &c)
{
    switch (u.k)
    {
    case XYZ_: return c;
    case YXY: return Yxy_to_xyz(c);
    case YUV: { const double d = 2 * c[1] - 8 * c[2] + 4; return Yxy_to_xyz(D3{{c[0], 3 * c[1] / d, 2 * c[2] / d}}); }
    case LAB65: return lab_to_xyz(c, W65);
    case LAB50: return lab_to_xyz(c, W50);
    case OKLAB: return oklab_to_xyz(c);
    case ITP: {
        static const M3 im = inv(M3{{0.5, 0.5, 0, 6610.0 / 4096, -13613.0 / 4096, 7003.0 / 4096, 17933.0 / 4096, -17390.0 / 4096, -543.0 / 4096}}), il = inv(ITP_LMS);
        const D3 p = mul(im, c);
        return mul(il, D3{{pq_dec(p[0]), pq_dec(p[1]), pq_dec(p[2])}});
    }
    case RGB: return mul(gamuts()[u.g].toXYZ, c);
    case HSV: return mul(gamuts()[u.g].toXYZ, hsv_to_rgb(c));
    case SCREEN: return mul(gamuts()[u.g].toXYZ, D3{{dec(u.t, c[0]), dec(u.t, c[1]), dec(u.t, c[2])}});
    default: { const D3 r = hsv_to_rgb(c); return mul(gamuts()[u.g].toXYZ, D3{{dec(u.t, r[0]), dec(u.t, r[1]), dec(u.t, r[2])}}); }
    }
}
// error budget of one step, relative to the largest component and absolute
static double budget(const Node &u, const Node &v, double mx)
{
    auto one = [&](const Node &x) {
        switch (x.k)
        {
        case ITP: return (mx > 2 ? 1.5e-3 : 2.5e-4) * mx + 1e-7; // the PQ curve is steeper for bright colours
        case LAB65: case LAB50: return 3e-6 * mx + 1e-7;
        case SCREEN: case HSVS:
            if (x.t == CS::OTF::ST2084) return (mx > 2 ? 8e-4 : 1.5e-4) * mx + 1e-7;
            if (x.t == CS::OTF::BT709) return 2e-3 * mx + 1e-7;
            if (x.t >= CS::OTF::SLOG) return 4e-6 * mx + 6e-7;
            return 3e-6 * mx + 1e-7;
        default: return 2e-6 * mx + 5e-8;
        }
    };
    return one(u) + one(v);
}
static std::vector<D3> colours, wide;
static const Node *stackn[16];
// can the representation hold the colour? (CIELAB: up to its white; ICtCp: cone responses in range; HSV and curves: non-negative RGB, sRGB and BT.709 up to 1)
static bool valid(const Node &v, const D3 &xyz)
{
    if (v.k == LAB50) return xyz[0] > 0 && xyz[2] > 0 && xyz[0] < 0.95 && xyz[1] < 0.98 && xyz[2] < 0.81;
    if (v.k == LAB65) return xyz[0] > 0 && xyz[2] > 0 && xyz[0] < 0.9504 && xyz[1] < 1 && xyz[2] < 1.088;
    if (v.k == ITP)
    {
        const D3 l = mul(ITP_LMS, xyz);
        return l[0] > 1e-4 && l[1] > 1e-4 && l[2] > 1e-4 && l[0] < 99 && l[1] < 99 && l[2] < 99;
    }
    if (v.k == HSV || v.k == HSVS || (v.k == SCREEN && v.t != CS::OTF::LINEAR))
    {
        const D3 c = mul(inv(gamuts()[v.g].toXYZ), xyz);
        const double lim = v.k != HSV && (v.t == CS::OTF::SRGB || v.t == CS::OTF::BT709) ? 0.9999 : 10;
        for (int j = 0; j < 3; j++) if (!(c[j] > 1e-4 && c[j] < lim)) return false;
    }
    return true;
}
static std::vector<std::vector<char>> holds, wholds; // [colour][representation]
static const std::vector<char> *can;
static void walk(mc::Ctx &k, const D3 &want, const T3 &c, int at, int depth, int maxd, double tol)
{
    if (k.bad) return;
    const double mx = maxabs(want);
    for (int nx : adj[at])
    {
        const Node &u = N[at], &v = N[nx];
        if (!(*can)[nx]) continue;
        const T3 r = step(u, v, c);
        k.call();
        k.aux();
        stackn[depth + 1] = &v;
        const D3 m = meaning(v, d3(r));
        const double t = tol + budget(u, v, mx);
        for (int j = 0; j < 3; j++)
            if (!k.near("colour", m[j], want[j], t))
            {
                std::string p;
                for (int q = 0; q <= depth + 1; q++) p += (q ? " -> " : "") + stackn[q]->name;
                k.msg = "after " + p + " the colour " + (j == 0 ? "X" : j == 1 ? "Y" : "Z") + " changed: " + k.msg;
                return;
            }
        if (depth + 1 < maxd) walk(k, want, r, nx, depth + 1, maxd, t);
        if (k.bad) return;
    }
}
void setup(mc::Explorer &ex)
{
    const auto &G = gamuts();
    N.push_back({XYZ_, 0, 0, "XYZ"});
    N.push_back({YXY, 0, 0, "Yxy"});
    N.push_back({YUV, 0, 0, "Yuv"});
    N.push_back({LAB65, 0, 0, "CIELAB(D65)"});
    N.push_back({LAB50, 0, 0, "CIELAB"});
    N.push_back({OKLAB, 0, 0, "OKLab"});
    N.push_back({ITP, 0, 0, "ICtCp"});
    auto edge = [](int a, int b) {
        adj.resize(std::max((size_t)std::max(a, b) + 1, adj.size()));
        adj[a].push_back(b);
        adj[b].push_back(a);
    };
    for (int i = 1; i < 7; i++) edge(0, i);
    edge(1, 2);
    std::vector<int> rgb;
    for (int g = 0; g < (int)G.size(); g++)
    {
        rgb.push_back((int)N.size());
        edge(0, (int)N.size());
        N.push_back({RGB, g, 0, std::string(G[g].name) + " RGB"});
        for (int h = 0; h < (int)G.size(); h++) conv[g][h] = CS::GamutConvert(*G[g].g, *G[h].g);
    }
    for (size_t a = 0; a < rgb.size(); a++)
        for (size_t b = a + 1; b < rgb.size(); b++) edge(rgb[a], rgb[b]);
    for (int g = 0; g < (int)G.size(); g++)
    {
        const std::string nm = G[g].name;
        if (nm != "Rec.709" && nm != "Rec.2020") continue;
        edge(rgb[g], (int)N.size());
        N.push_back({HSV, g, 0, nm + " HSV"});
        for (int t = 0; t < 9; t++)
        {
            const int me = (int)N.size();
            edge(rgb[g], me);
            N.push_back({SCREEN, g, t, nm + " " + TN[t]});
            if (t == CS::OTF::SRGB || t == CS::OTF::HLG)
            {
                edge(me, (int)N.size());
                N.push_back({HSVS, g, t, nm + " " + TN[t] + " HSV"});
            }
        }
    }
    adj.resize(N.size());
    static std::vector<double> L = {0.002, 0.03, 0.25, 0.6, 0.9};
    if (ex.thorough) L = {0.0005, 0.002, 0.03, 0.11, 0.25, 0.5, 0.9};
    M3 m709{};
    for (auto &g : G) if (std::string(g.name) == "Rec.709") m709 = g.toXYZ;
    for (double r : L) for (double g : L) for (double b : L) colours.push_back(d3(tri(mul(m709, D3{{r, g, b}}))));
    // saturated colours: in Rec.2020, S-Gamut or ACES 2065 but not (all) in the smaller gamuts
    for (auto &g : G)
    {
        const std::string nm = g.name;
        if (nm != "Rec.2020" && nm != "S-Gamut" && nm != "ACES 2065") continue;
        const std::vector<double> S = ex.thorough ? std::vector<double>{0.02, 0.1, 0.3, 0.55, 0.85} : std::vector<double>{0.02, 0.25, 0.8};
        for (double r : S) for (double gg : S) for (double b : S)
        {
            const D3 c = d3(tri(mul(g.toXYZ, D3{{r, gg, b}})));
            if (!(r == gg && gg == b) && c[1] > 0.005 && c[1] > 0.02 * (fabs(c[0]) + fabs(c[2]))) colours.push_back(c);
        }
    }
    for (auto &c : colours) { holds.push_back({}); for (auto &n : N) holds.back().push_back(valid(n, c)); }
    static const int maxd = ex.thorough ? 7 : 6;
    static std::vector<std::pair<int, int>> pre; // first two nodes
    for (int a : adj[0]) for (int b : adj[a]) pre.push_back({a, b});
    static char desc[600];
    snprintf(desc, sizeof desc, "every walk of up to %d conversions starting at XYZ through the %zu representations (%zu one-step conversions), from every colour of a %zu^3 Rec.709 lattice and of saturated lattices in Rec.2020, S-Gamut and ACES 2065 (%zu colours; only representations that can hold the colour are visited); after each step the represented colour must be the starting one; index = colour x first two steps, inner = steps", maxd, N.size(), [] { size_t e = 0; for (auto &l : adj) e += l.size(); return e; }(), L.size(), colours.size());
    auto run = [](mc::Ctx &k, uint64_t i, const std::vector<D3> &cs, const std::vector<std::vector<char>> &hs, int maxd) {
        const D3 want = cs[i / pre.size()];
        const auto pr = pre[i % pre.size()];
        const double mx = maxabs(want);
        T3 c = tri(want);
        can = &hs[i / pre.size()];
        if (!(*can)[pr.first] || !(*can)[pr.second]) { k.skip(); return; }
        stackn[0] = &N[0]; stackn[1] = &N[pr.first]; stackn[2] = &N[pr.second];
        double tol = 2e-7 * mx;
        c = step(N[0], N[pr.first], c);
        tol += budget(N[0], N[pr.first], mx);
        D3 m = meaning(N[pr.first], d3(c));
        for (int j = 0; j < 3; j++) k.near(("colour after " + N[pr.first].name).c_str(), m[j], want[j], tol);
        c = step(N[pr.first], N[pr.second], c);
        tol += budget(N[pr.first], N[pr.second], mx);
        m = meaning(N[pr.second], d3(c));
        for (int j = 0; j < 3; j++) k.near(("colour after " + N[pr.first].name + ", " + N[pr.second].name).c_str(), m[j], want[j], tol);
        k.call(2); k.aux(2);
        if (k.verbose) k.note("from XYZ (%.7g, %.7g, %.7g) over %s, %s and every continuation", want[0], want[1], want[2], N[pr.first].name.c_str(), N[pr.second].name.c_str());
        const bool v = k.verbose;
        k.verbose = false;
        walk(k, want, c, pr.second, 2, maxd, tol);
        k.verbose = v;
        k.out(i);
    };
    ex.add("walks", desc, colours.size() * pre.size(), [run](mc::Ctx &k, uint64_t i) { run(k, i, colours, holds, maxd); }, 1);
    // many more colours, shorter walks: a fine lattice at several intensities (dim to HDR), and colours outside every gamut
    const int nf = ex.thorough ? 14 : 9;
    for (double s : {0.004, 0.05, 1.0, 8.0, 60.0})
        for (int a = 0; a < nf; a++) for (int b = 0; b < nf; b++) for (int c = 0; c < nf; c++)
            wide.push_back(d3(tri(mul(m709, D3{{s * (0.02 + 0.975 * a / (nf - 1)), s * (0.02 + 0.975 * b / (nf - 1)), s * (0.02 + 0.975 * c / (nf - 1))}}))));
    for (double x : {-0.3, 0.01, 0.2, 0.7, 1.5, 12.0, 300.0, 5000.0})
        for (double y : {0.05, 0.4, 1.0, 9.0, 250.0, 4000.0})
            for (double z : {-0.2, -0.01, 0.0, 0.3, 1.1, 20.0, 400.0, 6000.0})
            {
                const double A = std::fabs(x) + y + std::fabs(z), S = x + y + z;
                if (y > 0.15 * A && S > 0.4 * A) wide.push_back(d3(tri(D3{{x, y, z}})));
            }
    for (auto &c : wide) { wholds.push_back({}); for (auto &n : N) wholds.back().push_back(valid(n, c)); }
    static const int maxw = ex.thorough ? 5 : 4;
    static char desc2[400];
    snprintf(desc2, sizeof desc2, "every walk of up to %d conversions from %zu further colours: a %d^3 lattice at five intensities from 0.004 to 60, and colours outside every gamut up to 6000", maxw, wide.size(), nf);
    ex.add("walks-wide", desc2, wide.size() * pre.size(), [run](mc::Ctx &k, uint64_t i) { run(k, i, wide, wholds, maxw); }, 1);
}
MC_MAIN(setup)
