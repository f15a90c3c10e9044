// C03: order preservation, finiteness and bounds of every transfer curve.
#include "curvedomains.hpp"
using namespace ref;
static bool inDom(const Curve &c, bool scene, float v)
{
    if (!std::isfinite(v)) return false;
    if (std::fabs(v) > 1e30f) return false;
    if (c.type == CS::OTF::GAMMA && (v < 0 || v > 1e6f || (v > 0 && v < 1e-11f))) return false;
    if (!scene && c.type == CS::OTF::ST2084 && v > 1) return false;
    if (!scene && !c.dec_all && c.type != CS::OTF::GAMMA && std::fabs(v) > 2.f) return false;
    return true;
}
static void pair(mc::Ctx &k, const Curve &c, bool scene, float a, float b)
{
    if (a > b) std::swap(a, b);
    const float fa = scene ? c.E(a) : c.D(a), fb = scene ? c.E(b) : c.D(b);
    k.call(2); k.outf(fa, fb);
    if (k.verbose) k.note("%s %s: f(%.9g)=%.9g, f(%.9g)=%.9g", c.name, scene ? "encoder" : "decoder", a, fa, b, fb);
    const double m = std::max(std::fabs(fa), std::fabs(fb));
    double slack = 0.5 * (scene ? c.etol(a, m) : c.dtol(a, m));
    if (!scene && c.type == CS::OTF::BT709 && a < 0.0812f && b > 0.0808f) slack += 1e-4;
    k.ok(std::isfinite(fa) && std::isfinite(fb), "results are finite");
    if (!(fb >= fa - slack))
        k.fail("%s %s reverses order: f(%.9g)=%.9g > f(%.9g)=%.9g", c.name, scene ? "encoder" : "decoder", a, fa, b, fb);
    if (scene && (c.type == CS::OTF::SRGB || c.type == CS::OTF::BT709 || c.type == CS::OTF::ST2084))
        k.ok(fa >= 0.f && fb >= 0.f && fa <= 1.0000003f && fb <= 1.0000003f, "encoded signal lies in 0..1");
    if (!scene && b >= c.sig_lo)
    {
        const double low = c.d(c.sig_lo);
        k.ok(fb >= low - 4 * c.dtol(c.sig_lo, low), "decoded light is not below the light of the lowest signal");
    }
}
void setup(mc::Explorer &ex)
{
    for (auto &c : curves())
        for (int sc = 1; sc >= 0; sc--)
        {
            const Domain d = domain(c, sc, ex.thorough, 19, 23, true);
            ex.add((std::string(sc ? "encode:" : "decode:") + c.name).c_str(), "neighbouring values of the domain keep their order", d.n() - 1, [=](mc::Ctx &k, uint64_t i) {
                const float a = d.at(i), b = d.at(i + 1);
                if (!inDom(c, sc, a) || !inDom(c, sc, b)) return k.skip();
                pair(k, c, sc, a, b);
            });
            // all pairs of a coarse grid: no slow drift against the order
            const uint64_t N = ex.thorough ? 4096 : 1400;
            const double lo = sc ? c.scene_lo : c.sig_lo, hi = sc ? c.scene_hi : c.sig_hi;
            ex.add((std::string(sc ? "encode-pairs:" : "decode-pairs:") + c.name).c_str(), "all pairs of a uniform grid over the nominal range (10 % beyond it) keep their order", N * N, [=](mc::Ctx &k, uint64_t i) {
                const uint64_t p = i % N, q = i / N;
                if (p >= q) return k.skip();
                const double ext = 0.1 * (hi - lo);
                const float a = lin(p, N, lo - ext, hi + ext), b = lin(q, N, lo - ext, hi + ext);
                if (!inDom(c, sc, a) || !inDom(c, sc, b)) return k.skip();
                pair(k, c, sc, a, b);
            });
            const std::vector<float> V = channelValues(c, sc, false, ex.thorough ? 24 : 10);
            const uint64_t n = V.size();
            ex.add((std::string(sc ? "to-screen:" : "to-scene:") + c.name).c_str(), "colour forms: raising one channel of a colour never lowers that channel's result, whatever the other two are (all pairs of channel values x background values x channel)", n * n * 9 * 3, [=](mc::Ctx &k, uint64_t i) {
                const float a = V[i % n], b = V[i / n % n];
                const int q = (int)(i / n / n % 9), ch = (int)(i / n / n / 9);
                if (!(a < b) || !inDom(c, sc, a) || !inDom(c, sc, b)) return k.skip();
                const float bg[3] = {0.f, sc ? c.scene_hi : c.sig_hi, 0.3f}, o1 = bg[q % 3], o2 = bg[q / 3];
                auto colour = [&](float x) { return CS::Tristimulus(ch == 0 ? x : o1, ch == 1 ? x : (ch == 0 ? o1 : o2), ch == 2 ? x : o2); };
                const CS::Tristimulus fa = sc ? CS::OTF::toScreen(c.type, colour(a), c.g) : CS::OTF::toScene(c.type, colour(a), c.g);
                const CS::Tristimulus fb = sc ? CS::OTF::toScreen(c.type, colour(b), c.g) : CS::OTF::toScene(c.type, colour(b), c.g);
                k.call(2); k.outf(fa[ch], fb[ch], a);
                const double m = std::max(std::fabs(fa[ch]), std::fabs(fb[ch]));
                double slack = 0.5 * (sc ? c.etol(a, m) : c.dtol(a, m));
                if (!sc && c.type == CS::OTF::BT709 && a < 0.0812f && b > 0.0808f) slack += 1e-4;
                k.ok(std::isfinite(fa[ch]) && std::isfinite(fb[ch]), "results are finite");
                if (!(fb[ch] >= fa[ch] - slack))
                    k.fail("%s %s, channel %d beside (%.9g, %.9g), reverses order: f(%.9g)=%.9g > f(%.9g)=%.9g", c.name, sc ? "toScreen" : "toScene", ch, o1, o2, a, fa[ch], b, fb[ch]);
                if (sc && (c.type == CS::OTF::SRGB || c.type == CS::OTF::BT709 || c.type == CS::OTF::ST2084))
                    for (int j = 0; j < 3; j++) k.ok(fa[j] >= 0.f && fa[j] <= 1.0000003f, "encoded signal lies in 0..1");
            });
        }
    static const std::vector<float> G = exponents();
    const uint64_t NV = ex.thorough ? 20000 : 2000;
    ex.add("gamma-grid", "264 gamma exponents 0.25..8: neighbours of a logarithmic grid of values 1e-8..100 keep their order, both directions", G.size() * NV, [=](mc::Ctx &k, uint64_t i) {
        const float g = G[i / NV], a = (float)(100 * std::pow(10.0, -10.0 * (double)(i % NV + 1) / NV)), b = (float)(100 * std::pow(10.0, -10.0 * (double)(i % NV) / NV));
        k.call(4);
        const float ea = CS::OTF::gamma(a, g), eb = CS::OTF::gamma(b, g), da = CS::OTF::degamma(a, g), db = CS::OTF::degamma(b, g);
        k.outf(eb, db, g);
        k.ok(std::isfinite(eb) && std::isfinite(db), "results are finite");
        if (!(eb >= ea * (1 - 2e-6)) || !(db >= da * (1 - 2e-6))) k.fail("gamma %.9g reverses the order of %.9g and %.9g: encoded %.9g, %.9g, decoded %.9g, %.9g", g, a, b, ea, eb, da, db);
    });
}
MC_MAIN(setup)
