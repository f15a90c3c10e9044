// C01: encode/decode round trips.
#include "curvedomains.hpp"
using namespace ref;
struct Tol { double srel, sabs, grel, gabs; }; // scene round trip, signal round trip
static Tol tol(const Curve &c)
{
    switch (c.type)
    {
    case CS::OTF::LINEAR: return {0, 0, 0, 0};
    case CS::OTF::GAMMA: return {2e-5, 1e-30, 2e-5, 1e-30};
    case CS::OTF::ST2084: return {8e-4, 2e-7, 8e-5, 2e-6};
    case CS::OTF::SLOG: return {8e-6, 3e-7, 2e-6, 4e-7};
    case CS::OTF::SLOG2: return {8e-6, 4e-7, 2e-6, 4e-7};
    case CS::OTF::SLOG3: return {1e-5, 3e-7, 2e-6, 4e-7};
    case CS::OTF::HLG: return {1e-5, 1e-20, 3e-6, 1e-15};
    default: return {6e-6, 2e-7, 2e-6, 3e-7};
    }
}
void setup(mc::Explorer &ex)
{
    for (auto &c : curves())
    {
        const Tol t = tol(c);
        const Domain ds = domain(c, true, ex.thorough, 20, 23, false), dg = domain(c, false, ex.thorough, 20, 23, false);
        ex.add((std::string("scene:") + c.name).c_str(), "decode(encode(x)) for scene values of the nominal range", ds.n(), [=](mc::Ctx &k, uint64_t i) {
            const float x = ds.at(i);
            if (!(x >= c.scene_lo && x <= c.scene_hi)) return k.skip();
            if (c.type == CS::OTF::GAMMA && x > 0 && c.e(x) < 1e-30) return k.skip();
            const float s = c.E(x), y = c.D(s);
            k.call(2); k.outf(s, y);
            double tl = t.srel * std::fabs(x) + t.sabs;
            // BT.709's rounded constants: the segments disagree by 1.3e-4 in signal at the joint
            if (c.type == CS::OTF::BT709 && x >= 0.0179f && x <= 0.0182f) tl += 8e-5;
            if (k.verbose) k.note("%s: scene %.9g encodes to %.9g, decodes to %.9g", c.name, x, s, y);
            k.near("round trip scene->signal->scene", y, x, tl);
        });
        ex.add((std::string("signal:") + c.name).c_str(), "encode(decode(s)) for signals between black and peak code", dg.n(), [=](mc::Ctx &k, uint64_t i) {
            const float s = dg.at(i);
            if (!(s >= c.sig_lo && s <= c.sig_hi)) return k.skip();
            // ST 2084 codes at and below c1^m2 all mean black
            if (c.type == CS::OTF::GAMMA && s > 0 && c.d(s) < 1e-30) return k.skip(); // light below the normal float range
            const float x = c.D(s), r = c.E(x);
            k.call(2); k.outf(x, r);
            double tl = t.grel * std::fabs(s) + t.gabs;
            if (c.type == CS::OTF::BT709 && s >= 0.0808f && s <= 0.0815f) tl += 4e-4;
            if (k.verbose) k.note("%s: signal %.9g decodes to %.9g, encodes to %.9g", c.name, s, x, r);
            k.near("round trip signal->scene->signal", r, s, tl);
        });
        // the colour forms: all triples of channel values, all three channels
        for (int sc = 1; sc >= 0; sc--)
        {
            const std::vector<float> V = channelValues(c, sc, true, ex.thorough ? 28 : 12);
            const uint64_t n = V.size();
            ex.add((std::string(sc ? "colour:" : "screen-colour:") + c.name).c_str(), "toScene(toScreen(c)) or the reverse for every triple of channel values of the nominal range", n * n * n, [=](mc::Ctx &k, uint64_t i) {
                const float v[3] = {V[i % n], V[i / n % n], V[i / n / n]};
                const CS::Tristimulus in(v[0], v[1], v[2]);
                const CS::Tristimulus mid = sc ? CS::OTF::toScreen(c.type, in, c.g) : CS::OTF::toScene(c.type, in, c.g);
                const CS::Tristimulus out = sc ? CS::OTF::toScene(c.type, mid, c.g) : CS::OTF::toScreen(c.type, mid, c.g);
                k.call(2); k.outf(out[0], out[1], out[2]);
                for (int j = 0; j < 3; j++)
                {
                    if (c.type == CS::OTF::GAMMA && v[j] > 0 && (sc ? c.e(v[j]) : c.d(v[j])) < 1e-30) continue;
                    double tl = (sc ? t.srel : t.grel) * std::fabs(v[j]) + (sc ? t.sabs : t.gabs);
                    if (c.type == CS::OTF::BT709 && sc && v[j] >= 0.0179f && v[j] <= 0.0182f) tl += 8e-5;
                    if (c.type == CS::OTF::BT709 && !sc && v[j] >= 0.0808f && v[j] <= 0.0815f) tl += 4e-4;
                    k.near("channel after the round trip", out[j], v[j], tl);
                }
            });
        }
    }
    static const std::vector<float> G = exponents();
    const uint64_t NV = ex.thorough ? 40000 : 4000;
    ex.add("gamma-grid", "264 gamma exponents 0.25..8 x a logarithmic grid of values 1e-6..100, both directions, scalar and colour forms", G.size() * NV, [=](mc::Ctx &k, uint64_t i) {
        const float g = G[i / NV], x = (float)(100 * std::pow(10.0, -8.0 * (double)(i % NV) / NV));
        const double m = std::pow((double)x, 1.0 / g), n = std::pow((double)x, (double)g);
        k.call(8);
        if (k.verbose) k.note("gamma %.9g, value %.9g", g, x);
        const CS::Tristimulus c(x, x, x);
        if (m > 1e-30 && m < 1e30)
        {
            k.near("decode(encode(x))", CS::OTF::degamma(CS::OTF::gamma(x, g), g), x, 2e-5 * x);
            k.near("toScene(toScreen(x))", CS::OTF::toScene(CS::OTF::GAMMA, CS::OTF::toScreen(CS::OTF::GAMMA, c, g), g)[(int)(i % 3)], x, 2e-5 * x);
        }
        if (n > 1e-30 && n < 1e30)
        {
            const float r = CS::OTF::gamma(CS::OTF::degamma(x, g), g);
            k.outf(r, g);
            k.near("encode(decode(x))", r, x, 2e-5 * x);
            k.near("toScreen(toScene(x))", CS::OTF::toScreen(CS::OTF::GAMMA, CS::OTF::toScene(CS::OTF::GAMMA, c, g), g)[(int)(i % 3)], x, 2e-5 * x);
        }
    });
}
MC_MAIN(setup)
