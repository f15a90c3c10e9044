// C02: each encoder/decoder equals its standard, including saturation outside the nominal range.
#include "curvedomains.hpp"
using namespace ref;
void setup(mc::Explorer &ex)
{
    for (auto &c : curves())
    {
        const Domain ds = domain(c, true, ex.thorough, 20, 23, true), dg = domain(c, false, ex.thorough, 20, 23, true);
        ex.add((std::string("encode:") + c.name).c_str(), "encoder against the standard's formula", ds.n(), [=](mc::Ctx &k, uint64_t i) {
            const float x = ds.at(i);
            // outside: only where the curve is defined by the standard or documented to saturate
            if (!c.enc_all)
            {
                if (c.type == CS::OTF::GAMMA && (x < 0 || c.e(x) > 1e30 || (x > 0 && c.e(x) < 1e-30))) return k.skip();
                if (c.type == CS::OTF::GAMMA && x > 0 && x < 1e-30) return k.skip();
                if (x > 1e30f || x < -1e30f) return k.skip();
            }
            const double want = c.e(x);
            const float  got  = c.E(x);
            k.call(); k.outf(got);
            if (k.verbose) k.note("%s encoder of %.9g", c.name, x);
            double tl = c.etol(x, want);
            // within a few ulp of the BT.709 joint either segment is right
            if (c.type == CS::OTF::BT709 && std::fabs(x - 0.018) < 1e-8) tl += 3.5e-4;
            if (c.type == CS::OTF::SLOG3 && std::fabs(x - 0.01125) < 1e-8) tl += 1e-6;
            if (c.type == CS::OTF::HLG && x > 12.f) tl += 2e-6;
            k.near("signal", got, want, tl);
        });
        ex.add((std::string("decode:") + c.name).c_str(), "decoder against the standard's formula", dg.n(), [=](mc::Ctx &k, uint64_t i) {
            const float s = dg.at(i);
            if (c.type == CS::OTF::ST2084 && s > 1) return k.skip();
            if (c.type == CS::OTF::GAMMA && s < 0) return k.skip();
            const double want = c.d(s);
            if (!c.dec_all && (!(std::fabs(want) < 1e30) || (c.type == CS::OTF::GAMMA && s > 0 && (want < 1e-30 || s < 1e-30)))) return k.skip();
            const float got = c.D(s);
            k.call(); k.outf(got);
            if (k.verbose) k.note("%s decoder of %.9g", c.name, s);
            double tl = c.dtol(s, want);
            if (c.type == CS::OTF::BT709 && std::fabs(s - 0.081) < 4e-8) tl += 8e-5;
            if (c.type == CS::OTF::SRGB && std::fabs(s - 0.04045) < 2e-8) tl += 1e-7;
            // far beyond the peak code the exponent amplifies rounding
            if (std::fabs(s) > 1.2f) tl += std::fabs(want) * 4e-6 * std::fabs(s) * 10;
            k.near("light", got, want, tl);
        });
        for (int sc = 1; sc >= 0; sc--)
        {
            const std::vector<float> V = channelValues(c, sc, false, ex.thorough ? 24 : 10);
            const uint64_t n = V.size();
            ex.add((std::string(sc ? "to-screen:" : "to-scene:") + c.name).c_str(), "toScreen or toScene of every triple of channel values, nominal and outside", n * n * n, [=](mc::Ctx &k, uint64_t i) {
                const float v[3] = {V[i % n], V[i / n % n], V[i / n / n]};
                const CS::Tristimulus in(v[0], v[1], v[2]), out = sc ? CS::OTF::toScreen(c.type, in, c.g) : CS::OTF::toScene(c.type, in, c.g);
                k.call(); k.outf(out[0], out[1], out[2]);
                if (k.verbose) k.note("%s of (%.9g, %.9g, %.9g)", c.name, v[0], v[1], v[2]);
                for (int j = 0; j < 3; j++)
                {
                    const double want = sc ? c.e(v[j]) : c.d(v[j]);
                    if (!(std::fabs(want) < 1e30) || (c.type == CS::OTF::GAMMA && v[j] > 0 && want < 1e-30)) continue;
                    double tl = sc ? c.etol(v[j], want) : c.dtol(v[j], want);
                    if (c.type == CS::OTF::BT709 && std::fabs(v[j] - (sc ? 0.018 : 0.081)) < (sc ? 1e-8 : 4e-8)) tl += sc ? 3.5e-4 : 8e-5;
                    if (c.type == CS::OTF::SLOG3 && std::fabs(v[j] - 0.01125) < 1e-8) tl += 1e-6;
                    if (c.type == CS::OTF::HLG && sc && v[j] > 12.f) tl += 2e-6;
                    if (!sc && std::fabs(v[j]) > 1.2f) tl += std::fabs(want) * 4e-5 * std::fabs(v[j]);
                    k.near(sc ? "signal" : "light", out[j], want, tl);
                }
            });
        }
    }
    static const std::vector<float> G = exponents();
    const uint64_t NV = ex.thorough ? 40000 : 4000;
    ex.add("gamma-grid", "264 gamma exponents 0.25..8 x a logarithmic grid of values 1e-6..100, both directions, scalar and colour forms", G.size() * NV, [=](mc::Ctx &k, uint64_t i) {
        const float g = G[i / NV], x = (float)(100 * std::pow(10.0, -8.0 * (double)(i % NV) / NV));
        const double m = std::pow((double)x, 1.0 / g), n = std::pow((double)x, (double)g);
        k.call(4);
        if (k.verbose) k.note("gamma %.9g, value %.9g", g, x);
        const CS::Tristimulus c(x, x, x);
        if (m > 1e-30 && m < 1e30)
        {
            k.near("encoded", CS::OTF::gamma(x, g), m, 1.2e-5 * m);
            k.near("toScreen", CS::OTF::toScreen(CS::OTF::GAMMA, c, g)[(int)(i % 3)], m, 1.2e-5 * m);
        }
        if (n > 1e-30 && n < 1e30)
        {
            const float r = CS::OTF::degamma(x, g);
            k.outf(r, g);
            k.near("decoded", r, n, 1.2e-5 * n);
            k.near("toScene", CS::OTF::toScene(CS::OTF::GAMMA, c, g)[(int)(i % 3)], n, 1.2e-5 * n);
        }
    });
}
MC_MAIN(setup)
