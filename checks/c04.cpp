// C04: transfer functions act per channel, with the requested curve; gamma argument only used by GAMMA.
#include "curvedomains.hpp"
using namespace ref;
static std::vector<float> vals(bool thorough)
{
    std::vector<float> v = {0.f, 1.f, 0.18f, 0.5f, -0.25f, 0.002f, 0.0031308f, 0.01f, 0.02f, 0.04f, 0.06f, 0.0812f, 0.3f, 0.75f, 0.9f, 1.5f, 4.f, 10.f, 12.5f, 99.f, 150.f, -1e-3f, 1e-6f, 0.45f, 0.99f, 40.f, 2000.f, 3e5f, -30.f, 1e-10f};
    if (thorough)
        for (int i = 1; i < 64; i++) v.push_back((float)i / 64 + 1e-4f);
    return v;
}
static bool same(float a, float b) { return (std::isnan(a) && std::isnan(b)) || std::fabs((double)a - b) <= 1e-6 * std::fabs((double)a) + 1e-30 || a == b; }
void setup(mc::Explorer &ex)
{
    static const std::vector<float> V = vals(ex.thorough), G = {1.f, 2.2f, 0.5f, 2.6f, 3.f, 0.45f, 0.3f, 0.1f, 1.8f, 5.f, 8.f, 1.0001f, 2.f, 2.4f, 0.25f};
    static const CS::OTF::TYPE T[] = {CS::OTF::LINEAR, CS::OTF::GAMMA, CS::OTF::SRGB, CS::OTF::BT709, CS::OTF::ST2084, CS::OTF::SLOG, CS::OTF::SLOG2, CS::OTF::SLOG3, CS::OTF::HLG};
    static const char *TN[] = {"linear", "gamma", "sRGB", "BT709", "ST2084", "S-Log", "S-Log2", "S-Log3", "HLG"};
    const uint64_t n = V.size(), N = 2 * 9 * G.size() * n * n * n;
    ex.add("channels", "every direction x type x gamma argument x triple of channel values", N, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed m(i);
        const float ch[3] = {m.of(V), m.of(V), m.of(V)};
        const int dir = (int)m.pick(2), t = (int)m.pick(9);
        const float g = m.of(G);
        Curve c{};
        for (auto &q : curves()) if (q.type == T[t]) c = q;
        c.g = g;
        const CS::Tristimulus in(ch[0], ch[1], ch[2]);
        const CS::Tristimulus out = dir ? CS::OTF::toScene(T[t], in, g) : CS::OTF::toScreen(T[t], in, g);
        k.call(); k.outf(out[0], out[1], out[2]);
        if (k.verbose) k.note("%s(%s, (%.9g, %.9g, %.9g), %g) = (%.9g, %.9g, %.9g)", dir ? "toScene" : "toScreen", TN[t], ch[0], ch[1], ch[2], g, out[0], out[1], out[2]);
        for (int j = 0; j < 3; j++)
        {
            k.ok(in[j] == ch[j], "input left unchanged");
            if (T[t] == CS::OTF::LINEAR) { k.ok(out[j] == ch[j], "linear returns the colour unchanged"); continue; }
            const bool negPow = ch[j] < 0 && (T[t] == CS::OTF::GAMMA || (T[t] == CS::OTF::ST2084 && dir));
            const bool bigPQ  = dir && T[t] == CS::OTF::ST2084 && ch[j] > 1.f;
            // the channel alone, through the scalar curve
            const float alone = dir ? c.D(ch[j]) : c.E(ch[j]);
            if (!same(out[j], alone)) k.fail("%s %s, gamma %g: channel %d of (%.9g, %.9g, %.9g) gives %.9g, the curve of that channel alone gives %.9g", dir ? "toScene" : "toScreen", TN[t], g, j, ch[0], ch[1], ch[2], out[j], alone);
            // a grey of that value gives the same result in every channel
            const CS::Tristimulus grey = dir ? CS::OTF::toScene(T[t], CS::Tristimulus(ch[j]), g) : CS::OTF::toScreen(T[t], CS::Tristimulus(ch[j]), g);
            k.ok(same(grey[0], out[j]) && same(grey[1], out[j]) && same(grey[2], out[j]), "result depends only on the channel's own input");
            if (negPow || bigPQ) continue;
            const double want = dir ? c.d(ch[j]) : c.e(ch[j]);
            if (std::isfinite(want) && std::fabs(want) < 1e30)
                k.near("channel", out[j], want, 4 * (dir ? c.dtol(ch[j], want) : c.etol(ch[j], want)) + (std::fabs(ch[j]) > 1.2f ? std::fabs(want) * 5e-5 * std::fabs(ch[j]) : 0) + 1e-5 * (T[t] == CS::OTF::HLG));
        }
        const CS::Tristimulus one = dir ? CS::OTF::toScene(T[t], in, 1.f) : CS::OTF::toScreen(T[t], in, 1.f);
        const CS::Tristimulus dflt = dir ? CS::OTF::toScene(T[t], in) : CS::OTF::toScreen(T[t], in);
        k.call(2);
        for (int j = 0; j < 3; j++) k.ok(same(dflt[j], one[j]), "leaving the gamma argument out means gamma 1");
        if (T[t] == CS::OTF::LINEAR || T[t] == CS::OTF::GAMMA) return;
        for (int j = 0; j < 3; j++) k.ok(same(dflt[j], out[j]), "gamma argument has no influence on this type");
    });
    ex.vary("after-other-arguments", {{0.f, 0.18f, 2.2f}, {1.f, 0.5f, 2.4f}, {2.f, 0.05f, 1.f}, {3.f, 0.9f, 0.45f}}, [=](mc::Ctx &k, const float *a) {
        const float x = std::fabs(a[1]), g = std::fabs(a[2]) + 0.05f;
        for (int t = 0; t < 9; t++)
            for (int dir = 0; dir < 2; dir++)
            {
                Curve c{};
                for (auto &q : curves()) if (q.type == T[t]) c = q;
                c.g = g;
                const float ch = T[t] == CS::OTF::LINEAR || dir == 0 ? x : std::min(x, 1.f);
                const CS::Tristimulus out = dir ? CS::OTF::toScene(T[t], CS::Tristimulus(ch, ch / 2, 0.f), g) : CS::OTF::toScreen(T[t], CS::Tristimulus(ch, ch / 2, 0.f), g);
                k.call(); k.outf(out[0], out[1]);
                for (int j = 0; j < 2; j++)
                {
                    const double v = j ? ch / 2 : ch, want = T[t] == CS::OTF::LINEAR ? v : dir ? c.d(v) : c.e(v);
                    k.near(TN[t], out[j], want, 4 * (T[t] == CS::OTF::LINEAR ? 1e-9 : dir ? c.dtol(v, want) : c.etol(v, want)) + (v > 1.2 ? std::fabs(want) * 5e-5 * v : 0) + 1e-5 * (T[t] == CS::OTF::HLG));
                }
            }
    });
}
MC_MAIN(setup)
