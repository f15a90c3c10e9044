// C20: Planck's law.
#include "ref.hpp"
using namespace ref;
// CODATA 2018 exact constants; W/(m2 sr nm)
static double planck(double T, double l)
{
    const double h = 6.62607015e-34, c = 299792458.0, kb = 1.380649e-23;
    return 2 * h * c * c / std::pow(l, 5) / std::expm1(h * c / (l * kb * T)) * 1e-9;
}
static void one(mc::Ctx &k, double T, double l)
{
    const double g = CS::Spectrum::planck(T, l), w = planck(T, l);
    k.call(); k.outf((float)g);
    if (k.verbose) k.note("T=%.9g K, wavelength %.9g m -> %.9g", T, l, g);
    k.ok(g >= 0 && std::isfinite(g), "radiance finite and not negative");
    if (w > 1e-30)
    {
        k.ok(g > 0, "radiance positive");
        k.near("radiance", g, w, 1e-4 * w);
    }
    else
        k.near("negligible radiance", g, 0, 1.1e-30);
}
void setup(mc::Explorer &ex)
{
    const uint64_t NT = ex.thorough ? 4951 : 1981, NL = ex.thorough ? 9901 : 3961; // 10/25 K, 1/2.5 nm
    ex.add("grid", "every temperature 500..50000 K (25 K steps, thorough 10 K) x every wavelength 100 nm..10 um (2.5 nm, thorough 1 nm)", NT * NL, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const uint64_t a = d.pick(NT);
        one(k, 500 + 49500.0 * a / (NT - 1), (100 + 9900.0 * d.v / (NL - 1)) * 1e-9);
    });
    ex.add("visible", "every integer temperature 500..50000 K x 380..780 nm in 10 nm steps", 49501 * 41, [](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int T = 500 + (int)d.pick(49501);
        one(k, T, (380 + 10.0 * d.v) * 1e-9);
    });
    ex.add("monotone", "radiance grows with temperature: every wavelength (1 nm) along all temperatures in 10 K steps", 9901, [](mc::Ctx &k, uint64_t i) {
        const double l = (100.0 + i) * 1e-9;
        double prev = -1;
        for (int T = 500; T <= 50000; T += 10)
        {
            const double g = CS::Spectrum::planck(T, l);
            k.call();
            if (prev > 1e-36 && !(g > prev)) { k.fail("radiance at %.9g m does not grow from %d K to %d K: %.9g then %.9g", l, T - 10, T, prev, g); return; }
            prev = g;
        }
        k.ok(true, "monotone");
    });
    ex.add("wien", "one maximum per temperature (25 K steps), where Wien's law puts it, within the 100 nm..10 um range", 1981, [](mc::Ctx &k, uint64_t i) {
        const double T = 500 + 25.0 * i, peak = 2.897771955e-3 / T;
        double best = -1, at = 0, prev = -1;
        bool falling = false;
        for (int n = 1000; n <= 100000; n += 20) // 0.1 nm units, 2 nm steps
        {
            const double l = n * 1e-10, g = CS::Spectrum::planck(T, l);
            k.call();
            if (g > best) { best = g; at = l; }
            if (prev > 1e-36)
            {
                // rounding to single precision may make neighbours equal or swap the last bit near the top
                if (g < prev * (1 - 1e-6)) falling = true;
                if (falling && g > prev * (1 + 1e-6)) { k.fail("radiance rises again at %.9g m (%g K)", l, T); return; }
            }
            prev = g;
        }
        const double p = std::min(std::max(peak, 1e-7), 1e-5);
        k.near("location of the maximum", at, p, 2.1e-9 + 5e-3 * p); // the top is flat: 1e-7 relative is reached 0.02% away
        k.beat();
    });
    ex.add("spectrum", "blackbody(T)[i] is the radiance of 380+i nm, every integer temperature 500..50000 K (thorough: every 0.125 K)", ex.thorough ? 396001 : 49501, [=](mc::Ctx &k, uint64_t i) {
        const float T = 500.f + (ex.thorough ? 0.125f : 1.f) * i;
        const CS::Spectrum s = CS::Spectrum::blackbody(T);
        k.call();
        for (int j = 0; j < 400; j++)
        {
            const double w = planck(T, (380.0 + j) * 1e-9);
            k.near("sample", s[j], w, 1e-4 * w + 1e-35);
            k.outf(s[j]);
        }
    });
    const uint64_t WT = ex.thorough ? 200000 : 20000;
    ex.add("fine-T", "temperatures in fine geometric steps at 7 wavelengths", WT * 7, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        static const double L[7] = {100e-9, 380e-9, 555e-9, 779e-9, 1e-6, 2.9e-6, 10e-6};
        const double l = L[d.pick(7)];
        one(k, 500 * std::pow(100.0, (double)d.v / (WT - 1)), l);
    });
    ex.vary("after-other-arguments", {{500.f, 400.f}, {640.5f, 560.f}, {1000.25f, 700.f}, {2856.f, 380.f}, {6504.f, 555.f}, {20000.f, 120.f}}, [=](mc::Ctx &k, const float *a) {
        const float T = std::min(50000.f, std::max(500.f, a[0]));
        const double l = std::min(10000.f, std::max(100.f, a[1])) * 1e-9;
        one(k, T, l);
        const CS::Spectrum s = CS::Spectrum::blackbody(T);
        k.call();
        for (int j = 0; j < 400 && !k.bad; j += 3)
        {
            const double w = planck(T, (380.0 + j) * 1e-9);
            k.near("sample", s[j], w, 1e-4 * w + 1e-35);
        }
    });
}
MC_MAIN(setup)
