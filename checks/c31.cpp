// C31: constexpr square root.
#include "ref.hpp"
#include <limits>
using namespace ref;
static void one(mc::Ctx &k, float x)
{
    const float g = CS::util::sqrtf(x);
    k.call();
    if (k.verbose) k.note("sqrt(%.9g) = %.9g", x, g);
    if (std::isnan(x) || x < 0 || std::isinf(x)) { k.ok(std::isnan(g), "NaN for a negative, infinite or NaN argument"); return; }
    if (x < FLT_MIN) { k.ok(std::isfinite(g) && g >= 0, "finite and non-negative"); if (x == 0) k.eq("sqrt(0)", g, 0); return; }
    const double w = std::sqrt((double)x);
    int          e;
    std::frexp(w, &e);
    k.near("square root", g, w, 2 * std::ldexp(1.0, e - 24));
}
// the function is usable at compile time
static constexpr float c2 = CS::util::sqrtf(2.f), c4 = CS::util::sqrtf(4.f), c9 = CS::util::sqrtf(1e-20f);
void setup(mc::Explorer &ex)
{
    ex.hang_s = 20;
    if (ex.thorough)
        ex.add("all-floats", "every single-precision bit pattern from 0 to +infinity", 0x7f800001ull, [](mc::Ctx &k, uint64_t i) { one(k, mc::bits((uint32_t)i)); });
    else
    {
        ex.add("lattice", "every exponent (denormals included) x the top 20 mantissa bits", 255ull << 20, [](mc::Ctx &k, uint64_t i) { one(k, mc::bits((uint32_t)i << 3)); });
        ex.add("two-octaves", "every float in 1..4 (all mantissas for both exponent parities)", 1ull << 24, [](mc::Ctx &k, uint64_t i) { one(k, mc::bits(0x3f800000u + (uint32_t)i)); });
        ex.add("edges", "4096 consecutive floats around every power of two", 256ull * 4096, [](mc::Ctx &k, uint64_t i) { one(k, mc::bits((uint32_t)std::min<int64_t>(0x7f800000, std::max<int64_t>(0, ((int64_t)(i >> 12) << 23) - 2048 + (int64_t)(i & 4095))))); });
        static std::vector<uint32_t> E; // squares are exactly representable results
        ex.add("squares", "squares of every 12-bit integer, scaled by every even power of two", 4096ull * 90, [](mc::Ctx &k, uint64_t i) {
            const double m = (double)(i % 4096 + 1), s = std::ldexp(1.0, 2 * ((int)(i / 4096) - 57));
            one(k, (float)(m * m * s));
        });
    }
    ex.add("negatives", "negative numbers, infinities and NaNs: every exponent x top 16 mantissa bits", 1ull << 25, [](mc::Ctx &k, uint64_t i) {
        const uint32_t u = (uint32_t)(i << 7);
        if (u < 0x7f800000u || u == 0x80000000u) return k.skip();
        one(k, mc::bits(u));
    });
    ex.add("constexpr", "values computed by the compiler", 3, [](mc::Ctx &k, uint64_t i) {
        const float g[3] = {c2, c4, c9};
        const double w[3] = {std::sqrt(2.0), 2, std::sqrt((double)1e-20f)};
        k.near("compile-time sqrt", g[i], w[i], 2 * mc::EPS * w[i]);
    });
}
MC_MAIN(setup)
