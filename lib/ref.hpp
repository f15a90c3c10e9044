// Independent double-precision reference models, typed from the published definitions.
#pragma once
#include "colorsystem.hpp"
#include "mc.hpp"
#include <algorithm>
#include <vector>

namespace CS = ColorSystem;

namespace ref
{
struct D3
{
    double v[3];
    double &operator[](int i) { return v[i]; }
    double  operator[](int i) const { return v[i]; }
};
static inline D3 d3(const CS::Tristimulus &t) { return D3{{t[0], t[1], t[2]}}; }
static inline CS::Tristimulus tri(const D3 &d) { return CS::Tristimulus((float)d[0], (float)d[1], (float)d[2]); }
static inline double maxabs(const D3 &d) { return std::max(std::fabs(d[0]), std::max(std::fabs(d[1]), std::fabs(d[2]))); }

struct M3
{
    double m[9]; // row major
    double &operator()(int r, int c) { return m[r * 3 + c]; }
    double  operator()(int r, int c) const { return m[r * 3 + c]; }
};
static inline M3 m3(const CS::Matrix3 &a)
{
    M3 r;
    for (int i = 0; i < 9; i++)
        r.m[i] = a[i];
    return r;
}
static inline CS::Matrix3 mat(const M3 &a)
{
    return CS::Matrix3((float)a.m[0], (float)a.m[1], (float)a.m[2], (float)a.m[3], (float)a.m[4], (float)a.m[5], (float)a.m[6], (float)a.m[7], (float)a.m[8]);
}
static inline M3 eye() { return M3{{1, 0, 0, 0, 1, 0, 0, 0, 1}}; }
static inline M3 mul(const M3 &a, const M3 &b)
{
    M3 r;
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
        {
            double s = 0;
            for (int k = 0; k < 3; k++)
                s += a(i, k) * b(k, j);
            r(i, j) = s;
        }
    return r;
}
static inline D3 mul(const M3 &a, const D3 &b)
{
    D3 r;
    for (int i = 0; i < 3; i++)
        r[i] = a(i, 0) * b[0] + a(i, 1) * b[1] + a(i, 2) * b[2];
    return r;
}
static inline double det(const M3 &a)
{
    return a(0, 0) * (a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1)) - a(0, 1) * (a(1, 0) * a(2, 2) - a(1, 2) * a(2, 0)) + a(0, 2) * (a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0));
}
static inline M3 inv(const M3 &a)
{
    const double d = det(a);
    M3           r;
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
        {
            const int p = (j + 1) % 3, q = (j + 2) % 3, s = (i + 1) % 3, t = (i + 2) % 3;
            r(i, j)     = (a(p, s) * a(q, t) - a(p, t) * a(q, s)) / d;
        }
    return r;
}
static inline double normInf(const M3 &a)
{
    double b = 0;
    for (int i = 0; i < 3; i++)
        b = std::max(b, std::fabs(a(i, 0)) + std::fabs(a(i, 1)) + std::fabs(a(i, 2)));
    return b;
}

// ---- transfer functions (scene -> signal, signal -> scene) -----------------------------------------------------------
static inline double srgb_enc(double x)
{
    if (x < 0)
        return 0;
    if (x > 1)
        return 1;
    return x <= 0.0031308 ? 12.92 * x : 1.055 * std::pow(x, 1 / 2.4) - 0.055;
}
static inline double srgb_dec(double s)
{
    if (s < 0)
        return 0;
    if (s > 1)
        return 1;
    return s <= 0.04045 ? s / 12.92 : std::pow((s + 0.055) / 1.055, 2.4);
}
static inline double bt709_enc(double x)
{
    if (x < 0)
        return 0;
    if (x > 1)
        return 1;
    return x < 0.018 ? 4.5 * x : 1.099 * std::pow(x, 0.45) - 0.099;
}
static inline double bt709_dec(double s)
{
    if (s < 0)
        return 0;
    if (s > 1)
        return 1;
    return s < 0.081 ? s / 4.5 : std::pow((s + 0.099) / 1.099, 1 / 0.45);
}
static const double PQ_m1 = 2610.0 / 16384, PQ_m2 = 2523.0 / 4096 * 128, PQ_c1 = 3424.0 / 4096, PQ_c2 = 2413.0 / 4096 * 32, PQ_c3 = 2392.0 / 4096 * 32;
static inline double pq_enc(double x)
{
    if (x <= 0)
        return 0; // the standard's own value at 0 is c1^m2 = 7.3e-7
    if (x >= 100)
        return 1;
    const double y = std::pow(x / 100, PQ_m1);
    return std::pow((PQ_c1 + PQ_c2 * y) / (1 + PQ_c3 * y), PQ_m2);
}
static inline double pq_dec(double s)
{
    if (s <= 0) return 0; // codes below black are black
    const double e = std::pow(s, 1 / PQ_m2);
    return 100 * std::pow(std::max(e - PQ_c1, 0.0) / (PQ_c2 - PQ_c3 * e), 1 / PQ_m1);
}
static inline double slog_enc(double x)
{
    x = std::min(std::max(x, 0.0), 10.0);
    return 0.432699 * std::log10(x + 0.037584) + 0.616596 + 0.03;
}
static inline double slog_dec(double s) { return std::pow(10.0, (s - 0.616596 - 0.03) / 0.432699) - 0.037584; }
static inline double slog2_enc(double x)
{
    const double y = x < 0 ? x * 3.53881278538813 + 0.030001222851889303 : 0.432699 * std::log10(155.0 * x / 219.0 + 0.037584) + 0.616596 + 0.03;
    return y * (876.0 / 1024) + 64.0 / 1024;
}
static inline double slog2_dec(double s)
{
    const double x = (s - 64.0 / 1024) / (876.0 / 1024);
    const double y = x >= 0.030001222851889303 ? 219.0 * (std::pow(10.0, (x - 0.616596 - 0.03) / 0.432699) - 0.037584) / 155.0 : (x - 0.030001222851889303) / 3.53881278538813;
    return std::max(y, 0.0);
}
static inline double slog3_enc(double x)
{
    return x >= 0.01125 ? (420.0 + std::log10((x + 0.01) / (0.18 + 0.01)) * 261.5) / 1023.0 : (x * (171.2102946929 - 95.0) / 0.01125 + 95.0) / 1023.0;
}
static inline double slog3_dec(double s)
{
    return s >= 171.2102946929 / 1023.0 ? std::pow(10.0, (s * 1023.0 - 420.0) / 261.5) * (0.18 + 0.01) - 0.01 : (s * 1023.0 - 95.0) * 0.01125000 / (171.2102946929 - 95.0);
}
static inline double hlg_enc(double x)
{
    if (x < 0)
        return 0;
    return x <= 1 ? 0.5 * std::sqrt(x) : 0.17883277 * std::log(x - 0.28466892) + 0.55991073;
}
static inline double hlg_dec(double s)
{
    if (s < 0)
        return 0;
    return s <= 0.5 ? 4 * s * s : std::exp((s - 0.55991073) / 0.17883277) + 0.28466892;
}

struct Curve
{
    const char   *name;
    CS::OTF::TYPE type;
    float         g;
    double (*enc)(double);
    double (*dec)(double);
    float scene_lo, scene_hi; // nominal scene range
    float sig_lo, sig_hi;     // black code and peak code
    bool  enc_all, dec_all;   // defined for every finite input (saturating or extended)
    // accuracy of a single-precision evaluation
    double enc_rel, enc_abs, dec_rel, dec_abs;
    double e(double x) const { return type == CS::OTF::GAMMA ? std::pow(x, 1.0 / (double)g) : type == CS::OTF::LINEAR ? x : enc(x); }
    double d(double s) const { return type == CS::OTF::GAMMA ? std::pow(s, (double)g) : type == CS::OTF::LINEAR ? s : dec(s); }
    // the code under test
    float E(float x) const
    {
        switch (type)
        {
        case CS::OTF::GAMMA: return CS::OTF::gamma(x, g);
        case CS::OTF::SRGB: return CS::OTF::Y_to_sRGB(x);
        case CS::OTF::BT709: return CS::OTF::Y_to_BT709(x);
        case CS::OTF::ST2084: return CS::OTF::Y_to_ST2084(x);
        case CS::OTF::SLOG: return CS::OTF::Y_to_SLog(x);
        case CS::OTF::SLOG2: return CS::OTF::Y_to_SLog2(x);
        case CS::OTF::SLOG3: return CS::OTF::Y_to_SLog3(x);
        case CS::OTF::HLG: return CS::OTF::Y_to_HLG(x);
        default: return CS::OTF::toScreen(type, CS::Tristimulus(x), g)[1];
        }
    }
    float D(float s) const
    {
        switch (type)
        {
        case CS::OTF::GAMMA: return CS::OTF::degamma(s, g);
        case CS::OTF::SRGB: return CS::OTF::sRGB_to_Y(s);
        case CS::OTF::BT709: return CS::OTF::BT709_to_Y(s);
        case CS::OTF::ST2084: return CS::OTF::ST2084_to_Y(s);
        case CS::OTF::SLOG: return CS::OTF::SLog_to_Y(s);
        case CS::OTF::SLOG2: return CS::OTF::SLog2_to_Y(s);
        case CS::OTF::SLOG3: return CS::OTF::SLog3_to_Y(s);
        case CS::OTF::HLG: return CS::OTF::HLG_to_Y(s);
        default: return CS::OTF::toScene(type, CS::Tristimulus(s), g)[1];
        }
    }
    double etol(double x, double want) const
    {
        (void)x;
        return enc_rel * std::fabs(want) + enc_abs + 1e-37;
    }
    double dtol(double s, double want) const
    {
        (void)s;
        return dec_rel * std::fabs(want) + dec_abs + 1e-37;
    }
};
static const std::vector<Curve> &curves()
{
    typedef CS::OTF O;
    // PQ: the float base of the 78.84th power carries an error of a few eps, i.e. ~2e-5 in the signal and, through the
    // 6.28th power of a difference, ~2e-4 in the light.
    static const std::vector<Curve> c = {
        {"linear", O::LINEAR, 1.f, 0, 0, -100.f, 100.f, -100.f, 100.f, true, true, 0, 0, 0, 0},
        {"gamma1.8", O::GAMMA, 1.8f, 0, 0, 0.f, 100.f, 0.f, 16.f, false, false, 8e-6, 1e-30, 8e-6, 1e-30},
        {"gamma2.2", O::GAMMA, 2.2f, 0, 0, 0.f, 100.f, 0.f, 10.f, false, false, 8e-6, 1e-30, 8e-6, 1e-30},
        {"gamma2.4", O::GAMMA, 2.4f, 0, 0, 0.f, 100.f, 0.f, 8.f, false, false, 8e-6, 1e-30, 8e-6, 1e-30},
        {"gamma2.6", O::GAMMA, 2.6f, 0, 0, 0.f, 100.f, 0.f, 6.f, false, false, 8e-6, 1e-30, 8e-6, 1e-30},
        {"gamma0.45", O::GAMMA, 0.45f, 0, 0, 0.f, 4.f, 0.f, 100.f, false, false, 8e-6, 1e-30, 8e-6, 1e-30},
        {"sRGB", O::SRGB, 1.f, srgb_enc, srgb_dec, 0.f, 1.f, 0.f, 1.f, true, true, 1e-6, 1.5e-7, 2.5e-6, 0},
        {"BT709", O::BT709, 1.f, bt709_enc, bt709_dec, 0.f, 1.f, 0.f, 1.f, true, true, 1e-6, 2e-7, 2.5e-6, 0},
        {"ST2084", O::ST2084, 1.f, pq_enc, pq_dec, 0.f, 100.f, 0.f, 1.f, true, false, 5e-5, 1e-9, 6e-4, 1e-7},
        {"S-Log", O::SLOG, 1.f, slog_enc, slog_dec, 0.f, 10.f, 0.0300013f, 1.08f, true, false, 1.5e-6, 3e-7, 8e-6, 2e-7},
        {"S-Log2", O::SLOG2, 1.f, slog2_enc, slog2_dec, 0.f, 10.f, 0.0881651f, 0.931f, false, false, 1.5e-6, 3e-7, 8e-6, 3e-7},
        {"S-Log3", O::SLOG3, 1.f, slog3_enc, slog3_dec, -0.01f, 40.f, 0.0266f, 1.f, false, false, 2e-6, 2e-7, 1.2e-5, 3e-7},
        {"HLG", O::HLG, 1.f, hlg_enc, hlg_dec, 0.f, 12.f, 0.f, 1.f, true, false, 2e-6, 0, 6e-6, 0},
    };
    return c;
}

// ---- colour spaces ---------------------------------------------------------------------------------------------------
static inline D3 xyz_to_Yxy(const D3 &c)
{
    const double s = c[0] + c[1] + c[2];
    return D3{{c[1], c[0] / s, c[1] / s}};
}
static inline D3 Yxy_to_xyz(const D3 &c) { return D3{{c[0] * c[1] / c[2], c[0], c[0] * (1 - c[1] - c[2]) / c[2]}}; }
static inline D3 xyz_to_Yuv(const D3 &c) // CIE 1960 UCS
{
    const double s = c[0] + 15 * c[1] + 3 * c[2];
    return D3{{c[1], 4 * c[0] / s, 6 * c[1] / s}};
}
static inline double labf(double t) { return t > 216.0 / 24389 ? std::cbrt(t) : (24389.0 / 27 * t + 16) / 116; }
static inline double labfi(double f) { return f > 6.0 / 29 ? f * f * f : 3 * (6.0 / 29) * (6.0 / 29) * (f - 4.0 / 29); }
static inline D3 xyz_to_lab(const D3 &c, const D3 &w)
{
    double f[3];
    for (int i = 0; i < 3; i++)
        f[i] = labf(std::min(c[i] / w[i], 1.0));
    return D3{{116 * f[1] - 16, 500 * (f[0] - f[1]), 200 * (f[1] - f[2])}};
}
static inline D3 lab_to_xyz(const D3 &l, const D3 &w)
{
    const double fy = (l[0] + 16) / 116, fx = fy + l[1] / 500, fz = fy - l[2] / 200;
    const double f[3] = {fx, fy, fz};
    D3           r;
    for (int i = 0; i < 3; i++)
        r[i] = (f[i] > 1 ? 1.0 : labfi(f[i])) * w[i];
    return r;
}
static const M3 OK_M1 = {{0.8189330101, 0.3618667424, -0.1288597137, 0.0329845436, 0.9293118715, 0.0361456387, 0.0482003018, 0.2643662691, 0.6338517070}};
static const M3 OK_M2 = {{0.2104542553, 0.7936177850, -0.0040720468, 1.9779984951, -2.4285922050, 0.4505937099, 0.0259040371, 0.7827717662, -0.8086757660}};
static inline D3 xyz_to_oklab(const D3 &c)
{
    D3 l = mul(OK_M1, c);
    for (int i = 0; i < 3; i++)
        l[i] = std::cbrt(l[i]);
    return mul(OK_M2, l);
}
static inline D3 oklab_to_xyz(const D3 &c)
{
    static const M3 i1 = inv(OK_M1), i2 = inv(OK_M2);
    D3              l = mul(i2, c);
    for (int i = 0; i < 3; i++)
        l[i] = l[i] * l[i] * l[i];
    return mul(i1, l);
}
static const M3 ITP_LMS = {{0.3592, 0.6976, -0.0358, -0.1922, 1.1004, 0.0755, 0.0070, 0.0749, 0.8434}};
static inline D3 lms_to_ictcp(const D3 &l)
{
    const double a = pq_enc(l[0]), b = pq_enc(l[1]), c = pq_enc(l[2]);
    return D3{{0.5 * a + 0.5 * b, (6610 * a - 13613 * b + 7003 * c) / 4096, (17933 * a - 17390 * b - 543 * c) / 4096}};
}
static inline D3 xyz_to_ictcp(const D3 &c) { return lms_to_ictcp(mul(ITP_LMS, c)); }
// hexagonal hue in degrees
static inline D3 rgb_to_hsv(const D3 &c)
{
    const double mx = std::max(c[0], std::max(c[1], c[2])), mn = std::min(c[0], std::min(c[1], c[2])), d = mx - mn;
    double       h  = 0;
    if (d > 0)
    {
        if (mx == c[0])
            h = (c[1] - c[2]) / d;
        else if (mx == c[1])
            h = (c[2] - c[0]) / d + 2;
        else
            h = (c[0] - c[1]) / d + 4;
        h *= 60;
        if (h < 0)
            h += 360;
    }
    return D3{{h, mx == 0 ? 0 : d / mx, mx}};
}
static inline D3 hsv_to_rgb(const D3 &c)
{
    double h = std::fmod(c[0], 360.0);
    if (h < 0)
        h += 360;
    h /= 60;
    // channel k = v - v s max(0, min(k, 4-k, 1)) with k = (n + h) mod 6
    const double n[3] = {5, 3, 1};
    D3           r;
    for (int i = 0; i < 3; i++)
    {
        const double k = std::fmod(n[i] + h, 6.0);
        r[i]           = c[2] - c[2] * c[1] * std::max(0.0, std::min(std::min(k, 4 - k), 1.0));
    }
    return r;
}

// ---- gamuts ----------------------------------------------------------------------------------------------------------
struct Prim
{
    double p[8];
}; // xR yR xG yG xB yB xW yW
static inline M3 rgb_to_xyz(const Prim &q)
{
    // columns (x, y, z) of each primary scaled so that they add up to the white of luminance 1
    M3 P;
    for (int k = 0; k < 3; k++)
    {
        P(0, k) = q.p[2 * k];
        P(1, k) = q.p[2 * k + 1];
        P(2, k) = 1 - q.p[2 * k] - q.p[2 * k + 1];
    }
    const D3 w = {{q.p[6] / q.p[7], 1, (1 - q.p[6] - q.p[7]) / q.p[7]}};
    const D3 s = mul(inv(P), w);
    for (int i = 0; i < 3; i++)
        for (int k = 0; k < 3; k++)
            P(i, k) *= s[k];
    return P;
}
struct NamedGamut
{
    const char      *name;
    const CS::Gamut *g;
    M3               toXYZ;
    D3               white;
};
static const M3 BRADFORD = {{0.8951, 0.2664, -0.1614, -0.7502, 1.7135, 0.0367, 0.0389, -0.0685, 1.0296}};
static const std::vector<NamedGamut> &gamuts()
{
    static const double d65x = 0.3127, d65y = 0.3290, acx = 0.32168, acy = 0.33767;
    auto                mk = [](const char *n, const CS::Gamut &g, Prim p) {
        return NamedGamut{n, &g, rgb_to_xyz(p), D3{{p.p[6] / p.p[7], 1, (1 - p.p[6] - p.p[7]) / p.p[7]}}};
    };
    auto sum = [](const M3 &m) { return mul(m, D3{{1, 1, 1}}); };
    static const std::vector<NamedGamut> v = {
        mk("AdobeRGB", CS::AdobeRGB, Prim{{0.64, 0.33, 0.21, 0.71, 0.15, 0.06, d65x, d65y}}),
        mk("Rec.709", CS::Rec709, Prim{{0.64, 0.33, 0.30, 0.60, 0.15, 0.06, d65x, d65y}}),
        mk("Rec.2020", CS::Rec2020, Prim{{0.708, 0.292, 0.170, 0.797, 0.131, 0.046, d65x, d65y}}),
        mk("DCI P3", CS::DCI_P3, Prim{{0.680, 0.320, 0.265, 0.690, 0.150, 0.060, 0.314, 0.351}}),
        mk("S-Gamut", CS::S_Gamut, Prim{{0.73, 0.28, 0.14, 0.855, 0.10, -0.05, d65x, d65y}}),
        mk("S-Gamut3.Cine", CS::S_Gamut3_Cine, Prim{{0.766, 0.275, 0.225, 0.800, 0.089, -0.087, d65x, d65y}}),
        mk("ACES cg", CS::ACEScg, Prim{{0.713, 0.293, 0.165, 0.830, 0.128, 0.044, acx, acy}}),
        mk("ACES 2065", CS::ACES2065, Prim{{0.7347, 0.2653, 0.0, 1.0, 0.0001, -0.0770, acx, acy}}),
        NamedGamut{"LMS", &CS::LMS, inv(BRADFORD), sum(inv(BRADFORD))},
        NamedGamut{"XYZ", &CS::XYZ, eye(), D3{{1, 1, 1}}},
    };
    return v;
}
static inline M3 bradford(const D3 &src, const D3 &dst)
{
    static const M3 bi = inv(BRADFORD);
    const D3        a = mul(BRADFORD, src), b = mul(BRADFORD, dst);
    const M3        s = {{b[0] / a[0], 0, 0, 0, b[1] / a[1], 0, 0, 0, b[2] / a[2]}};
    return mul(bi, mul(s, BRADFORD));
}

// ---- CIEDE2000 (Sharma, Wu, Dalal 2005) ------------------------------------------------------------------------------
// amb: distance of |h1-h2| from 180 degrees (both conventions are right there); alt selects the other branch
static inline double ciede2000(const D3 &p, const D3 &q, double kl, double kc, double kh, bool alt, double &amb)
{
    const double pi = 3.14159265358979323846, p25 = 6103515625.0;
    const double C1 = std::hypot(p[1], p[2]), C2 = std::hypot(q[1], q[2]);
    const double Cb7 = std::pow((C1 + C2) / 2, 7), G = 0.5 * (1 - std::sqrt(Cb7 / (Cb7 + p25)));
    const double a1 = (1 + G) * p[1], a2 = (1 + G) * q[1];
    const double c1 = std::hypot(a1, p[2]), c2 = std::hypot(a2, q[2]);
    auto         hue = [&](double a, double b) {
        if (a == 0 && b == 0)
            return 0.0;
        double h = std::atan2(b, a) * 180 / pi;
        return h < 0 ? h + 360 : h;
    };
    const double h1 = hue(a1, p[2]), h2 = hue(a2, q[2]);
    const double dL = q[0] - p[0], dC = c2 - c1;
    double       dh = 0, hb = h1 + h2;
    amb = 1e9;
    if (c1 * c2 != 0)
    {
        amb            = std::fabs(std::fabs(h2 - h1) - 180);
        const bool far = (std::fabs(h2 - h1) > 180) != alt;
        dh             = h2 - h1;
        if (far)
            dh += dh > 0 ? -360 : 360;
        if (!far)
            hb = (h1 + h2) / 2;
        else if (h1 + h2 < 360)
            hb = (h1 + h2 + 360) / 2;
        else
            hb = (h1 + h2 - 360) / 2;
    }
    const double dH = 2 * std::sqrt(c1 * c2) * std::sin(dh / 2 * pi / 180);
    const double Lb = (p[0] + q[0]) / 2, Cb = (c1 + c2) / 2, r = pi / 180;
    const double T   = 1 - 0.17 * std::cos((hb - 30) * r) + 0.24 * std::cos(2 * hb * r) + 0.32 * std::cos((3 * hb + 6) * r) - 0.20 * std::cos((4 * hb - 63) * r);
    const double dth = 30 * std::exp(-std::pow((hb - 275) / 25, 2));
    const double c7 = std::pow(Cb, 7), Rc = 2 * std::sqrt(c7 / (c7 + p25));
    const double Sl = 1 + 0.015 * (Lb - 50) * (Lb - 50) / std::sqrt(20 + (Lb - 50) * (Lb - 50)), Sc = 1 + 0.045 * Cb, Sh = 1 + 0.015 * Cb * T;
    const double Rt = -std::sin(2 * dth * r) * Rc;
    const double x = dL / (kl * Sl), y = dC / (kc * Sc), z = dH / (kh * Sh);
    return std::sqrt(std::max(0.0, x * x + y * y + z * z + Rt * y * z));
}

// ---- lattices --------------------------------------------------------------------------------------------------------
// every non-negative float whose mantissa has only its top `bits` bits, exponents e0..e1 (powers of two), in order
struct FloatLattice
{
    int      e0, e1, bits;
    uint64_t n() const { return (uint64_t)(e1 - e0 + 1) << bits; }
    float    at(uint64_t i) const
    {
        const uint32_t e = (uint32_t)(e0 + 127 + (int)(i >> bits));
        const uint32_t m = (uint32_t)(i & ((1ull << bits) - 1)) << (23 - bits);
        return mc::bits(e << 23 | m);
    }
};
// union of float sets: lattices of either sign, full-precision windows, code values
struct Domain
{
    struct Seg
    {
        int          kind; // 0 lattice, 1 negative lattice, 2 window, 3 codes
        FloatLattice l;
        int64_t      base;
        double       den;
        uint64_t     n;
    };
    std::vector<Seg> s;
    Domain          &lattice(int e0, int e1, int bits)
    {
        FloatLattice l{e0, e1, bits};
        s.push_back(Seg{0, l, 0, 0, l.n()});
        return *this;
    }
    Domain &neglattice(int e0, int e1, int bits)
    {
        FloatLattice l{e0, e1, bits};
        s.push_back(Seg{1, l, 0, 0, l.n()});
        return *this;
    }
    Domain &window(float x, int64_t w)
    {
        s.push_back(Seg{2, FloatLattice{0, 0, 0}, mc::ordi(x) - w, 0, (uint64_t)(2 * w + 1)});
        return *this;
    }
    Domain &codes(double den, uint64_t n)
    {
        s.push_back(Seg{3, FloatLattice{0, 0, 0}, 0, den, n});
        return *this;
    }
    uint64_t n() const
    {
        uint64_t t = 0;
        for (auto &g : s)
            t += g.n;
        return t;
    }
    float at(uint64_t i) const
    {
        for (auto &g : s)
        {
            if (i >= g.n)
            {
                i -= g.n;
                continue;
            }
            switch (g.kind)
            {
            case 0: return g.l.at(i);
            case 1: return -g.l.at(i);
            case 2: return mc::iord(g.base + (int64_t)i);
            default: return (float)((double)i / g.den);
            }
        }
        return 0;
    }
};
static inline float lin(uint64_t i, uint64_t n, double lo, double hi) { return (float)(lo + (hi - lo) * (double)i / (double)(n - 1)); }
} // namespace ref
