// C21: built-in tables, entry by entry, against a committed copy (lib/tables.bin) and against independently typed anchors.
#include "ref.hpp"
#include <fstream>
using namespace ref;
typedef CS::Spectrum S;
typedef CS::Tristimulus T3;
static const S *TAB[] = {
#define T(n) &CS::n,
#include "tablenames.inc"
#undef T
};
static const char *NAME[] = {
#define T(n) #n,
#include "tablenames.inc"
#undef T
};
static const int NT = sizeof TAB / sizeof *TAB;
static std::vector<float> G; // golden, NT*400
static const float *gold(int t) { return &G[(size_t)t * 400]; }
enum { D65 = 9, CES = 10, MAC = 109 };
// CIE 1931 2-degree, 20 nm (CIE 15 table T.4) and D65 (CIE 15 table T.1)
static const double A31[][4] = {{380, .001368, .000039, .006450}, {400, .014310, .000396, .067850}, {420, .134380, .004000, .645600}, {440, .348280, .023000, 1.747060}, {460, .290800, .060000, 1.669200}, {480, .095640, .139020, .812950}, {500, .004900, .323000, .272000}, {520, .063270, .710000, .078250}, {540, .290400, .954000, .020300}, {560, .594500, .995000, .003900}, {580, .916300, .870000, .001650}, {600, 1.062200, .631000, .000800}, {620, .854450, .381000, .000190}, {640, .447900, .175000, .000020}, {660, .164900, .061000, 0}, {680, .046770, .017000, 0}, {700, .011359, .004102, 0}, {720, .002899, .001047, 0}};
static const double AD65[][2] = {{380, 49.9755}, {400, 82.7549}, {420, 93.4318}, {440, 104.865}, {460, 117.812}, {480, 115.923}, {500, 109.354}, {520, 104.790}, {540, 104.405}, {560, 100.000}, {580, 95.7880}, {600, 90.0062}, {620, 87.6987}, {640, 83.6992}, {660, 80.2146}, {680, 78.2842}, {700, 71.6091}, {720, 61.6040}, {740, 75.0870}, {760, 46.4182}};
static double trist(const float *r, const float *l, const float *c)
{
    double s = 0, n = 0;
    for (int i = 0; i < 400; i++) { s += (r ? (double)r[i] : 1.0) * (l ? (double)l[i] : 1.0) * c[i]; n += c[i]; }
    return s / n;
}
void setup(mc::Explorer &ex)
{
    std::ifstream f(VERIF_LIB "/tables.bin", std::ios::binary);
    G.resize(NT * 400);
    f.read((char *)G.data(), G.size() * 4);
    if (!f) { fprintf(stderr, "tables.bin missing\n"); exit(3); }
    ex.add("entries", "every sample of every table", NT * 400, [](mc::Ctx &k, uint64_t i) {
        const int t = (int)(i / 400), j = (int)(i % 400);
        const float v = (*TAB[t])[j], w = gold(t)[j];
        k.call(); k.outf(v);
        if (k.verbose) k.note("%s at %d nm = %.9g", NAME[t], 380 + j, v);
        k.near(NAME[t], v, w, 2e-6 * std::fabs(w));
        k.ok(v >= 0, "non-negative");
        if (t >= CES) k.ok(v <= 1, "reflectance at most 1");
    });
    ex.add("collections", "members of the sample and patch collections, in order, every sample", (99 + 24) * 400, [](mc::Ctx &k, uint64_t i) {
        const int t = (int)(i / 400), j = (int)(i % 400);
        k.call();
        k.ok(CS::TM_30_15::sample.size() == 99 && CS::Macbeth::Patch.size() == 24, "collection sizes");
        const float v = t < 99 ? CS::TM_30_15::sample[t][j] : CS::Macbeth::Patch[t - 99][j], w = gold(CES + t)[j];
        if (k.verbose) k.note("collection member %d at %d nm = %.9g", t, 380 + j, v);
        k.near("collection member", v, w, 2e-6 * std::fabs(w));
    });
    static const CS::Observer *OB[3] = {&CS::CIE1931, &CS::CIE31JV, &CS::CIE2012};
    ex.add("observers", "each built-in observer uses its own functions: impulse at every wavelength", 3 * 400, [](mc::Ctx &k, uint64_t i) {
        const int o = (int)(i / 400), j = (int)(i % 400);
        S::spectrum s;
        s.fill(0);
        s[j] = 1.f;
        const T3 t = OB[o]->fromSpectrum(S(s));
        k.call(); k.outf(t[0], t[1], t[2]);
        for (int c = 0; c < 3; c++)
        {
            double n = 0;
            for (int q = 0; q < 400; q++) n += gold(o * 3 + c)[q];
            const double w = gold(o * 3 + c)[j] / n;
            k.near("component", t[c], w, 6e-5 * w);
        }
    });
    // lights: E, D65, blackbodies, spikes; observers: all three and the default
    ex.add("reference", "chart reference colours: every patch, 3 observers + default, lights = equal energy, D65, blackbodies 2000..10000 K in 250 K steps, impulses every 10 nm, and equal energy and D65 at ten intensities from 1e-9 to 1e9; also an observer of the caller's", 24 * 5 * (2 + 33 + 40 + 20), [](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int p = (int)d.pick(24), o = (int)d.pick(5), l = (int)d.v;
        S li = l == 0 ? S::E(1.f) : l == 1 ? CS::CIE_D65 : l < 35 ? S::blackbody(2000.f + 250.f * (l - 2)) : S();
        static const float IN[10] = {1e-9f, 1e-4f, 0.01f, 0.3f, 2.f, 10.f, 100.f, 683.f, 1e5f, 1e9f};
        if (l >= 75) li = (l & 1 ? S::E(1.f) : CS::CIE_D65) * IN[(l - 75) / 2];
        else if (l >= 35) { S::spectrum s; s.fill(0); s[(l - 35) * 10] = 5.f; li = S(s); }
        static const CS::Observer own(CS::CIE1931_Z, CS::CIE2012_X, CS::CIE1931_JuddVos_Y);
        static const int OWN[3] = {2, 6, 4};
        const std::vector<T3> r = o == 4 ? CS::Macbeth::reference(li, own) : o == 3 ? CS::Macbeth::reference(li) : CS::Macbeth::reference(li, *OB[o]);
        k.call();
        if (!k.ok(r.size() == 24, "24 reference colours")) return;
        k.outf(r[p][0], r[p][1], r[p][2]);
        if (k.verbose) k.note("patch %d, light %d, observer %d: (%.9g, %.9g, %.9g)", p, l, o, r[p][0], r[p][1], r[p][2]);
        for (int c = 0; c < 3; c++)
        {
            const double w = trist(gold(MAC + p), &li.s()[0], gold(o == 4 ? OWN[c] : (o % 3) * 3 + c));
            k.near("reference colour", r[p][c], w, 1.2e-4 * w + 1e-40);
        }
    });
    ex.add("anchors", "published 20 nm values of CIE 1931 and D65 (binds the committed copy to the standard)", 18 + 20, [](mc::Ctx &k, uint64_t i) {
        if (i < 18)
            for (int c = 0; c < 3; c++)
            {
                k.near("committed copy", gold(c)[(int)A31[i][0] - 380], A31[i][c + 1], 1.1e-5);
                k.near("CIE 1931", (*TAB[c])[(int)A31[i][0] - 380], A31[i][c + 1], 1.1e-5);
            }
        else
        {
            const double *a = AD65[i - 18];
            k.near("committed copy", gold(D65)[(int)a[0] - 380], a[1], 6e-4);
            k.near("D65", CS::CIE_D65[(int)a[0] - 380], a[1], 6e-4);
        }
    });
    ex.add("whites", "consequences: D65 has its published chromaticity, luminosity functions peak at 555..557 nm with value 1, greys are neutral", 3, [](mc::Ctx &k, uint64_t i) {
        const T3 w = OB[i]->fromSpectrum(CS::CIE_D65);
        const double s = (double)w[0] + w[1] + w[2];
        k.near("D65 x", w[0] / s, 0.3127, i == 0 ? 3e-4 : 6e-3);
        k.near("D65 y", w[1] / s, 0.3290, i == 0 ? 3e-4 : 6e-3);
        int b = 0;
        for (int j = 0; j < 400; j++) if (OB[i]->Y_[j] > OB[i]->Y_[b]) b = j;
        k.ok(b + 380 >= 555 && b + 380 <= 557, "luminosity peak at 555..557 nm");
        k.near("luminosity peak", OB[i]->Y_[b], 1, 2e-4);
        for (int p = 19; p < 23; p++) // the greys after white
        {
            const T3 t = OB[i]->fromReflectanceAndLight(CS::Macbeth::Patch[p], CS::CIE_D65);
            const double q = (double)t[0] + t[1] + t[2];
            k.near("grey x", t[0] / q, w[0] / s, 8e-3);
            k.near("grey y", t[1] / q, w[1] / s, 8e-3);
        }
        k.call(5);
    });
}
MC_MAIN(setup)
