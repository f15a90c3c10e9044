// C41: what the compiler evaluates equals what the program computes. lib/ct.cpp holds, per operation, the table of results
// over every combination of arguments as constants (one object per operation and language standard); here the same
// operation is run on the same arguments.
#include "mc.hpp"
#include "ct.hpp"
#include <cmath>
#define CT_DECL(I, ...) extern "C" const float *ct_table_##I() __attribute__((weak)); extern "C" const float *ct_table2_##I() __attribute__((weak));
CT_OPS(CT_DECL)
template <class Op> static __attribute__((noinline)) void judge(mc::Ctx &k, long i, const float *table, const char *std)
{
    float p[8] = {0}, o[40] = {0};
    volatile long vi = i;
    ct::args<Op>(vi, ct::limit<Op>(CT_MOST), p);
    volatile float q[8];
    for (int a = 0; a < 8; a++) { q[a] = p[a]; p[a] = q[a]; }
    Op::run(p, o, 0);
    k.call();
    double scale = 0;
    for (int j = 0; j < Op::OUTS; j++) if (std::isfinite(o[j])) scale = fmax(scale, fabs(o[j]));
    const double tol = 1e-5 * scale + (std::string(Op::name()) == "toCIELAB" ? 2e-4 : 0);
    uint64_t h = 0;
    for (int j = 0; j < Op::OUTS; j++)
    {
        const float c = table[i * Op::OUTS + j];
        k.w->cmps++;
        const bool same = std::isnan(c) ? std::isnan(o[j]) : std::isinf(c) ? c == o[j] : fabs((double)c - o[j]) <= tol;
        if (!same)
        {
            std::string a;
            for (int x = 0; x < Op::ARGS; x++) { char b[32]; snprintf(b, sizeof b, "%s%.9g", x ? ", " : "", p[x]); a += b; }
            k.fail("%s(%s): result %d is %.9g as a constant (%s) and %.9g at run time", Op::name(), a.c_str(), j, c, std, o[j]);
            return;
        }
        h = h * 1000003 + *(const uint32_t *)&c;
    }
    if (k.verbose) k.note("%s: constant %.9g, run time %.9g", Op::name(), table[i * Op::OUTS], o[0]);
    k.out(h);
}
void setup(mc::Explorer &ex)
{
    static std::string names[2][64];
#define CT_ADD(I, NAME, A, R, DOMS, ...)                                                                                          \
    for (int q = 0; q < 2; q++)                                                                                                   \
        if (const float *(*f)() = q ? ct_table2_##I : ct_table_##I)                                                              \
        {                                                                                                                         \
            names[q][I] = std::string(NAME) + (q ? ":C++14" : ":C++17");                                                         \
            ex.add(names[q][I].c_str(), "constants against run time, every combination of the listed argument values", ct::count<ct::Op##I>(ct::limit<ct::Op##I>(CT_MOST)), \
                [f, q](mc::Ctx &k, uint64_t i) { judge<ct::Op##I>(k, (long)i, f(), q ? "C++14" : "C++17"); });                    \
        }
    CT_OPS(CT_ADD)
}
MC_MAIN(setup)
