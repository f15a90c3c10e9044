// C37: results do not depend on how the library is compiled. lib/ops.cpp and lib/jops.cpp are built once per
// configuration (compiler, optimisation level, language standard, assertions, character signedness, checked containers,
// undefined-behaviour traps) into shared objects beside this executable.
#include "mc.hpp"
#include "ops.hpp"
#include <dlfcn.h>
#include <fstream>
#include <memory>
struct Lib { std::string name; const OpsApi *api; size_t (*jops)(const char *, size_t, int, char *, size_t); };
static std::vector<Lib> olib, jlib, ilib; // colour, JSON, JSON with 64-bit integers; [0] is the reference
struct Item { int op, v; };
static std::vector<Item> items;
static const size_t CAP = 1 << 16;
static unsigned char ref[CAP], got[CAP], tags[CAP], tags2[CAP];
static std::string here()
{
    char b[4096];
    const ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
    b[n > 0 ? n : 0] = 0;
    return std::string(b).substr(0, std::string(b).rfind('/'));
}
static std::string show(const Item &x)
{
    char t[400];
    olib[0].api->args(x.op, x.v, t, sizeof t);
    return std::string(olib[0].api->name(x.op)) + "(" + t + ")";
}
template <class F> static double load(const unsigned char *p) { F x; memcpy(&x, p, sizeof x); return x; }
static void compare(mc::Ctx &k, const Item &x)
{
    OpResult r = {ref, CAP, 0, 0, tags};
    olib[0].api->run(x.op, x.v, &r);
    const size_t len = r.len < CAP ? r.len : CAP;
    double big = 0; // largest finite component of the result: the scale of the comparison
    for (size_t p = 0; p < len;)
    {
        const size_t st = tags[p] == 'f' ? 4 : tags[p] == 'd' ? 8 : 1;
        const double v = st == 4 ? load<float>(ref + p) : st == 8 ? load<double>(ref + p) : 0;
        if (std::isfinite(v) && fabs(v) > big) big = fabs(v);
        p += st;
    }
    if (k.verbose) k.note("%s", show(x).c_str());
    for (size_t q = 1; q < olib.size(); q++)
    {
        OpResult g = {got, CAP, 0, 0, tags2};
        k.call();
        if (k.verbose) k.note("configuration %s", olib[q].name.c_str());
        olib[q].api->run(x.op, x.v, &g);
        if (g.len != r.len || g.inputs_changed != r.inputs_changed) return k.fail("%s: the result has %zu bytes under `%s`, %zu under `%s`", show(x).c_str(), g.len, olib[q].name.c_str(), r.len, olib[0].name.c_str());
        k.w->cmps++;
        if (x.v >= OPS_SPECIAL && (x.v - OPS_SPECIAL) % OPS_NSPECIAL >= 10 && (x.v - OPS_SPECIAL) % OPS_NSPECIAL <= 12) continue; // not finite: any result will do
        if (memcmp(ref, got, len) == 0) continue;
        for (size_t p = 0; p < len;)
        {
            const size_t st = tags[p] == 'f' ? 4 : tags[p] == 'd' ? 8 : 1;
            if (memcmp(ref + p, got + p, st))
            {
                if (st == 1) return k.fail("%s: byte %zu of the result is %d under `%s`, %d under `%s`", show(x).c_str(), p, got[p], olib[q].name.c_str(), ref[p], olib[0].name.c_str());
                const double a = st == 4 ? load<float>(ref + p) : load<double>(ref + p), b = st == 4 ? load<float>(got + p) : load<double>(got + p);
                if (std::isnan(a) && std::isnan(b)) { p += st; continue; }
                const double tol = TOL * std::max(fabs(a), ABS * big) + 1e-37, e = fabs(a - b);
                if (!(e <= tol) && !(a == b)) return k.fail("%s: value at byte %zu is %.9g under `%s`, %.9g under `%s`", show(x).c_str(), p, b, olib[q].name.c_str(), a, olib[0].name.c_str());
                if (e / tol > k.w->worst) k.w->worst = e / tol;
            }
            p += st;
        }
    }
    uint64_t h = 5381;
    for (size_t p = 0; p < len; p++) h = h * 131 + ref[p];
    k.out(h);
}
static void text(mc::Ctx &k, const std::string &t, int mode)
{
    char a[4096], b[4096];
    for (auto *L : {&jlib, &ilib})
    {
        if (L->empty()) continue;
        const size_t n = (*L)[0].jops(t.data(), t.size(), mode, a, sizeof a);
        for (size_t q = 1; q < L->size(); q++)
        {
            if (k.verbose) k.note("configuration %s", (*L)[q].name.c_str());
            const size_t m = (*L)[q].jops(t.data(), t.size(), mode, b, sizeof b);
            k.call();
            k.w->cmps++;
            if (n != m || memcmp(a, b, n < sizeof a ? n : sizeof a))
            {
                std::string esc;
                char h[8];
                for (unsigned char c : t) { if (c >= 32 && c < 127) esc += (char)c; else { snprintf(h, sizeof h, "\\x%02x", c); esc += h; } }
                return k.fail("mode %d of `%s` gives `%.*s` under `%s`, `%.*s` under `%s`", mode, esc.c_str(), (int)std::min(m, sizeof b), b, (*L)[q].name.c_str(), (int)std::min(n, sizeof a), a, (*L)[0].name.c_str());
            }
        }
        uint64_t h = 5381;
        for (size_t p = 0; p < n && p < sizeof a; p++) h = h * 131 + (unsigned char)a[p];
        k.out(h);
    }
}
static uint64_t words(uint64_t a, int len) { uint64_t n = 0, p = 1; for (int i = 0; i <= len; i++, p *= a) n += p; return n; }
static void cmpseq(mc::Ctx &k, uint64_t i, const std::vector<std::string> &al, int mode)
{
    const uint64_t base = al.size();
    uint64_t p = 1;
    int len = 0;
    while (i >= p) { i -= p; p *= base; len++; }
    std::string s;
    for (int j = 0; j < len; j++) { s += al[i % base]; i /= base; }
    text(k, s, mode);
}
void setup(mc::Explorer &ex)
{
    const bool T = ex.thorough;
    const std::string dir = here();
    std::ifstream list(dir + "/configs.txt");
    std::string kind, file, name;
    while (list >> kind >> file && std::getline(list, name))
    {
        void *h = dlopen((dir + "/" + file).c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(3); }
        Lib l = {name.substr(name.find_first_not_of(' ')), nullptr, nullptr};
        if (kind == "ops") { l.api = ((const OpsApi *(*)())dlsym(h, "ops_api"))(); olib.push_back(l); }
        else { l.jops = (size_t(*)(const char *, size_t, int, char *, size_t))dlsym(h, "jops"); (kind == "json" ? jlib : ilib).push_back(l); }
    }
    if (olib.empty() || jlib.empty()) { fprintf(stderr, "no configurations\n"); exit(3); }
    const OpsApi *api = olib[0].api;
    const int nop = api->count();
    for (int op = 0; op < nop; op++)
        for (int v = 0; v < api->variants(op); v++) items.push_back({op, v});
    ex.add("operations", "every operation with every argument set, under every configuration", items.size(), [](mc::Ctx &k, uint64_t i) { compare(k, items[i]); });
    static std::vector<Item> sp;
    for (int op = 0; op < nop; op++)
        for (int v = 0; v < (api->variants(op) - 1) / 6 * OPS_NSPECIAL; v++) sp.push_back({op, OPS_SPECIAL + v});
    ex.add("special values", "every operation, each parameter in turn replaced by zero, negative zero, one, the smallest and largest floats, 3e9, 360, infinities and not-a-number (for these three only: no crash), under every configuration", sp.size(), [](mc::Ctx &k, uint64_t i) { compare(k, sp[i]); });
    const int NM = T ? 4000 : 200;
    ex.add("many arguments", T ? "4000 further argument sets of every operation, under every configuration" : "200 further argument sets of every operation, under every configuration", (uint64_t)nop * NM, [nop, api](mc::Ctx &k, uint64_t i) {
        const int op = (int)(i % nop);
        if (api->variants(op) == 1) return k.skip();
        compare(k, {op, OPS_MANY + (int)(i / nop)});
    });
    static const std::vector<std::string> tok = {"[", "]", "{", "}", ":", ",", "\"a\"", "\"\\u00e9\"", "1", "-0.5", "true", "null", " ", "x"};
    ex.add("JSON tokens", T ? "every sequence of up to 6 of 14 JSON tokens, read from memory, under every configuration, with and without 64-bit integers" : "every sequence of up to 5 of 14 JSON tokens, read from memory, under every configuration, with and without 64-bit integers", words(14, T ? 6 : 5), [](mc::Ctx &k, uint64_t i) { cmpseq(k, i, tok, 0); });
    ex.add("JSON streams", "every sequence of up to 4 of the 14 tokens, read as up to three values from a stream", words(14, 4), [](mc::Ctx &k, uint64_t i) { cmpseq(k, i, tok, 1); });
    static const std::vector<std::string> num = {"-", "0", "1", "9", ".", "e", "+", "5"};
    ex.add("numbers", T ? "every text of up to 7 characters over - 0 1 9 . e + 5" : "every text of up to 6 characters over - 0 1 9 . e + 5", words(8, T ? 7 : 6), [](mc::Ctx &k, uint64_t i) { cmpseq(k, i, num, 0); });
    static std::vector<std::string> bytes;
    for (int b = 0; b < 256; b++) bytes.push_back(std::string(1, (char)b));
    ex.add("bytes", "every text of up to 2 bytes, alone", words(256, 2), [](mc::Ctx &k, uint64_t i) { cmpseq(k, i, bytes, 0); });
    ex.add("string bytes", "every body of up to 2 bytes in a string, read; and written as a string, in arrays and as a key", 2 * words(256, 2), [](mc::Ctx &k, uint64_t i) {
        uint64_t j = i / 2;
        std::string s;
        if (j) { j--; s += (char)(j % 256); if (j >= 256) s += (char)((j - 256) / 256); }
        if (i % 2) text(k, s, 2);
        else text(k, "[\"" + s + "\"]", 0);
    });
    static const std::vector<std::string> esc = {"\\", "u", "0", "d", "8", "\"", "n", "\xe9", "\x7f", "F", "/"};
    ex.add("escapes", T ? "every string body of up to 7 of 11 escape characters" : "every string body of up to 6 of 11 escape characters", words(11, T ? 7 : 6), [](mc::Ctx &k, uint64_t i) {
        const uint64_t base = esc.size();
        uint64_t p = 1;
        int len = 0;
        while (i >= p) { i -= p; p *= base; len++; }
        std::string s = "\"";
        for (int j = 0; j < len; j++) { s += esc[i % base]; i /= base; }
        text(k, s + "\"", 0);
    });
    static std::vector<std::string> hist;
    for (int b = 0; b < 26; b++) hist.push_back(std::string(1, (char)b));
    ex.add("JSON histories", T ? "every sequence of up to 4 of 26 operations on two JSON values (copy, both swaps, wrapping, insertion, removal, own child, own copy inside itself, parsing, failed parsing, self-assignment, vectors), both written out after every step" : "every sequence of up to 3 of 26 operations on two JSON values (copy, both swaps, wrapping, insertion, removal, own child, own copy inside itself, parsing, failed parsing, self-assignment, vectors), both written out after every step",
        words(26, T ? 4 : 3), [](mc::Ctx &k, uint64_t i) { cmpseq(k, i, hist, 4); });
    ex.add("doubles", "every sign, exponent and 10 mantissa patterns of double, written and read back", 2 * 2048 * 10, [](mc::Ctx &k, uint64_t i) {
        static const uint64_t M[10] = {0, 1, 0xfffffffffffffull, 0x8000000000000ull, 0x5555555555555ull, 0x999999999999aull, 0x0000100000000ull, 0x7ffffffffffffull, 0x123456789abcdull, 0xc000000000000ull};
        const uint64_t b = M[i % 10] | (i / 10 % 2048) << 52 | (i / 20480) << 63;
        text(k, std::string((const char *)&b, 8), 3);
    });
}
MC_MAIN(setup)
