// C34: JSON reading and writing give the same result under every decimal-point convention and stream formatting state.
// The C locales are small LC_NUMERIC files of our own (lib/locale): decimal comma with grouping, and a two-byte decimal point.
#include "picojson.h"
#include "mc.hpp"
#include <clocale>
#include <iomanip>
#include <locale>
#include <locale.h>
#include <sstream>
namespace P = picojson;
static locale_t LOC[4];
static const int NL = 4; // the last: the C locale, and a global C++ locale with decimal comma, grouping and other boolean names
static const char *const LN[NL] = {"C", "comma", "arabic", "C++ comma"};
struct Punct : std::numpunct<char>
{
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\3"; }
    std::string do_truename() const override { return "wahr"; }
    std::string do_falsename() const override { return "falsch"; }
};
static std::string show(const std::string &s)
{
    std::string r;
    char t[8];
    for (unsigned char c : s) if (c >= 32 && c < 127) r += c; else { snprintf(t, sizeof t, "\\x%02x", c); r += t; }
    return r;
}
struct In
{
    locale_t o;
    bool cxx;
    In(int l) : o(uselocale(LOC[l])), cxx(l == 3)
    {
        static const std::locale pl(std::locale::classic(), new Punct);
        if (cxx) std::locale::global(pl);
    }
    ~In() { uselocale(o); if (cxx) std::locale::global(std::locale::classic()); }
};
// everything the parser and the writer say about a text
static std::string reading(const std::string &t, bool forms)
{
    P::value v;
    std::string e = P::parse(v, t), r;
    r = e.empty() ? "ok " + v.serialize() + "|" + v.serialize(true) + "|" + v.to_str() : "error " + e;
    if (e.empty() && v.is<double>()) { char b[9]; memcpy(b, &v.get<double>(), 8); r += "|" + std::string(b, 8); }
    if (forms)
    {
        P::value w;
        std::istringstream is(t);
        is >> w;
        r += is.fail() ? "|failed " + P::get_last_error() : "|ok " + w.serialize();
        std::ostringstream os;
        os << v;
        r += "|" + os.str();
    }
    return r;
}
static uint64_t fp(const std::string &s) { uint64_t h = 5381; for (unsigned char c : s) h = h * 131 + c; return h; }
static void text(mc::Ctx &k, const std::string &t, bool forms)
{
    try
    {
        const std::string want = reading(t, forms);
        k.call();
        for (int l = 1; l < NL; l++)
        {
            std::string got;
            { In in(l); got = reading(t, forms); }
            k.call();
            k.w->cmps++;
            if (got != want) return k.fail("`%s` under locale %s: %s, under C: %s", show(t).c_str(), LN[l], show(got).c_str(), show(want).c_str());
        }
        if (k.verbose) k.note("`%s`: %s", show(t).c_str(), show(want).c_str());
        k.out(fp(want));
    }
    catch (const std::exception &x) { uselocale(LOC[0]); k.fail("`%s` throws %s", show(t).c_str(), x.what()); }
}
// number written under locale a, read under b, written under c
static void number(mc::Ctx &k, double d)
{
    try
    {
        const P::value v(d);
        std::string want;
        { In in(0); want = v.serialize(); }
        for (int a = 0; a < NL; a++)
        {
            std::string s, p, q;
            { In in(a); s = v.serialize(); q = v.to_str(); P::array x{v, v}; p = P::value(x).serialize(); }
            k.call(3);
            k.w->cmps++;
            if (s != want || q != want || p != "[" + want + "," + want + "]") return k.fail("%.17g is written as `%s`, `%s`, `%s` under locale %s, as `%s` under C", d, show(s).c_str(), show(q).c_str(), show(p).c_str(), LN[a], show(want).c_str());
            for (int b = 0; b < NL; b++)
            {
                P::value w;
                std::string e;
                { In in(b); e = P::parse(w, p); }
                k.call();
                k.w->cmps++;
                if (!e.empty() || !w.is<P::array>() || w.get<P::array>().size() != 2 || !w.get(0).is<double>() || w.get(0).get<double>() != d || !w.get(1).is<double>() || w.get(1).get<double>() != d) return k.fail("`%s`, written under locale %s, reads differently under %s", show(p).c_str(), LN[a], LN[b]);
            }
        }
        k.out(fp(want));
    }
    catch (const std::exception &x) { uselocale(LOC[0]); k.fail("%.17g throws %s", d, x.what()); }
}
static uint64_t words(uint64_t a, int len) { uint64_t n = 0, p = 1; for (int i = 0; i <= len; i++, p *= a) n += p; return n; }
static std::string word(uint64_t i, const std::vector<std::string> &al)
{
    uint64_t p = 1;
    int len = 0;
    while (i >= p) { i -= p; p *= al.size(); len++; }
    std::string s;
    for (int j = 0; j < len; j++) { s += al[i % al.size()]; i /= al.size(); }
    return s;
}
static const std::vector<std::string> DOCS = {
    "null", " true", "-12.5e+3", "[]", "{}", "\"1.5\"", "\"1,5 \xd9\xab\"", "[1,2.5,-3e2]", "[1.5,5.25,0.125]", "{\"1.5\":1.5,\"b\":[true,null,2.75]}", "[1e308,2.2250738585072014e-308,4.9e-324,123456789012345678]",
    "[0,-0,0.0,1E5,1e-5,1000000.5,1234567,1234567.25]", "[1,5]", "1,5", "1.234,5", "1\xd9\xab""5", "[1 .5]", "-0.5", "3.", ".5", "1.5.5"};
void setup(mc::Explorer &ex)
{
    const bool T = ex.thorough;
    setenv("LOCPATH", VERIF_LIB "/locale", 1);
    LOC[0] = newlocale(LC_ALL_MASK, "C", (locale_t)0);
    LOC[3] = LOC[0];
    LOC[1] = newlocale(LC_NUMERIC_MASK, "comma", (locale_t)0);
    LOC[2] = newlocale(LC_NUMERIC_MASK, "arabic", (locale_t)0);
    char t[40];
    bool ok = LOC[0] && LOC[1] && LOC[2];
    if (ok)
    {
        { In in(1); snprintf(t, sizeof t, "%.1f", 1.5); ok &= !strcmp(t, "1,5"); }
        { In in(2); snprintf(t, sizeof t, "%.1f", 1.5); ok &= !strcmp(t, "1\xd9\xab""5"); }
    }
    if (!ok) { fprintf(stderr, "the test locales cannot be loaded\n"); exit(4); }
    uselocale(LOC[0]);
    static const std::vector<std::string> al = {"1", "0", ".", ",", "-", "5", "e", "[", "]", " ", "\xd9\xab"};
    const int n = T ? 7 : 6;
    ex.add("texts", T ? "every text of up to 7 of the tokens 1 0 . , - 5 e [ ] space and the two-byte decimal point, read and rewritten under each locale" : "every text of up to 6 of the tokens 1 0 . , - 5 e [ ] space and the two-byte decimal point, read and rewritten under each locale", words(al.size(), n), [](mc::Ctx &k, uint64_t i) { text(k, word(i, al), false); });
    ex.add("texts-all-forms", "every text of up to 4 of these tokens, also through operator>> and operator<<", words(al.size(), 4), [](mc::Ctx &k, uint64_t i) { text(k, word(i, al), true); });
    static std::vector<std::pair<int, int>> cut;
    for (size_t d = 0; d < DOCS.size(); d++) for (size_t c = 0; c <= DOCS[d].size(); c++) cut.push_back({(int)d, (int)c});
    ex.add("documents", "every prefix of 21 documents, and every prefix followed by each of . , and the two-byte point", cut.size() * 4, [](mc::Ctx &k, uint64_t i) {
        static const char *const X[4] = {"", ".", ",", "\xd9\xab"};
        const auto c = cut[i / 4];
        text(k, DOCS[c.first].substr(0, c.second) + X[i % 4], true);
    });
    static std::vector<uint64_t> man;
    const uint64_t full = (1ull << 52) - 1;
    man = {0, full, 0x5555555555555ull, 0xaaaaaaaaaaaaaull, 0x123456789abcdull};
    for (int b = 0; b < 52; b += T ? 1 : 3) { man.push_back(1ull << b); man.push_back(full ^ (1ull << b)); man.push_back(full >> b); }
    ex.add("doubles", "both signs, every finite exponent, structured mantissas: written under each locale, read under each", 2ull * 2047 * man.size(), [](mc::Ctx &k, uint64_t i) {
        const uint64_t b = (i / man.size()) << 52 | man[i % man.size()];
        const uint64_t e = i / man.size();
        double d;
        const uint64_t bits = (e / 2047) << 63 | (e % 2047) << 52 | (b & ((1ull << 52) - 1));
        memcpy(&d, &bits, 8);
        number(k, d);
    });
    ex.add("decimals", "n/8, n/10, n/1000 and n*1000.5 for n = -20000..20000", 40001 * 4, [](mc::Ctx &k, uint64_t i) {
        const double n = (double)(i / 4) - 20000, d = i % 4 == 0 ? n / 8 : i % 4 == 1 ? n / 10 : i % 4 == 2 ? n / 1000 : n * 1000.5;
        number(k, d);
    });
    ex.add("process-locale", "the same documents and 200 numbers with the locale set for the whole process (setlocale), which must stay set; the text and the C locale's results agree", (DOCS.size() + 200) * 2, [](mc::Ctx &k, uint64_t i) {
        const int l = 1 + (int)(i & 1);
        i /= 2;
        const std::string t = i < DOCS.size() ? DOCS[i] : std::to_string((int)(i - DOCS.size()) * 37 - 2000) + ".625";
        uselocale(LC_GLOBAL_LOCALE);
        setlocale(LC_NUMERIC, "C");
        const std::string want = reading(t, true);
        if (!setlocale(LC_NUMERIC, LN[l])) { uselocale(LOC[0]); return k.skip(); }
        std::string got;
        try { got = reading(t, true); } catch (const std::exception &x) { got = x.what(); }
        const bool kept = !strcmp(setlocale(LC_NUMERIC, nullptr), LN[l]);
        setlocale(LC_NUMERIC, "C");
        uselocale(LOC[0]);
        k.call(2);
        k.w->cmps++;
        if (got != want) k.fail("`%s` under process locale %s: %s, under C: %s", show(t).c_str(), LN[l], show(got).c_str(), show(want).c_str());
        k.ok(kept, "the process locale is left as it was");
        k.out(fp(want));
    });
    ex.add("streams", "documents read and written through streams with a decimal-comma, grouping, renamed-boolean facet and every combination of base, precision, float format and sign flags; and with such a global C++ locale", DOCS.size() * 3 * 3 * 3 * 2 * 2 * 2, [](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const std::string &t = DOCS[d.pick(DOCS.size())];
        const int base = (int)d.pick(3), prec = (int)d.pick(3), ff = (int)d.pick(3), sign = (int)d.pick(2), alpha = (int)d.pick(2), global = (int)d.pick(2);
        P::value v, w;
        const std::string e = P::parse(v, t);
        const std::string want = v.serialize();
        const std::locale pl(std::locale::classic(), new Punct), old = std::locale();
        if (global) std::locale::global(pl);
        std::string got;
        bool fail;
        P::value u;
        std::string e2;
        {
            std::istringstream is(t);
            is.imbue(pl);
            std::ostringstream os;
            os.imbue(pl);
            if (base == 1) { is >> std::hex; os << std::hex << std::showbase; }
            if (base == 2) { is >> std::oct; os << std::oct; }
            if (prec) os << std::setprecision(prec == 1 ? 1 : 30);
            if (ff == 1) os << std::fixed;
            if (ff == 2) os << std::scientific;
            if (sign) os << std::showpos << std::uppercase << std::showpoint;
            if (alpha) { os << std::boolalpha << std::unitbuf; is >> std::noskipws; }
            is >> w;
            fail = is.fail();
            os << v;
            got = os.str();
            e2 = P::parse(u, t);
        }
        if (global) std::locale::global(old);
        k.call(4);
        k.w->cmps += 3;
        if (got != want) k.fail("`%s` is written to a formatted stream as `%s` instead of `%s`", show(t).c_str(), show(got).c_str(), show(want).c_str());
        k.ok(fail == !e.empty(), "a formatted stream is read with the same success");
        if (e.empty() && (!(w == v) || !(u == v))) k.fail("`%s` is read from a formatted stream as %s", show(t).c_str(), show(w.serialize()).c_str());
        if (e2 != e) k.fail("`%s` gives the error \"%s\" under another global locale", show(t).c_str(), show(e2).c_str());
        k.out(fp(want));
    });
}
MC_MAIN(setup)
