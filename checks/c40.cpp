// C40: reading stops exactly where the value ends, so several values can be read one after another. The recogniser of
// jsonmodel.hpp reads the same text value by value; positions, verdicts and values must agree after every step.
#include "jsonmodel.hpp"
#include <iterator>
#include <list>
#include <sstream>
#include <streambuf>
namespace P = picojson;
// hands out one character at a time and counts how many were asked for
struct Drip : std::streambuf
{
    const std::string t;
    size_t asked = 0;
    char   c;
    explicit Drip(const std::string &s) : t(s) {}
    int_type underflow() override
    {
        if (asked == t.size()) return traits_type::eof();
        c = t[asked++];
        setg(&c, &c, &c + 1);
        return traits_type::to_int_type(c);
    }
    size_t used() const { return asked - (egptr() - gptr()); }
};
// single-pass iterator over a text that remembers the furthest position looked at
struct Once
{
    typedef std::input_iterator_tag iterator_category;
    typedef char value_type;
    typedef std::ptrdiff_t difference_type;
    typedef const char *pointer;
    typedef const char &reference;
    struct Src { const char *p, *e, *seen; };
    Src *s;
    Once(Src *x = nullptr) : s(x) {}
    char operator*() const { if (s->seen < s->p + 1) s->seen = s->p + 1; return *s->p; }
    Once &operator++() { s->p++; return *this; }
    bool done() const { return !s || s->p == s->e; }
    bool operator==(const Once &o) const { return done() == o.done(); }
    bool operator!=(const Once &o) const { return !(*this == o); }
};
struct Step { int verdict; size_t end; JV v; bool number; };
static std::vector<Step> reference(const std::string &t)
{
    std::vector<Step> r;
    size_t at = 0;
    for (int n = 0; n < 64; n++)
    {
        Rec c(t.data() + at, t.size() - at);
        Step s;
        const bool ok = c.val(s.v);
        s.verdict = !ok ? 0 : c.lenient ? 2 : 1;
        s.end = (const char *)c.p - t.data();
        s.number = ok && s.v.t == JV::NUM;
        at = s.end;
        const bool last = !ok;
        r.push_back(std::move(s));
        if (last) break;
    }
    return r;
}
static const char *const FORM[] = {"parse(v, first, last, &err)", "parse(v, pos, last)", "list iterators", "istream >> v", "parse(v, istream)", "istream >> v, character by character", "a single-pass iterator", "the null context", "istreambuf_iterator"};
static void judge(mc::Ctx &k, const std::string &t, int forms)
{
    const std::vector<Step> ref = reference(t);
    for (int f = 0; f < forms && !k.bad; f++)
    {
        size_t at = 0;
        const char *const b = t.data(), *const e = b + t.size();
        const char *pos = b;
        std::list<char> li(f == 2 ? std::list<char>(t.begin(), t.end()) : std::list<char>());
        std::list<char>::const_iterator lp = li.begin();
        std::istringstream is(t);
        Drip drip(t);
        std::istream ds(&drip);
        Once::Src src = {b, e, b};
        for (size_t n = 0; n < ref.size(); n++)
        {
            P::value v(std::string("old"));
            std::string err;
            bool ok = false;
            size_t end = 0;
            bool known = true;
            size_t seen = 0;
            k.call();
            k.w->cmps++;
            try
            {
                switch (f)
                {
                case 0: { const char *q = P::parse(v, pos, e, &err); ok = err.empty(); pos = q; end = q - b; break; }
                case 1: err = P::parse(v, pos, e); ok = err.empty(); end = pos - b; break;
                case 2: { const std::list<char>::const_iterator le = li.end(); const std::list<char>::const_iterator q = P::parse(v, lp, le, &err); lp = q; ok = err.empty(); end = std::distance((std::list<char>::const_iterator)li.begin(), lp); break; }
                case 3: is >> v; ok = !is.fail(); { std::istream::pos_type g = is.rdbuf()->pubseekoff(0, std::ios::cur, std::ios::in); end = (size_t)(std::streamoff)g; } break;
                case 4: err = P::parse(v, is); ok = err.empty(); end = (size_t)(std::streamoff)is.rdbuf()->pubseekoff(0, std::ios::cur, std::ios::in); break;
                case 5: ds >> v; ok = !ds.fail(); end = drip.used(); seen = drip.asked; break;
                case 6: { Once o(&src); P::parse(v, o, Once(), &err); ok = err.empty(); end = src.p - b; seen = src.seen - b; break; }
#ifndef VERIF_CORE
                case 7: { P::null_parse_context c; const char *q = P::_parse(c, pos, e, &err); ok = err.empty(); pos = q; end = q - b; break; }
#endif
                default: { typedef std::istreambuf_iterator<char> I; P::parse(v, I(is), I(), &err); ok = err.empty(); end = (size_t)(std::streamoff)is.rdbuf()->pubseekoff(0, std::ios::cur, std::ios::in); }
                }
            }
            catch (const std::exception &x) { k.fail("%s on `%s` throws %s", FORM[f], show(t).c_str(), x.what()); break; }
            if (!known) break;
            const Step &s = ref[n];
            if (end > t.size() || end < at) { k.fail("%s: value %zu of `%s`: position %zu is outside the rest of the text", FORM[f], n + 1, show(t).c_str(), end); break; }
            if (s.verdict != 2 && ok != (s.verdict == 1)) { k.fail("%s: value %zu of `%s` (from position %zu) is %s", FORM[f], n + 1, show(t).c_str(), at, ok ? "accepted" : "rejected"); break; }
            if (!ok) break; // where reading stops inside malformed text is not specified
            if (f != 7 && !same(v, s.v)) { k.fail("%s: value %zu of `%s` is read as %s", FORM[f], n + 1, show(t).c_str(), show(v.serialize()).c_str()); break; }
            if (end != s.end) { k.fail("%s: after value %zu of `%s` reading goes on at %zu, the value ends at %zu", FORM[f], n + 1, show(t).c_str(), end, s.end); break; }
            if (seen > s.end + (s.number ? 1 : 0)) { k.fail("%s: value %zu of `%s` ends at %zu, but %zu characters were asked for", FORM[f], n + 1, show(t).c_str(), s.end, seen); break; }
            at = end;
        }
        k.aux();
    }
    if (k.verbose) k.note("`%s`: %zu steps", show(t).c_str(), ref.size());
    uint64_t h = ref.size();
    for (auto &s : ref) h = h * 1000003 + s.end * 4 + s.verdict;
    k.out(h);
}
static uint64_t words(uint64_t a, int len) { uint64_t n = 0, p = 1; for (int i = 0; i <= len; i++, p *= a) n += p; return n; }
static std::string word(uint64_t i, const std::vector<std::string> &al)
{
    uint64_t p = 1;
    int len = 0;
    while (i >= p) { i -= p; p *= al.size(); len++; }
    std::string s;
    for (int j = 0; j < len; j++) { s += al[i % al.size()]; i /= al.size(); }
    return s;
}
void setup(mc::Explorer &ex)
{
    const bool T = ex.thorough;
    static std::string d1, d2, d3;
    static const std::vector<std::string> vals = {"null", "true", "false", "0", "-12.5e+3", "7", "\"\"", "\"a]\\\"\\u00e9\"", "[]", "{}", "[1,[2]]", "{\"k\":[1,2],\"l\":{}}", "[\n\"x\" ]", " ", "\n", "\t\r", ",", "x"};
    const int n1 = T ? 5 : 4;
    d1 = "every sequence of up to " + std::to_string(n1) + " of 13 values and 5 separators, read value by value through nine entry points";
    ex.add("sequences", d1.c_str(), words(vals.size(), n1), [](mc::Ctx &k, uint64_t i) { judge(k, word(i, vals), 9); });
    static const std::vector<std::string> tok = {"[", "]", "{", "}", ",", ":", "\"a\"", "\"", "1", "-2.5", "e", "true", "nul", " ", "\n", "\\"};
    const int n2 = T ? 6 : 5;
    d2 = "every sequence of up to " + std::to_string(n2) + " of 16 tokens, valid or not, through nine entry points";
    ex.add("tokens", d2.c_str(), words(tok.size(), n2), [](mc::Ctx &k, uint64_t i) { judge(k, word(i, tok), 9); });
    static const std::vector<std::string> num = {"0", "1", "9", ".", "e", "E", "+", "-", " ", "]", "\"", "f"};
    const int n3 = T ? 7 : 6;
    d3 = "every string of up to " + std::to_string(n3) + " of the characters 0 1 9 . e E + - space ] \" f (numbers and what ends them), through two entry points";
    ex.add("numbers", d3.c_str(), words(num.size(), n3), [](mc::Ctx &k, uint64_t i) { judge(k, word(i, num), 2); });
    ex.add("long", "up to 60 values in a row, each value of the pool against each, with each separator", 13 * 13 * 4 * 3, [](mc::Ctx &k, uint64_t i) {
        const std::string a = vals[i % 13], b = vals[i / 13 % 13], s = std::vector<std::string>{" ", "\n", "\r\n \t", "  "}[i / 169 % 4];
        const int n = (int)(i / 676) == 0 ? 7 : i / 676 == 1 ? 31 : 60;
        std::string t;
        for (int q = 0; q < n; q++) t += (q % 2 ? b : a) + s;
        judge(k, t, 9);
    });
}
MC_MAIN(setup)
