// C29: texts of bounded alphabets, exhaustively, parsed by picojson and by the reference recogniser.
#include "jsonmodel.hpp"
#include <list>
#include <sstream>
// one text through the parser: text lives in a heap block of exactly its size
static void judge(mc::Ctx &k, const std::string &t, bool allforms)
{
    static char *buf = nullptr;
    free(buf);
    buf = (char *)malloc(t.size() ? t.size() : 1);
    memcpy(buf, t.data(), t.size());
    const char *b = buf, *e = buf + t.size();
    if (!t.size()) b = e = buf + 1; // nothing readable
    JV want;
    Rec r(t.data(), t.size());
    const bool acc = r.val(want);
    const int verdict = !acc ? 0 : r.lenient ? 2 : 1;
    picojson::value v;
    std::string err;
    auto verify = [&](const char *form, const picojson::value &got, const std::string &er) {
        if (verdict == 1 && !er.empty()) k.fail("%s rejects the JSON text `%s` with \"%s\"", form, show(t).c_str(), show(er).c_str());
        if (verdict == 0 && er.empty()) k.fail("%s accepts `%s`, which is not JSON", form, show(t).c_str());
        if (er.empty() && verdict && !same(got, want)) k.fail("%s reads `%s` as %s", form, show(t).c_str(), show(got.serialize()).c_str());
        if (!er.empty() && verdict == 0)
        {
            // the message names the line of the first character that cannot continue a JSON text
            int line = 1, n = 0;
            for (const unsigned char *q = (const unsigned char *)t.data(); q < r.bad; q++) line += *q == '\n';
            bool digits = false, hit = false;
            for (char c : er + " ")
                if (isdigit((unsigned char)c)) { n = digits ? n * 10 + (c - '0') : c - '0'; digits = true; }
                else if (digits) { hit |= n == line || (r.bad == r.e && r.e > (const unsigned char *)t.data() && r.e[-1] == '\n' && n == line - 1); break; }
            if (!hit) k.fail("%s reports \"%s\" for `%s`, whose error is in line %d", form, show(er).c_str(), show(t).c_str(), line);
        }
    };
    k.call();
    k.w->cmps++;
    try
    {
        picojson::parse(v, b, e, &err);
        verify("parse(value, first, last, &err)", v, err);
        if (allforms && !k.bad)
        {
            k.call(7);
            { picojson::value w(std::string("old")); const std::string er = picojson::parse(w, t); verify("parse(value, string)", w, er); }
            { picojson::value w(picojson::array(3)); std::istringstream is(t); const std::string er = picojson::parse(w, is); verify("parse(value, istream)", w, er); }
            { picojson::value w(picojson::object_type, false); std::list<char> l(t.begin(), t.end()); std::string er; picojson::parse(w, l.begin(), l.end(), &er); verify("parse over list iterators", w, er); }
            { picojson::value w; const char *pos = b; const std::string er = picojson::parse(w, pos, e); verify("parse(value, pos, last)", w, er); k.ok(pos >= b && pos <= e, "the returned position lies inside the text"); }
            { picojson::value w(1.0); picojson::parse(w, b, e, (std::string *)nullptr); if (verdict == 1 && !same(w, want)) k.fail("parse without an error string reads `%s` as %s", show(t).c_str(), show(w.serialize()).c_str()); }
            {
                picojson::value w(true);
                std::istringstream is(t);
                is >> w;
                if (verdict != 2)
                {
                    k.ok(is.fail() == (verdict == 0), "operator>> sets failbit exactly for invalid texts");
                    k.ok(picojson::get_last_error().empty() == (verdict == 1), "the last error is empty exactly after a valid text");
                    if (verdict == 1 && !same(w, want)) k.fail("operator>> reads `%s` as %s", show(t).c_str(), show(w.serialize()).c_str());
                }
            }
#ifndef VERIF_CORE
            { picojson::null_parse_context c; std::string er; picojson::_parse(c, b, e, &er); if (verdict != 2 && er.empty() != (verdict == 1)) k.fail("the validating parse of `%s` reports \"%s\"", show(t).c_str(), show(er).c_str()); }
#endif
        }
    }
    catch (const std::exception &x) { k.fail("parsing `%s` throws: %s", show(t).c_str(), x.what()); }
    if (k.verbose) k.note("`%s` -> %s", show(t).c_str(), err.empty() ? ("accepted as " + show(v.serialize())).c_str() : ("\"" + show(err) + "\"").c_str());
    uint64_t h = verdict;
    for (char c : err.empty() ? v.serialize() : err) h = h * 131 + (unsigned char)c;
    k.out(h);
}
static uint64_t words(uint64_t a, int len) { uint64_t n = 0, p = 1; for (int i = 0; i <= len; i++, p *= a) n += p; return n; }
// i-th word (shortest first) over an alphabet
static std::string word(uint64_t i, const std::vector<std::string> &al)
{
    uint64_t p = 1;
    int len = 0;
    while (i >= p) { i -= p; p *= al.size(); len++; }
    std::string s;
    for (int j = 0; j < len; j++) { s += al[i % al.size()]; i /= al.size(); }
    return s;
}
static std::vector<std::string> chars(const char *s) { std::vector<std::string> v; for (; *s; s++) v.push_back(std::string(1, *s)); return v; }
static const std::vector<std::string> DOCS = {
    "null", " true", "\n false ", "-12.5e+3", "[]", "{}", "\"\"", "\"a\\u00e9\\n\\\\ \\ud83d\\ude00z\"", "[1,2.5,-3e2]", "[ [ ] , { } , \"x\" ]", "{\"a\":1,\"b\":[true,null]}",
    "{\"a\":1,\"a\":{\"b\":\"c\"},\"\":false}", "\t[\n 1 ,\r\n {\"k\" : [ \"v\" , 0.125 ]}\n]\n", "{\n\"x\":\n[\n1,\n2\n],\n\"y\"\n:\nnull}", "[\"\\\"\\/\\b\\f\\r\\t\\u0000\",\"\\uD834\\uDD1E\"]",
    "[1e308,2.2250738585072014e-308,4.9e-324,123456789012345678]", "[[[[[[1]]]]],[[]]]", "{\"k\":{\"k\":{\"k\":[{}]}}} trailing", "[0,-0,0.0,1E5,1e-5]", "\"\xc3\xa9\xf0\x9f\x98\x80\x7f\""};
void setup(mc::Explorer &ex)
{
    const bool T = ex.thorough;
    static const std::vector<std::string> tok = {"{", "}", "[", "]", ",", ":", "\"a\"", "\"", "1", "-", "true", "nul", " ", "\n"};
    static std::string d1, d2, d3, d4;
    const int nt = T ? 7 : 6;
    d1 = "every sequence of up to " + std::to_string(nt) + " of the 14 tokens { } [ ] , : \"a\" \" 1 - true nul space newline";
    ex.add("token-sequences", d1.c_str(), words(tok.size(), nt), [](mc::Ctx &k, uint64_t i) { judge(k, word(i, tok), false); });
    static const std::vector<std::string> tok2 = {"{", "}", "[", "]", ",", "\"a\":", "\"b\":", "2", "null", "\"s\"", "\n"};
    const int nt2 = T ? 8 : 7;
    d2 = "every sequence of up to " + std::to_string(nt2) + " of the 11 tokens { } [ ] , \"a\": \"b\": 2 null \"s\" newline (deeper structures, repeated keys)";
    ex.add("member-sequences", d2.c_str(), words(tok2.size(), nt2), [](mc::Ctx &k, uint64_t i) { judge(k, word(i, tok2), false); });
    static const std::vector<std::string> tok3 = {"{", "}", "[", "]", ",", "\"k\"", ":", "1", "x", " "};
    ex.add("entry-points", "every sequence of up to 5 of 10 tokens through every entry point: iterators, string, stream, list iterators, position form, no error string, operator>>, validating context; targets hold older values of every kind", words(tok3.size(), 5),
        [](mc::Ctx &k, uint64_t i) { judge(k, word(i, tok3), true); });
    ex.add("bytes", T ? "every byte string of length up to 3" : "every byte string of length up to 2, and every 3-byte string whose first byte is a JSON start character", T ? words(256, 3) : words(256, 2) + 12 * 65536,
        [T](mc::Ctx &k, uint64_t i) {
            std::string s;
            if (i < words(256, 2) || T)
            {
                uint64_t p = 1; int len = 0;
                while (i >= p) { i -= p; p *= 256; len++; }
                for (int j = 0; j < len; j++) { s += (char)(i & 255); i >>= 8; }
            }
            else
            {
                i -= words(256, 2);
                s += "\"[{ntf-019 \n"[i / 65536];
                s += (char)(i & 255);
                s += (char)(i >> 8 & 255);
            }
            judge(k, s, false);
        });
    static const std::vector<std::string> sal = chars("\\u\"n0d8cF/x\x01\xc3");
    const int ns = T ? 7 : 6;
    d3 = "every string literal body of up to " + std::to_string(ns) + " characters over \\ u \" n 0 d 8 c F / x 0x01 0xc3, behind an opening quote, with and without a closing one";
    ex.add("string-bodies", d3.c_str(), words(sal.size(), ns) * 2, [](mc::Ctx &k, uint64_t i) { judge(k, "\"" + word(i / 2, sal) + (i & 1 ? "\"" : ""), false); });
    static const std::vector<std::string> esc = {"\\ud800", "\\uDBFF", "\\udc00", "\\uDFFF", "\\ud7ff", "\\ue000", "\\u0041", "\\u0000", "\\", "\\u", "\\uD8", "\\n", "u", "\"", "\xff"};
    ex.add("escape-sequences", "every sequence of up to 4 of 15 escape fragments (surrogate halves, their neighbours, cut-off escapes) as a quoted string and as an object key", words(esc.size(), 4) * 2,
        [](mc::Ctx &k, uint64_t i) { const std::string w = "\"" + word(i / 2, esc) + "\""; judge(k, i & 1 ? "{" + w + ":1}" : w, false); });
    ex.add("code-units", "every \\uXXXX escape (65536), in lower, upper and alternating hex case, alone and after a high surrogate", 65536 * 6, [](mc::Ctx &k, uint64_t i) {
        char b[8];
        snprintf(b, sizeof b, i % 3 == 1 ? "%04X" : "%04x", (unsigned)(i / 6));
        if (i % 3 == 2) { b[0] = (char)toupper(b[0]); b[2] = (char)toupper(b[2]); }
        judge(k, std::string("\"") + (i / 3 % 2 ? "\\uda5C" : "") + "\\u" + b + "\"", false);
    });
    ex.add("surrogate-pairs", T ? "all 1024 x 1024 surrogate pairs" : "all pairs of high surrogate x low surrogate with one of the two on a bit boundary", T ? 1048576 : 1024 * 22 * 2, [T](mc::Ctx &k, uint64_t i) {
        unsigned h, l;
        if (T) { h = i >> 10; l = i & 1023; }
        else
        {
            const unsigned x = i % 1024, j = i / 1024 % 22, y = j < 10 ? 1u << j : j < 20 ? 1023 ^ (1u << (j - 10)) : j == 20 ? 0 : 1023;
            h = i >= 1024 * 22 ? y : x;
            l = i >= 1024 * 22 ? x : y;
        }
        char b[32];
        snprintf(b, sizeof b, "\"\\u%04x\\u%04X\"", 0xd800 + h, 0xdc00 + l);
        judge(k, b, false);
    });
    static const std::vector<std::string> nal = chars("019-+.eE");
    const int nn = T ? 8 : 6;
    d4 = "every text of up to " + std::to_string(nn) + " characters over 0 1 9 - + . e E, alone and as `[text ,0]`";
    ex.add("numbers", d4.c_str(), words(nal.size(), nn) * 2, [](mc::Ctx &k, uint64_t i) { const std::string w = word(i / 2, nal); judge(k, i & 1 ? "[" + w + " ,0]" : w, false); });
    ex.add("decimal-exponents", "d.ddde+-x for every exponent from -400 to 400 and 40 digit strings: nearest double, 0 below the range, an error above it", 801 * 40, [](mc::Ctx &k, uint64_t i) {
        static const char *const M[] = {"1", "9", "1.5", "2.2250738585072014", "1.7976931348623157", "1.7976931348623159", "4.9406564584124654", "2.4703282292062327", "2.4703282292062328", "9007199254740993",
                                        "0.1", "0.30000000000000004", "123456789", "8.98846567431158", "3.141592653589793", "2.718281828459045", "0", "0.000001", "5e", "7"};
        const int e = (int)(i / 40) - 400;
        const std::string m = M[i % 20];
        judge(k, std::string(i / 20 % 2 ? "-" : "") + (m == "5e" ? "5" : m) + (m == "5e" ? "E" : "e") + (i % 3 == 0 && e >= 0 ? "+" : "") + std::to_string(e), false);
    });
    static std::vector<std::pair<int, int>> cut;
    for (size_t d = 0; d < DOCS.size(); d++) for (size_t n = 0; n <= DOCS[d].size(); n++) cut.push_back({(int)d, (int)n});
    ex.add("truncations", "every prefix of 20 documents, through every entry point", cut.size(), [](mc::Ctx &k, uint64_t i) { judge(k, DOCS[cut[i].first].substr(0, cut[i].second), true); });
    ex.add("substitutions", "20 documents with every character replaced by, preceded by, or deleted and replaced by nothing at, every byte value", cut.size() * 513, [](mc::Ctx &k, uint64_t i) {
        std::string s = DOCS[cut[i / 513].first];
        const size_t at = cut[i / 513].second;
        const unsigned x = i % 513;
        if (x == 512) { if (at < s.size()) s.erase(at, 1); }
        else if (x >= 256) s.insert(at, 1, (char)(x - 256));
        else if (at < s.size()) s[at] = (char)x;
        judge(k, s, false);
    });
    ex.add("gaps", "20 documents with every string of up to 2 whitespace or junk characters inserted at every position", cut.size() * words(7, 2), [](mc::Ctx &k, uint64_t i) {
        static const std::vector<std::string> g = {" ", "\t", "\n", "\r", "\v", "\xa0", ","};
        std::string s = DOCS[cut[i / words(7, 2)].first];
        s.insert(cut[i / words(7, 2)].second, word(i % words(7, 2), g));
        judge(k, s, false);
    });
    ex.add("nesting", "arrays, objects and alternations nested 0..1100 deep, closed, unclosed, one closer too few and closed by the wrong bracket; then 2000, 10^4, 10^5, 10^6 deep", 1105 * 12, [](mc::Ctx &k, uint64_t i) {
        static const int big[] = {2000, 10000, 100000, 1000000};
        const int n = i / 12 < 1101 ? (int)(i / 12) : big[i / 12 - 1101], kind = i % 3, end = i / 3 % 4;
        std::string s, t;
        for (int j = 0; j < n; j++)
        {
            const bool o = kind == 1 || (kind == 2 && j % 2);
            s += o ? "{\"k\":" : "[";
            t += o ? "}" : "]";
        }
        s += "7";
        std::string c(t.rbegin(), t.rend());
        if (end == 1) c.clear();
        if (end == 2 && n) c.pop_back();
        if (end == 3 && n) c[c.size() / 2] = c[c.size() / 2] == '}' ? ']' : '}';
        judge(k, s + c, false);
    }, 4);
    ex.add("nest-after-nest", "a nest of every depth 1..300 followed, in the same container, by a nest that ends 1 below, at and 1 above the nesting limit, arrays and objects", 300 * 3 * 4, [](mc::Ctx &k, uint64_t i) {
        const int d = 1 + (int)(i / 12), e = 998 + (int)(i % 3);
        const bool o1 = i / 3 % 2, o2 = i / 6 % 2;
        auto nest = [](int n, bool o) { std::string s, t; for (int j = 0; j < n; j++) { s += o ? "{\"k\":" : "["; t += o ? "}" : "]"; } return s + "7" + t; };
        judge(k, "[" + nest(d, o1) + "," + nest(e, o2) + "]", false);
    }, 4);
    ex.add("siblings-at-depth", "1100 nested siblings (arrays, objects, or both in turn) below every nesting depth 1..60 and at 100, 500, 900, 998, 999: accepted up to the nesting limit, not counted against it", 65 * 3 * 2, [](mc::Ctx &k, uint64_t i) {
        static const int MORE[5] = {100, 500, 900, 998, 999};
        mc::Mixed m(i);
        const int form = (int)m.pick(3), open = (int)m.pick(2), n = (int)m.v, dep = n < 60 ? n + 1 : MORE[n - 60];
        std::string t;
        for (int j = 0; j < dep; j++) t += open && j + 1 < dep ? "{\"k\":" : "[";
        for (int j = 0; j < 1100; j++) { if (j) t += ","; t += form == 0 || (form == 2 && j % 2) ? "[]" : "{}"; }
        for (int j = dep; j-- > 0;) t += open && j + 1 < dep ? "}" : "]";
        judge(k, t, false);
    }, 1);
    ex.add("siblings", "arrays and objects of 0..1500 nested siblings (nesting is depth, not count)", 1501 * 2, [](mc::Ctx &k, uint64_t i) {
        std::string s = i & 1 ? "{" : "[";
        for (uint64_t j = 0; j < i / 2; j++) s += std::string(j ? "," : "") + (i & 1 ? "\"" + std::to_string(j) + "\":" : "") + (j % 2 ? "[]" : "{\"a\":[]}");
        judge(k, s + (i & 1 ? "}" : "]"), false);
    }, 4);
    // lengths at which an implementation might have a limit: all small ones, then both sides of every power of two
    static std::vector<int> LEN;
    for (int n = 0; n <= (T ? 1100 : 300); n++) LEN.push_back(n);
    for (int b = 9; b <= (T ? 20 : 17); b++) for (int o = -2; o <= 2; o++) if ((1 << b) + o > LEN.back()) LEN.push_back((1 << b) + o);
    ex.add("long-numbers", "numbers of every length up to 300 (thorough 1100) and around every power of two up to 2^17 (2^20): long integer part, fraction, leading zeros of fraction and exponent, zeros shifted back by the exponent; alone, in an array, and cut off by a bad character", LEN.size() * 8 * 3, [](mc::Ctx &k, uint64_t i) {
        const int n = LEN[i / 24];
        std::string s;
        auto dig = [&](int c) { std::string d; for (int j = 0; j < c; j++) d += (char)('1' + (j * 7 + j / 9) % 9); return d; };
        switch (i % 8)
        {
        case 0: s = "0." + dig(n + 1); break;
        case 1: s = "-3." + dig(n + 1) + "e5"; break;
        case 2: s = "0." + std::string(n, '0') + "7"; break;
        case 3: s = "0." + std::string(n, '0') + "25e" + std::to_string(n + 1); break;
        case 4: s = dig(n + 1); break; // beyond 308 digits out of range
        case 5: s = dig(n + 1) + "E-" + std::to_string(n); break;
        case 6: s = "6e" + std::string(n, '0') + "2"; break;
        default: s = "1" + std::string(n, '0') + "." + std::string(n, '0') + "e-" + std::to_string(n); break;
        }
        const int how = i / 8 % 3;
        judge(k, how == 0 ? s : how == 1 ? "[\"a\"," + s + " , 1]" : "[" + s + "x]", false);
    }, 4);
    ex.add("long-strings", "strings of every length up to 300 (thorough 1100) and around every power of two up to 2^17 (2^20): plain, of two-byte characters, with an escape at the end, of escapes only, of \\u escapes; as value, as key, unterminated, and behind a long run of white space", LEN.size() * 6 * 4, [](mc::Ctx &k, uint64_t i) {
        const int n = LEN[i / 24];
        std::string s;
        const int how = i / 6 % 4;
        switch (i % 6)
        {
        case 0: for (int j = 0; j < n; j++) s += (char)('a' + j % 26); break;
        case 1: for (int j = 0; j < n / 2; j++) s += "\xc3\xa9"; break;
        case 2: s = std::string(n, 'x') + "\\n\\\""; break;
        case 3: for (int j = 0; j < n / 2; j++) s += j % 2 ? "\\t" : "\\\\"; break;
        case 4: for (int j = 0; j < n / 6; j++) s += j % 3 ? "\\u00e9" : "\\ud83d\\ude00"; break;
        default: s = std::string(n, 'y') + "\x01"; break;
        }
        s = "\"" + s + "\"";
        judge(k, how == 0 ? s : how == 1 ? "{" + s + ":[" + s + "],\"z\":1}" : how == 2 ? s.substr(0, s.size() - 1) : std::string(n, ' ') + "[" + std::string(n, '\n') + s + std::string(n, '\t') + "," + std::string(n, '\r') + "x", false);
    }, 4);
    ex.add("long-lists", "arrays and objects with member counts up to 300 (thorough 1100) and around every power of two up to 2^17 (2^20): closed, unclosed, with a trailing comma, with the first key repeated at the end", LEN.size() * 3 * 4, [](mc::Ctx &k, uint64_t i) {
        const int n = LEN[i / 12], kind = (int)(i % 3), end = (int)(i / 3 % 4);
        std::string s = kind == 0 ? "[" : "{";
        for (int j = 0; j < n; j++) s += std::string(j ? "," : "") + (kind == 0 ? std::to_string(j % 1000) : "\"" + std::to_string(kind == 1 ? j : n - j) + "\":" + std::to_string(j));
        if (end == 2) s += ",";
        if (end == 3) s += std::string(n ? "," : "") + (kind == 0 ? "null" : "\"1\":\"again\"");
        if (end != 1) s += kind == 0 ? "]" : "}";
        judge(k, s, false);
    }, 4);
    ex.add("lines", "a structural error in line 1..300 of a document of one value per line, with LF and CRLF line ends, and inside a string", 300 * 6, [](mc::Ctx &k, uint64_t i) {
        const std::string nl = i & 1 ? "\r\n" : "\n";
        std::string s = "[";
        for (uint64_t j = 0; j < i / 6; j++) s += "\"v\"," + nl;
        const int kind = i / 2 % 3;
        s += kind == 0 ? "x" : kind == 1 ? "\"a\tb\"" : "1 2";
        judge(k, s + nl + nl + "]", true);
    }, 4);
}
MC_MAIN(setup)
