// C30: serialisation, copying, equality and lookup of picojson values against the model.
#include "jsonmodel.hpp"
#include <cfloat>
#include <list>
#include <sstream>
namespace P = picojson;
static bool numeric_equal_bits(double a, double b) { return a == b; }
// the prettified layout: the compact text with one item per line, two blanks per level, a blank after each colon, nothing inside empty brackets, a line end at the end
static std::string layout(const std::string &c)
{
    std::string o;
    size_t      d = 0;
    for (size_t i = 0; i < c.size(); i++)
    {
        if (c[i] == '"')
        {
            o += c[i];
            for (i++; i < c.size() && c[i] != '"'; i++) { o += c[i]; if (c[i] == '\\' && i + 1 < c.size()) o += c[++i]; }
            o += '"';
        }
        else if ((c[i] == '[' || c[i] == '{') && i + 1 < c.size() && (c[i + 1] == ']' || c[i + 1] == '}')) { o += c[i++]; o += c[i]; }
        else if (c[i] == '[' || c[i] == '{') { o += c[i]; o += '\n'; o.append(2 * ++d, ' '); }
        else if (c[i] == ']' || c[i] == '}') { o += '\n'; o.append(2 * --d, ' '); o += c[i]; }
        else if (c[i] == ',') { o += ",\n"; o.append(2 * d, ' '); }
        else if (c[i] == ':') o += ": ";
        else o += c[i];
    }
    return o + '\n';
}
// everything serialisation promises, for one value
static void wire(mc::Ctx &k, const JV &j, bool forms)
{
    const P::value v = make(j);
    k.call(4);
    k.w->cmps += 3;
    try
    {
        if (!same(v, j)) k.fail("constructed value is not %s", show(v.serialize()).c_str());
        const std::string c = v.serialize(), q = v.serialize(true);
        if (k.verbose) k.note("compact `%s`", show(c).c_str());
        for (unsigned char ch : c)
            if (ch < 0x20 || ch == 0x7f) k.fail("compact output `%s` contains the control character %02x", show(c).c_str(), ch);
        JV back;
        if (q != layout(c)) k.fail("prettified output `%s` is not the compact `%s` with one item per line, indented by two blanks per level", show(q).c_str(), show(c).c_str());
        for (int pretty = 0; pretty < 2; pretty++)
        {
            const std::string &t = pretty ? q : c;
            const char *nm = pretty ? "prettified" : "compact";
            P::value w;
            const std::string e = P::parse(w, t);
            if (!e.empty()) k.fail("%s output `%s` does not parse: %s", nm, show(t).c_str(), show(e).c_str());
            else if (!same(w, j)) k.fail("%s output `%s` parses to a different value", nm, show(t).c_str());
            else if (!(w == v) || w != v) k.fail("%s output `%s` parses to a value that does not compare equal", nm, show(t).c_str());
            Rec r(t.data(), t.size());
            JV m;
            if (!r.val(m) || r.lenient) k.fail("%s output `%s` is not JSON", nm, show(t).c_str());
            else if (!(m == j)) k.fail("%s output `%s` denotes a different value", nm, show(t).c_str());
            r.ws();
            if (!k.bad && r.p != r.e) k.fail("%s output `%s` has something behind the value", nm, show(t).c_str());
            uint64_t h = 0;
            for (char ch : t) h = h * 131 + (unsigned char)ch;
            k.out(h);
        }
        if (forms)
        {
            std::string it;
            v.serialize(std::back_inserter(it));
            std::list<char> li;
            v.serialize(std::back_inserter(li), true);
            std::ostringstream os;
            os << v;
            k.ok(it == c, "iterator form writes the same compact text");
            k.ok(std::string(li.begin(), li.end()) == q, "iterator form writes the same prettified text");
            k.ok(os.str() == c, "operator<< writes the compact text");
            k.ok(same(v, j), "serialising leaves the value alone");
        }
    }
    catch (const std::exception &x) { k.fail("throws: %s", x.what()); }
}
static std::vector<JV> LEAF, POOL;
static std::vector<JV> trees(int depth)
{
    std::vector<JV> t = LEAF;
    std::vector<JV> sub = depth > 1 ? trees(depth - 1) : LEAF;
    t.push_back(JV::A());
    t.push_back(JV::O());
    for (auto &x : sub) { t.push_back(JV::A({x})); t.push_back(JV::O({{"k", x}})); t.push_back(JV::O({{"a\n\"", x}})); }
    const std::vector<JV> few(sub.begin(), sub.begin() + std::min<size_t>(sub.size(), 60));
    for (auto &x : few) for (auto &y : few) { t.push_back(JV::A({x, y})); t.push_back(JV::O({{"a", x}, {"", y}})); }
    for (size_t a = 0; a < few.size(); a += 3) for (size_t b = 1; b < few.size(); b += 4) for (size_t c = 2; c < few.size(); c += 5) t.push_back(JV::A({few[a], few[b], few[c]}));
    return t;
}
// ---- histories ------------------------------------------------------------------------------------------------------
struct World
{
    P::value r[2];
    JV       m[2];
    bool     un[2] = {false, false}; // moved-from: valid but unspecified
};
static const char *const OPN[] = {"a=null", "a=1.5", "a=string", "a=array", "a=object", "b=true", "b=string", "b=array", "b=object", "a=b", "b=a", "a=a", "a=copy of b (constructor)", "a=a[0]", "a=a[k]", "a[0]=a", "a[k]=a",
                                  "a.push_back(b)", "a[n]=b", "a+=!", "a is 7", "a.clear()", "a.erase(k)", "a.swap(b)", "std::swap(a,b)", "a=move(b)", "b=value(move(a))", "parse into a", "b=parse(serialize(a))", "a[1]=a[0]", "a={x:a}"};
static const int NOP = sizeof OPN / sizeof *OPN;
static JV pool(int i)
{
    switch (i)
    {
    case 0: return JV();
    case 1: return JV::N(1.5);
    case 2: return JV::S("a string too long for the small-string buffer");
    case 3: return JV::A({JV::A({JV::S("x"), JV::N(1)}), JV::O({{"k", JV::B(true)}}), JV::S("s")});
    case 4: return JV::O({{"k", JV::A({JV::N(2), JV()})}, {"j", JV::S("t")}});
    default: return JV::B(true);
    }
}
// performs an operation on the real values and on the model; false if it does not apply
static bool apply(World &w, int op)
{
    P::value &a = w.r[0], &b = w.r[1];
    JV &x = w.m[0], &y = w.m[1];
    auto rd = [&](int i) { return !w.un[i]; };
    auto arr = [&](size_t n) { return rd(0) && x.t == JV::ARR && x.a.size() >= n; };
    auto obj = [&](bool withk) { return rd(0) && x.t == JV::OBJ && (!withk || x.o.count("k")); };
    auto setA = [&](const JV &v) { x = v; w.un[0] = false; };
    auto setB = [&](const JV &v) { y = v; w.un[1] = false; };
    switch (op)
    {
    case 0: case 1: case 2: case 3: case 4: { const JV v = pool(op); a = make(v); setA(v); return true; }
    case 5: case 6: case 7: case 8: { const JV v = pool(op == 5 ? 5 : op - 4); const P::value t = make(v); b = t; setB(v); return true; }
    case 9: if (!rd(1)) return false; a = b; setA(y); return true;
    case 10: if (!rd(0)) return false; b = a; setB(x); return true;
    case 11: { if (!rd(0)) return false; P::value &same = a; a = same; return true; }
    case 12: { if (!rd(1)) return false; P::value t(b); a.swap(t); setA(y); return true; }
    case 13: { if (!arr(1)) return false; a = a.get(0); const JV c = x.a[0]; x = c; return true; }
    case 14: { if (!obj(true)) return false; a = a.get("k"); const JV c = x.o["k"]; x = c; return true; }
    case 15: { if (!arr(1)) return false; a.get(0) = a; const JV c = x; x.a[0] = c; return true; }
    case 16: { if (!obj(true)) return false; a.get<P::object>()["k"] = a; const JV c = x; x.o["k"] = c; return true; }
    case 17: if (!arr(0) || !rd(1)) return false; a.get<P::array>().push_back(b); x.a.push_back(y); return true;
    case 18: if (!obj(false) || !rd(1)) return false; a.get<P::object>()["n"] = b; x.o["n"] = y; return true;
    case 19: if (!rd(0) || x.t != JV::STR) return false; a.get<std::string>() += "!"; x.s += "!"; return true;
    case 20: if (!rd(0) || x.t != JV::NUM) return false; a.get<double>() = 7; x.n = 7; return true;
    case 21: if (!arr(0)) return false; a.get<P::array>().clear(); x.a.clear(); return true;
    case 22: if (!obj(false)) return false; a.get<P::object>().erase("k"); x.o.erase("k"); return true;
    case 23: a.swap(b); std::swap(x, y); std::swap(w.un[0], w.un[1]); return true;
    case 24: { using std::swap; swap(a, b); std::swap(x, y); std::swap(w.un[0], w.un[1]); return true; }
    case 25: if (!rd(1)) return false; a = std::move(b); setA(y); w.un[1] = true; return true;
    case 26: { if (!rd(0)) return false; P::value t(std::move(a)); b = t; setB(x); w.un[0] = true; return true; }
    case 27: { const std::string e = P::parse(a, std::string("[2,{\"k\":\"v\"}]")); setA(JV::A({JV::N(2), JV::O({{"k", JV::S("v")}})})); return e.empty(); }
    case 28: { if (!rd(0)) return false; P::parse(b, a.serialize(true)); setB(x); return true; }
    case 29: { if (!arr(2)) return false; a.get(1) = a.get(0); const JV c = x.a[0]; x.a[1] = c; return true; }
    case 30: { if (!rd(0)) return false; P::object o; o["x"] = a; a = P::value(o); const JV c = x; x = JV::O({{"x", c}}); return true; }
    }
    return false;
}
static int HD;
void setup(mc::Explorer &ex)
{
    const bool T = ex.thorough;
    LEAF = {JV(), JV::B(true), JV::B(false), JV::N(0), JV::N(-0.0), JV::N(1), JV::N(-17), JV::N(0.1), JV::N(1.0 / 3), JV::N(1e300), JV::N(5e-324), JV::N(9007199254740993.0), JV::N(-1.5e-7), JV::S(""), JV::S("a"),
            JV::S("\"\\/\b\f\n\r\t"), JV::S(std::string("\0\x01\x1f\x7f\x80\xff", 6)), JV::S("\xc3\xa9 \xf0\x9f\x98\x80"), JV::S("[1,{}]"), JV::S(std::string(300, 'z'))};
    static std::vector<JV> tr;
    tr = trees(T ? 3 : 2);
    ex.add("trees", T ? "all trees of nesting depth 3 over 20 leaf values (arrays of 0..3, objects of 0..2 members; wide nodes over the first 60 subtrees)" : "all trees of nesting depth 2 over 20 leaf values (arrays of 0..3, objects of 0..2 members; wide nodes over the first 60 subtrees)", tr.size(),
        [](mc::Ctx &k, uint64_t i) { wire(k, tr[i], true); });
    // numbers: every exponent, structured mantissas
    static std::vector<uint64_t> man;
    const uint64_t full = (1ull << 52) - 1;
    man = {0, full, full / 3, full / 5, 0x999999999999aull & full, 0x123456789abcdull};
    for (int b = 0; b < 52; b++) { man.push_back(1ull << b); man.push_back(full ^ (1ull << b)); man.push_back(full >> b); man.push_back(full & (full << b)); }
    if (T) for (int a = 0; a < 52; a++) for (int b = 0; b < a; b++) { man.push_back(1ull << a | 1ull << b); man.push_back(full ^ (1ull << a | 1ull << b)); }
    auto onenum = [](mc::Ctx &k, double d) {
        const P::value v(d);
        k.call(3);
        k.w->cmps += 2;
        for (int f = 0; f < 3; f++)
        {
            const std::string t = f == 0 ? v.serialize() : f == 1 ? v.to_str() : P::value(P::array(1, v)).serialize(true);
            P::value w;
            const std::string e = P::parse(w, t);
            const double g = !e.empty() ? NAN : f == 2 ? w.get(0).get<double>() : w.get<double>();
            if (!numeric_equal_bits(g, d)) k.fail("the number %a is written as `%s`, which reads as %a", d, show(t).c_str(), g);
            if (!Rec::numok(f == 2 ? t.substr(t.find_first_not_of("[\n "), t.find_last_not_of("]\n ") + 1 - t.find_first_not_of("[\n ")) : t, true)) k.fail("the number %a is written as `%s`, which is not JSON", d, show(t).c_str());
        }
        if (k.verbose) k.note("%a <-> %s", d, v.serialize().c_str());
        uint64_t u;
        memcpy(&u, &d, 8);
        k.out(u);
    };
    ex.add("doubles", "every sign and every finite exponent (2 x 2047) with every structured 52-bit mantissa: single bits, single gaps, runs of ones from either end (thorough: all two-bit patterns), compact, prettified and to_str", 2ull * 2047 * man.size(), [onenum](mc::Ctx &k, uint64_t i) {
        const uint64_t u = man[i % man.size()] | (uint64_t)(i / man.size() % 2047) << 52 | (uint64_t)(i / man.size() / 2047) << 63;
        double d;
        memcpy(&d, &u, 8);
        onenum(k, d);
    });
    ex.add("integers", "integers n, n+1/2 and n+1e-9 for n within 64 of 0, of +-2^b for b up to 70 and of +-10^d for d up to 21", (71 + 22) * 2 * 129 * 3, [onenum](mc::Ctx &k, uint64_t i) {
        mc::Mixed m(i);
        const int f = (int)m.pick(3), o = (int)m.pick(129) - 64, s = (int)m.pick(2), b = (int)m.pick(93);
        const double base = b < 71 ? std::ldexp(1.0, b) : std::pow(10.0, b - 71);
        onenum(k, (s ? -1 : 1) * (base + o) + (f == 1 ? 0.5 : f == 2 ? 1e-9 : 0));
    });
    ex.add("strings", T ? "every byte string of length up to 3, as string" : "every byte string of length up to 2, as string and as object key", T ? 1 + 256 + 65536 + 16777216ull : (1 + 256 + 65536) * 2, [T](mc::Ctx &k, uint64_t i) {
        const bool key = !T && i % 2;
        if (!T) i /= 2;
        std::string s;
        uint64_t p = 1;
        int len = 0;
        while (i >= p) { i -= p; p *= 256; len++; }
        for (int j = 0; j < len; j++) { s += (char)(i & 255); i >>= 8; }
        wire(k, key ? JV::O({{s, JV::N(1)}, {s + "x", JV::S(s)}}) : JV::S(s), false);
    });
    ex.add("text-shapes", "strings of 0..400 repetitions of each byte, and arrays and objects of 0..400 members, nested 0..400 deep", 401 * 259, [](mc::Ctx &k, uint64_t i) {
        const int n = (int)(i / 259), x = (int)(i % 259);
        if (x < 256) { if (n < 8 || n % 50 == 0) wire(k, JV::S(std::string(n, (char)x)), false); else k.skip(); return; }
        JV v = x == 257 ? JV::O() : JV::A();
        if (x == 258) { for (int j = 0; j < n; j++) v = j % 2 ? JV::O({{"k", v}}) : JV::A({v}); }
        else for (int j = 0; j < n; j++) { if (x == 257) v.o[std::to_string(j)] = JV::N(j); else v.a.push_back(j % 3 ? JV::A() : JV::S(std::to_string(j))); }
        wire(k, v, false);
    });
    static std::vector<int> LEN;
    for (int n = 0; n <= (T ? 4200 : 1100); n++) LEN.push_back(n);
    for (int n : {1500, 2000, 2500, 3000, 5000, 8000, 9999, 10000, 10001, 20000, 50000, 99999, 100000}) LEN.push_back(n);
    for (int b = 11; b <= (T ? 20 : 17); b++) for (int o = -2; o <= 2; o++) LEN.push_back((1 << b) + o);
    ex.add("large", "strings, keys, arrays and objects of every size 0..1100 (thorough 4200), round decimal sizes and around every power of two up to 2^17 (thorough 2^20): written and read back, copied, compared with copies that differ in the first, a middle or the last place or are one shorter, and looked up by index and key", LEN.size() * 6, [](mc::Ctx &k, uint64_t i) {
        const int n = LEN[i / 6], kind = (int)(i % 6);
        JV j;
        switch (kind)
        {
        case 0: { std::string s; for (int x = 0; x < n; x++) s += (char)('a' + (x * 7 + x / 26) % 26); j = JV::S(s); break; }
        case 1: { std::string s; for (int x = 0; x < n; x++) s += x % 5 == 4 ? '\n' : x % 7 == 3 ? '"' : (char)(x % 256); j = JV::S(s); break; }
        case 2: j = JV::A(std::vector<JV>(n, JV::N(0))); for (int x = 0; x < n; x++) j.a[x] = JV::N(x); break;
        case 3: j = JV::A(std::vector<JV>(n, JV())); for (int x = 0; x < n; x++) j.a[x] = x % 4 == 3 ? JV() : x % 4 ? JV::S(std::to_string(x)) : JV::A({JV::B(x % 8 == 4)}); break;
        case 4: j = JV::O(); for (int x = 0; x < n; x++) j.o[std::to_string(x)] = JV::N(x); break;
        default: j = JV::O({{std::string(n, 'k'), JV::S(std::string(n, 'v'))}, {std::string(n, 'k') + "l", JV::N(1)}}); break;
        }
        wire(k, j, false);
        const P::value v = make(j);
        P::value c(v), d;
        d = c;
        k.call(3);
        k.ok(same(c, j) && same(d, j) && c == v && d == v && !(c != v), "copies of a large value are equal to it");
        if (kind <= 1)
        {
            const P::value f1(j.s.c_str(), j.s.size()), f2(j.s), f3(j.s.c_str());
            k.call(3);
            k.ok(same(f1, j) && same(f2, j) && same(f3, JV::S(j.s.c_str())) && f1.to_str() == j.s, "a string value made from text and length, from a string, from C text");
        }
        else if (kind <= 3) { const P::value f(v.get<P::array>()); k.call(); k.ok(same(f, j), "a value made from an array"); }
        else { const P::value f(v.get<P::object>()); k.call(); k.ok(same(f, j), "a value made from an object"); }
        // every kind of small difference is a difference
        for (int at : {0, n / 2, n - 1, -1})
        {
            JV m = j;
            if (kind <= 1) { if (at >= 0 && at < n) m.s[at] ^= 1; else m.s += "x"; }
            else if (kind <= 3) { if (at >= 0 && at < n) m.a[at] = JV::S("other"); else m.a.push_back(JV()); }
            else if (kind == 4) { if (at >= 0 && at < n) m.o[std::to_string(at)] = JV::N(-1); else m.o["x"] = JV(); }
            else if (at == -1) m.o[std::string(n, 'k')] = JV::S(std::string(n, 'v') + "w"); else { m.o.erase(std::string(n, 'k')); m.o[std::string(n, 'k') + "!"] = JV::S(std::string(n, 'v')); }
            const P::value w = make(m);
            k.call(2);
            if (w == v || v == w || !(w != v)) k.fail("two values of kind %d and size %d that differ (position %d) compare equal", kind, n, at);
        }
        if (kind == 2 || kind == 3)
            for (int at = 0; at <= n + 1; at += 1 + (n > 5000 ? n / 997 : 0))
            {
                if (!(same(v.get((size_t)at), at < n ? j.a[at] : JV()) && v.contains((size_t)at) == (at < n))) return k.fail("lookup by index %d in an array of %d", at, n);
                if (at < n && !same(d.get((size_t)at), j.a[at])) return k.fail("non-const lookup by index %d in an array of %d", at, n);
            }
        if (kind == 4)
            for (int at = 0; at <= n + 1; at += 1 + (n > 2000 ? n / 499 : 0))
                if (!(same(v.get(std::to_string(at)), at < n ? j.o[std::to_string(at)] : JV()) && v.contains(std::to_string(at)) == (at < n))) return k.fail("lookup by key %d in an object of %d", at, n);
        if (kind == 5) k.ok(same(v.get(std::string(n, 'k')), j.o[std::string(n, 'k')]) && !v.contains(std::string(n + 5, 'k')), "lookup by a long key");
        P::value q(1.0);
        q.swap(d);
        k.ok(same(q, j) && d.is<double>(), "swap of a large value");
        q = P::value();
        k.ok(same(c, j) && same(v, j), "a copy outlives the original's replacement");
    }, 4);
    static const std::vector<std::string> WORD = {"", " ", "__proto__", "constructor", "prototype", "toString", "length", "null", "true", "false", "NaN", "Infinity", "undefined", "0", "-1", "1e5", "$ref", "@type", "#", "//", "/* */", "a.b", "a/b", "~0", "[0]", "{}", "\"", "\\", "'", "\n", "\t", "\r\n", "\x7f", "\xc3\xa9", "\xe2\x80\xa8", "\xf0\x9f\x98\x80", "\xef\xbb\xbf", "\xef\xbf\xbf", "\xff\xfe", "<script>", "</script>", "&amp;", "%s%n%d", "%.17g", "\\u0041", "\\n", "type", "size", "array", "object", "string", "number", "key", "value", "name", "id", std::string("\0", 1), std::string("a\0b", 3), std::string("\0\0", 2)};
    ex.add("words", "59 words that mean something elsewhere (reserved names, markup, escapes, format directives, other alphabets, zero bytes) as text, key and key with the other words beside it: every ordered pair, written and read back, copied, looked up", WORD.size() * WORD.size(), [](mc::Ctx &k, uint64_t i) {
        const std::string &a = WORD[i % WORD.size()], &b = WORD[i / WORD.size()];
        const JV js[4] = {JV::S(a + b), JV::O({{a, JV::S(b)}, {b, JV::S(a)}}), JV::O({{a + b, JV::A({JV::S(a), JV::S(b)})}, {b + a, JV()}}), JV::A({JV::S(a), JV::O({{a, JV::O({{b, JV::N(1)}})}})})};
        for (const JV &j : js)
        {
            wire(k, j, false);
            if (k.bad) return;
            const P::value v = make(j);
            P::value c(v), d;
            d = c;
            k.call(3);
            if (!(same(c, j) && same(d, j) && c == v)) return k.fail("copy");
            if (j.t == JV::OBJ)
                for (const std::string &w : WORD)
                {
                    const auto it = j.o.find(w);
                    if (c.contains(w) != (it != j.o.end()) || !same(c.get(w), it != j.o.end() ? it->second : JV())) return k.fail("lookup of a key");
                }
        }
    });
    POOL = trees(1);
    ex.add("equality", "every ordered pair of the depth-1 values: == holds exactly for equal contents, != is its negation", (uint64_t)POOL.size() * POOL.size(), [](mc::Ctx &k, uint64_t i) {
        static std::vector<P::value> V;
        if (V.empty()) for (auto &j : POOL) V.push_back(make(j));
        const size_t a = i / POOL.size(), b = i % POOL.size();
        const bool want = POOL[a] == POOL[b];
        k.call(2);
        k.w->cmps += 2;
        if ((V[a] == V[b]) != want) k.fail("%s == %s gives %d", show(V[a].serialize()).c_str(), show(V[b].serialize()).c_str(), !want);
        if ((V[a] != V[b]) == want) k.fail("%s != %s gives %d", show(V[a].serialize()).c_str(), show(V[b].serialize()).c_str(), want);
        if (k.verbose) k.note("%s and %s", show(V[a].serialize()).c_str(), show(V[b].serialize()).c_str());
        k.out((uint64_t)want + 2 * (i % 1000));
    });
    ex.add("access", "every typed access, index, key, truth and text conversion of every depth-1 value, constant and not: right type gives the contents, wrong type throws, absent gives null", POOL.size() * 2, [](mc::Ctx &k, uint64_t i) {
        const JV &j = POOL[i / 2];
        P::value v = make(j);
        const P::value &c = v;
        const bool mut = i & 1;
        k.call(30);
        k.w->cmps += 30;
        auto thr = [&](const char *what, bool expect, std::function<bool()> f) {
            bool t = false, right = true;
            try { right = f(); } catch (const std::exception &) { t = true; }
            if (t != expect) k.fail("%s of %s %s", what, show(c.serialize()).c_str(), t ? "throws" : "does not throw");
            else if (!t && !right) k.fail("%s of %s gives a wrong result", what, show(c.serialize()).c_str());
        };
        thr("get<bool>", j.t != JV::BOOL, [&] { return (mut ? v.get<bool>() : c.get<bool>()) == j.b; });
        thr("get<double>", j.t != JV::NUM, [&] { return (mut ? v.get<double>() : c.get<double>()) == j.n; });
        thr("get<string>", j.t != JV::STR, [&] { return (mut ? v.get<std::string>() : c.get<std::string>()) == j.s; });
        thr("get<array>", j.t != JV::ARR, [&] { return (mut ? v.get<P::array>() : c.get<P::array>()).size() == j.a.size(); });
        thr("get<object>", j.t != JV::OBJ, [&] { return (mut ? v.get<P::object>() : c.get<P::object>()).size() == j.o.size(); });
        for (size_t x : {(size_t)0, (size_t)1, (size_t)2, (size_t)3, (size_t)1000, ~(size_t)0})
        {
            thr("get(index)", j.t != JV::ARR, [&] { return same(mut ? v.get(x) : c.get(x), x < j.a.size() ? j.a[x] : JV()); });
            thr("contains(index)", j.t != JV::ARR, [&] { return c.contains(x) == (x < j.a.size()); });
        }
        for (std::string x : {"", "k", "a", "a\n\"", "K", "absent"})
        {
            thr("get(key)", j.t != JV::OBJ, [&] { return same(mut ? v.get(x) : c.get(x), j.o.count(x) ? j.o.at(x) : JV()); });
            thr("contains(key)", j.t != JV::OBJ, [&] { return c.contains(x) == (j.o.count(x) > 0); });
        }
        const bool truth = j.t == JV::NUL ? false : j.t == JV::BOOL ? j.b : j.t == JV::NUM ? j.n != 0 : j.t == JV::STR ? !j.s.empty() : true;
        k.ok(c.evaluate_as_boolean() == truth, "evaluate_as_boolean is false exactly for null, false, 0 and the empty string");
        if (j.t == JV::STR) k.ok(c.to_str() == j.s, "to_str of a string is the string");
        if (j.t == JV::BOOL) k.ok(c.to_str() == (j.b ? "true" : "false"), "to_str of a boolean");
        if (j.t == JV::NUL) k.ok(c.to_str() == "null", "to_str of null");
        k.ok(same(c, j), "looking at the value leaves it alone");
        k.out(i);
    });
    ex.add("constructors", "each constructor and typed default; non-finite numbers throw", 20, [](mc::Ctx &k, uint64_t i) {
        k.call();
        auto is = [&](const P::value &v, const JV &j) { k.ok(same(v, j), "constructed value has the stated contents"); };
        switch (i)
        {
        case 0: is(P::value(), JV()); break;
        case 1: is(P::value(P::boolean_type, false), JV::B(false)); break;
        case 2: is(P::value(P::number_type, false), JV::N(0)); break;
        case 3: is(P::value(P::string_type, false), JV::S("")); break;
        case 4: is(P::value(P::array_type, false), JV::A()); break;
        case 5: is(P::value(P::object_type, false), JV::O()); break;
        case 6: is(P::value(P::null_type, false), JV()); break;
        case 7: is(P::value("abc"), JV::S("abc")); break;
        case 8: is(P::value("ab\0c", 4), JV::S(std::string("ab\0c", 4))); break;
        case 9: is(P::value("abc", 2), JV::S("ab")); break;
        case 10: is(P::value("abc", 0), JV::S("")); break;
        case 11: is(P::value(true), JV::B(true)); break;
        case 12: is(P::value(DBL_MAX), JV::N(DBL_MAX)); break;
        case 13: is(P::value(-DBL_MAX), JV::N(-DBL_MAX)); break;
        default:
        {
            const double bad[] = {INFINITY, -INFINITY, NAN, -NAN, HUGE_VAL, DBL_MAX * 2};
            bool t = false;
            try { P::value v(bad[i - 14]); } catch (const std::overflow_error &) { t = true; }
            k.ok(t, "a non-finite number throws overflow_error");
        }
        }
        k.out(i);
    });
    HD = T ? 5 : 4;
    static std::string d;
    d = "every sequence of " + std::to_string(HD) + " of the " + std::to_string(NOP) + " operations (copy, move, swap, self-assignment, own child, own parent, sibling, member changes, parsing) on two values; both compared with the model after every step, sequences with an inapplicable step are skipped (their prefixes are covered)";
    uint64_t n = 1;
    for (int i = 0; i < HD; i++) n *= NOP;
    ex.add("histories", d.c_str(), n, [](mc::Ctx &k, uint64_t i) {
        World w;
        std::string h;
        for (int s = 0; s < HD; s++)
        {
            const int op = (int)(i % NOP);
            i /= NOP;
            bool ap;
            try { ap = apply(w, op); } catch (const std::exception &x) { k.fail("after %s, %s throws %s", h.c_str(), OPN[op], x.what()); return; }
            if (!ap) { k.skip(); return; }
            k.call();
            k.aux();
            h += (s ? "; " : "") + std::string(OPN[op]);
            for (int z = 0; z < 2; z++)
            {
                if (w.un[z]) continue;
                k.w->cmps++;
                if (!same(w.r[z], w.m[z])) { k.fail("after %s: %c is %s", h.c_str(), 'a' + z, show(w.r[z].serialize()).c_str()); return; }
            }
            if (!w.un[0] && !w.un[1] && (w.r[0] == w.r[1]) != (w.m[0] == w.m[1])) { k.fail("after %s: a == b is wrong", h.c_str()); return; }
        }
        if (k.verbose) k.note("%s; a=%s", h.c_str(), w.un[0] ? "(moved from)" : show(w.r[0].serialize()).c_str());
        uint64_t g = 7;
        if (!w.un[0]) for (char ch : w.r[0].serialize()) g = g * 131 + (unsigned char)ch;
        k.out(g);
    });
}
MC_MAIN(setup)
