// C35: picojson with 64-bit integers switched on (PICOJSON_USE_INT64): integers are exact.
#define PICOJSON_USE_INT64
#include "picojson.h"
#include "mc.hpp"
#include <cinttypes>
#include <climits>
#include <sstream>
namespace P = picojson;
typedef __int128 I;
static std::string str(I n)
{
    if (n == 0) return "0";
    std::string s;
    const bool neg = n < 0;
    for (; n; n /= 10) s.insert(s.begin(), (char)('0' + (int)(neg ? -(n % 10) : n % 10)));
    return neg ? "-" + s : s;
}
static bool isint(const P::value &v) { return v.is<int64_t>(); }
static bool others(const P::value &v) { return v.is<bool>() || v.is<std::string>() || v.is<P::array>() || v.is<P::object>() || v.is<P::null>(); }
static uint64_t fp(const std::string &s) { uint64_t h = 5381; for (unsigned char c : s) h = h * 131 + c; return h; }
static const I MIN = (I)INT64_MIN, MAX = (I)INT64_MAX;
// the value holds exactly the integer n, whichever way one looks at it, and looking does not change it
static bool holds(mc::Ctx &k, const P::value &v, I n, const char *how)
{
    const std::string s = str(n);
    k.call(6);
    k.w->cmps += 5;
    if (!isint(v) || !v.is<double>() || others(v)) { k.fail("%s: %s is not held as an integer and number (only)", how, s.c_str()); return false; }
    if ((I)v.get<int64_t>() != n) { k.fail("%s: %s has become %" PRId64, how, s.c_str(), v.get<int64_t>()); return false; }
    if (v.serialize() != s || v.to_str() != s || v.serialize(true) != s + "\n") { k.fail("%s: %s is written as `%s`, `%s`", how, s.c_str(), v.serialize().c_str(), v.to_str().c_str()); return false; }
    if (v.evaluate_as_boolean() != (n != 0)) { k.fail("%s: %s counts as %s", how, s.c_str(), v.evaluate_as_boolean() ? "true" : "false"); return false; }
    if (!isint(v) || (I)v.get<int64_t>() != n) { k.fail("%s: looking at %s changed it", how, s.c_str()); return false; }
    return true;
}
// an integer literal
static void integer(mc::Ctx &k, I n)
{
    const std::string s = str(n);
    const bool in = n >= MIN && n <= MAX;
    if (k.verbose) k.note("%s", s.c_str());
    for (int f = 0; f < 4 && !k.bad; f++)
    {
        P::value v;
        std::string e;
        if (f == 0) e = P::parse(v, s);
        else if (f == 1) { P::value a; e = P::parse(a, "[0," + s + " ]"); if (e.empty()) v = a.get(1); }
        else if (f == 2) { P::value a; e = P::parse(a, "{\"k\":" + s + "}"); if (e.empty()) v = a.get("k"); }
        else { std::istringstream is(s); is >> v; if (is.fail()) e = "failed"; }
        k.call();
        static const char *const F[4] = {"parsed", "parsed in an array", "parsed in an object", "read from a stream"};
        if (!k.ok(e.empty(), "an integer literal is accepted")) return;
        if (in) { if (!holds(k, v, n, F[f])) return; }
        else
        {
            k.ok(v.is<double>() && !isint(v) && !others(v), "an integer literal beyond 64 bits is a floating-point number");
            if (!k.bad) k.near("value beyond 64 bits", v.get<double>(), (double)n, 0);
        }
        if (!k.bad && in)
        {
            const double d = (double)(int64_t)n;
            P::value c(v), m(P::value(std::move(P::value(v)))), a, o(std::string("old")), sw(true);
            a = v;
            o = P::value(v);
            sw.swap(c);
            if (!holds(k, sw, n, "swapped copy") || !holds(k, m, n, "moved copy") || !holds(k, a, n, "assigned copy") || !holds(k, o, n, "move-assigned copy")) return;
            k.ok(c.is<bool>() && c.get<bool>(), "swapping hands over the other value");
            k.ok(a == v && v == m && !(a != v), "copies compare equal");
            if (!holds(k, v, n, "after comparing")) return;
            if (!holds(k, a, n, "other side after comparing")) return;
            P::value direct((int64_t)n);
            k.ok(direct == v, "constructed and parsed integer are equal");
            // asking for a double
            const P::value q(v);
            P::value z(q);
            k.near("as double", q.get<double>(), d, 0);
            k.near("as double, modifiable", z.get<double>(), d, 0);
            k.near("as double again", q.get<double>(), d, 0);
            k.ok(q.is<double>(), "still a number after asking for a double");
            P::value back;
            k.ok(P::parse(back, v.serialize()).empty() && back == v && isint(back), "serialises and parses back");
            P::array arr{v, P::value((int64_t)1)};
            P::value w, av(arr);
            k.ok(P::parse(w, av.serialize(true)).empty() && w == av, "an array of integers survives");
            if (!holds(k, av.get(0), n, "array element after comparing") || !holds(k, w.get(0), n, "re-read array element after comparing")) return;
            P::value wr((int64_t)5);
            wr.get<int64_t>() = (int64_t)n;
            if (!holds(k, wr, n, "written through the reference")) return;
        }
    }
    k.out(fp(s));
}
// reference reading of one number token: 0 reject, 1 integer, 2 double, 3 spelling outside JSON (either)
static int classify(const std::string &t, I &n, double &d)
{
    size_t p = 0;
    const bool neg = t[p] == '-';
    p += neg;
    const size_t b = p;
    while (p < t.size() && isdigit((unsigned char)t[p])) p++;
    const bool digits = p > b;
    const bool lead = p - b > 1 && t[b] == '0';
    if (digits && p == t.size() && !lead)
    {
        n = 0;
        bool over = false;
        for (size_t q = b; q < p; q++) { n = n * 10 + (t[q] - '0'); if (n > ((I)1 << 100)) over = true; }
        if (neg) n = -n;
        if (!over && n >= MIN && n <= MAX) return 1;
    }
    bool strict = digits && !lead;
    size_t q = p;
    if (q < t.size() && t[q] == '.') { q++; const size_t fb = q; while (q < t.size() && isdigit((unsigned char)t[q])) q++; strict &= q > fb; }
    if (q < t.size() && (t[q] == 'e' || t[q] == 'E'))
    {
        q++;
        if (q < t.size() && (t[q] == '+' || t[q] == '-')) q++;
        const size_t eb = q;
        while (q < t.size() && isdigit((unsigned char)t[q])) q++;
        strict &= q > eb;
    }
    char *end;
    d = strtod(t.c_str(), &end);
    if (strict && q == t.size()) return fabs(d) <= 1.7976931348623157e308 ? 2 : 0;
    return *end ? 0 : 3;
}
static uint64_t words(uint64_t a, int len) { uint64_t n = 0, p = 1; for (int i = 0; i <= len; i++, p *= a) n += p; return n; }
static std::string word(uint64_t i, const char *al, uint64_t base)
{
    uint64_t p = 1;
    int len = 0;
    while (i >= p) { i -= p; p *= base; len++; }
    std::string s;
    for (int j = 0; j < len; j++) { s += al[i % base]; i /= base; }
    return s;
}
static std::vector<P::value> pool;
static std::vector<I> edge;
struct N { bool isd; I n; double d; };
static std::vector<N> nums;
void setup(mc::Explorer &ex)
{
    const bool T = ex.thorough;
    for (int b = 0; b <= 70; b++)
        for (int s = -1; s <= 1; s += 2) edge.push_back(s * ((I)1 << b));
    I p = 1;
    for (int d = 0; d <= 21; d++, p *= 10) { edge.push_back(p); edge.push_back(-p); }
    const int R = T ? 2000 : 64;
    ex.add("integers", "every integer within 64 (thorough 2000) of 0, of +-2^b for b up to 70 and of +-10^d for d up to 21: parsed four ways, written, copied, moved, swapped, compared, asked for a double", edge.size() * (2 * R + 1), [R](mc::Ctx &k, uint64_t i) { integer(k, edge[i / (2 * R + 1)] + (I)(i % (2 * R + 1)) - R); });
    ex.add("small", "every integer from -40000 to 40000", 80001, [](mc::Ctx &k, uint64_t i) { integer(k, (I)i - 40000); });
    ex.add("digit-patterns", "integers of 1..22 digits: each digit repeated, 1 followed by it, with one digit changed at each place", 22 * 10 * 23 * 2, [](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int len = 1 + (int)d.pick(22), dig = (int)d.pick(10), at = (int)d.pick(23), neg = (int)d.pick(2);
        std::string s(len, (char)('0' + dig));
        if (at < len) s[at] = (char)('0' + (dig + 1) % 10);
        else if (at > len) return k.skip();
        I n = 0;
        for (char c : s) n = n * 10 + (c - '0');
        integer(k, neg ? -n : n);
    });
    const int L = T ? 8 : 7;
    ex.add("number-texts", T ? "every text of up to 8 characters over - 0 1 9 . e + 5 that starts a number, alone and in an array: integer, floating-point or error" : "every text of up to 7 characters over - 0 1 9 . e + 5 that starts a number, alone and in an array: integer, floating-point or error", words(8, L), [](mc::Ctx &k, uint64_t i) {
        const std::string t = word(i, "-019.e+5", 8);
        if (t.empty() || !(isdigit((unsigned char)t[0]) || t[0] == '-')) return k.skip();
        I n = 0;
        double d = 0;
        const int c = classify(t, n, d);
        for (int f = 0; f < 2; f++)
        {
            P::value v, a;
            std::string e;
            if (f == 0) e = P::parse(v, t);
            else { e = P::parse(a, "[" + t + ",0]"); if (e.empty()) v = a.get(0); }
            k.call();
            k.w->cmps++;
            if (c == 0 && e.empty()) return k.fail("`%s` is accepted as %s", t.c_str(), v.serialize().c_str());
            if ((c == 1 || c == 2) && !e.empty()) return k.fail("`%s` is rejected", t.c_str());
            if (c == 1 && (!isint(v) || (I)v.get<int64_t>() != n)) return k.fail("`%s` is read as %s %s", t.c_str(), isint(v) ? "integer" : "floating-point number", v.serialize().c_str());
            if (c == 2 && (isint(v) || !v.is<double>() || v.get<double>() != d)) return k.fail("`%s` is read as %s %s", t.c_str(), isint(v) ? "integer" : "floating-point number", v.serialize().c_str());
            if (c == 3 && e.empty() && (!v.is<double>() || P::value(v).get<double>() != d)) return k.fail("`%s` is read as %s", t.c_str(), v.serialize().c_str());
            k.out(fp(e.empty() ? v.serialize() + (isint(v) ? "i" : "d") : "x"));
        }
    });
    for (I e : edge) for (int q = -1; q <= 1; q++) if (e + q >= MIN && e + q <= MAX) nums.push_back({false, e + q, 0});
    nums.push_back({false, 0, 0});
    for (int b = 0; b <= 66; b += 3) for (int s = -1; s <= 1; s += 2) { nums.push_back({true, 0, s * std::ldexp(1.0, b)}); nums.push_back({true, 0, s * (std::ldexp(1.0, b) + 0.5)}); }
    nums.push_back({true, 0, 0.0});
    nums.push_back({true, 0, -0.0});
    nums.push_back({true, 0, 1e300});
    nums.push_back({true, 0, 0.1});
    static std::vector<P::value> rest;
    rest = {P::value(), P::value(true), P::value(false), P::value(std::string("1")), P::value(std::string()), P::value(P::array()), P::value(P::array(1)), P::value(P::object_type, false)};
    ex.add("equality", "every ordered pair of 500 numbers (integers at all edges, doubles) and other values, alone and inside an array and an object: equal exactly when the numbers are, symmetric, and comparing changes neither side", (nums.size() + rest.size()) * (nums.size() + rest.size()) * 3, [](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const size_t M = nums.size() + rest.size();
        const size_t a = d.pick(M), b = d.pick(M);
        const int wrap = (int)d.pick(3);
        auto mk = [&](size_t q) { return q >= nums.size() ? rest[q - nums.size()] : nums[q].isd ? P::value(nums[q].d) : P::value((int64_t)nums[q].n); };
        auto wr = [&](const P::value &v) { if (wrap == 0) return v; if (wrap == 1) return P::value(P::array{P::value((int64_t)3), v}); P::object o; o["k"] = v; o["j"] = P::value(1.5); return P::value(o); };
        const P::value x = wr(mk(a)), y = wr(mk(b));
        const std::string sx = x.serialize(), sy = y.serialize();
        int want; // 2: either
        if (a >= nums.size() || b >= nums.size()) want = a == b ? 1 : 0;
        else if (!nums[a].isd && !nums[b].isd) want = nums[a].n == nums[b].n;
        else if (nums[a].isd && nums[b].isd) want = nums[a].d == nums[b].d;
        else
        {
            const N &in = nums[a].isd ? nums[b] : nums[a], &fl = nums[a].isd ? nums[a] : nums[b];
            const bool exact = (I)(double)(int64_t)in.n == in.n;
            want = !((double)(int64_t)in.n == fl.d) ? 0 : exact ? 1 : 2;
        }
        const bool e1 = x == y, e2 = y == x, n1 = x != y;
        k.call(3);
        k.w->cmps++;
        if (want != 2 && e1 != (want == 1)) return k.fail("%s == %s is %s", sx.c_str(), sy.c_str(), e1 ? "true" : "false");
        if (e1 != e2 || n1 == e1) return k.fail("comparing %s and %s is not symmetric, or == and != agree", sx.c_str(), sy.c_str());
        auto part = [&](const P::value &v) -> const P::value & { return wrap == 0 ? v : wrap == 1 ? v.get(1) : v.get("k"); };
        for (int q = 0; q < 2; q++)
        {
            const size_t id = q ? b : a;
            const P::value &v = q ? y : x;
            if (id < nums.size() && isint(part(v)) != !nums[id].isd) return k.fail("comparing %s with %s turned one of them from an integer into a floating-point number", sx.c_str(), sy.c_str());
        }
        if (x.serialize() != sx || y.serialize() != sy) return k.fail("comparing %s with %s changed one of them to %s / %s", sx.c_str(), sy.c_str(), x.serialize().c_str(), y.serialize().c_str());
        k.out(e1 * 2 + (want == 2));
    });
#ifndef VERIF_CORE
    ex.add("contexts", "every edge integer and double as a document of its own and in an array, given to a context that takes or refuses integers and numbers: told once, by kind and value, and refused exactly if the context says so", nums.size() * 8, [](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const N &n = nums[d.pick(nums.size())];
        const bool wrap = d.pick(2), noint = d.pick(2), nodbl = d.pick(2);
        struct C
        {
            bool noint, nodbl;
            std::vector<std::pair<bool, double>> d;
            std::vector<int64_t> i;
            bool set_null() { return false; }
            bool set_bool(bool) { return false; }
            bool set_int64(int64_t x) { i.push_back(x); return !noint; }
            bool set_number(double x) { d.push_back({true, x}); return !nodbl; }
            bool parse_string(P::input<const char *> &) { return false; }
            bool parse_array_start() { return true; }
            bool parse_array_item(P::input<const char *> &in, size_t) { return P::_parse(*this, in); }
            bool parse_array_stop(size_t) { return true; }
            bool parse_object_start() { return false; }
            bool parse_object_item(P::input<const char *> &, const std::string &) { return false; }
        } c{noint, nodbl, {}, {}};
        char b[64];
        if (n.isd) snprintf(b, sizeof b, "%.17e", n.d);
        const std::string s = n.isd ? std::string(b) : str(n.n), t = wrap ? "[ " + s + " ]" : s;
        std::string e;
        const char *p = t.data();
        P::_parse(c, p, p + t.size(), &e);
        k.call();
        k.w->cmps++;
        const bool refused = n.isd ? nodbl : noint;
        if (e.empty() == refused) return k.fail("`%s` is %s by a context that %s it", t.c_str(), e.empty() ? "accepted" : "rejected", refused ? "refuses" : "takes");
        if (n.isd ? !(c.i.empty() && c.d.size() == 1 && c.d[0].second == n.d) : !(c.d.empty() && c.i.size() == 1 && (I)c.i[0] == n.n)) return k.fail("a context is not told of `%s` once, as what it is", t.c_str());
        P::deny_parse_context deny;
        std::string e2;
        P::_parse(deny, p, p + t.size(), &e2);
        k.ok(!e2.empty(), "the refusing context refuses");
        k.out(e.empty());
    });
#endif
    // histories of operations on two values
    static const char *const OPN[] = {"a=2^53+1", "a=-2^63", "a=1.5", "a=7 (double)", "b=2^63-1", "b=string", "a=b", "b=a", "a.swap(b)", "a==b", "b==a", "a=move(copy of b)", "serialize a", "a=parse(serialize(b))", "b=[a]", "a=b[0]", "a.get<int64_t>()+=1", "a!=2^53 (double)", "a to boolean", "a.is<double>"};
    const uint64_t NO = 20;
    const int HD = T ? 5 : 4;
    uint64_t total = 1;
    for (int q = 0; q < HD; q++) total *= NO;
    ex.add("histories", T ? "every sequence of 5 of 20 operations on two values (assignments, swap, move, comparison, serialisation, nesting, increments), compared with exact integers after each" : "every sequence of 4 of 20 operations on two values (assignments, swap, move, comparison, serialisation, nesting, increments), compared with exact integers after each", total, [HD, NO](mc::Ctx &k, uint64_t i) {
        struct Mo { int t; I n; double d; std::string s; bool in; }; // t: 0 int, 1 double, 2 string, 3 array of one (of the rest)
        P::value a((int64_t)0), b((int64_t)1);
        auto mi = [](I n) { return Mo{0, n, 0, "", false}; };
        auto md = [](double d) { return Mo{1, 0, d, "", false}; };
        Mo x = mi(0), y = mi(1);
        std::string h;
        auto match = [&](const P::value &v, const Mo &m) {
            if (m.in && !(v.is<P::array>() && v.get<P::array>().size() == 1)) return false;
            const P::value &e = m.in ? v.get(0) : v;
            if (m.t == 0) return isint(e) && (I)e.get<int64_t>() == m.n && e.serialize() == str(m.n);
            if (m.t == 1) return !isint(e) && e.is<double>() && e.get<double>() == m.d;
            return e.is<std::string>() && e.get<std::string>() == m.s;
        };
        for (int q = 0; q < HD; q++)
        {
            const int op = (int)(i % NO);
            i /= NO;
            if (k.verbose) h += std::string(OPN[op]) + "; ";
            k.call();
            switch (op)
            {
            case 0: a = P::value((int64_t)9007199254740993ll); x = mi((I)9007199254740993ll); break;
            case 1: a = P::value((int64_t)INT64_MIN); x = mi(MIN); break;
            case 2: a = P::value(1.5); x = md(1.5); break;
            case 3: a = P::value(7.0); x = md(7); break;
            case 4: b = P::value((int64_t)INT64_MAX); y = mi(MAX); break;
            case 5: b = P::value(std::string("12")); y = Mo{2, 0, 0, "12", false}; break;
            case 6: a = b; x = y; break;
            case 7: b = a; y = x; break;
            case 8: a.swap(b); std::swap(x, y); break;
            case 9: case 10: {
                const bool e = op == 9 ? a == b : b == a;
                bool w = x.in == y.in;
                if (w) { if (x.t == 2 || y.t == 2) w = x.t == y.t && x.s == y.s; else if (x.t == 0 && y.t == 0) w = x.n == y.n; else w = (x.t ? x.d : (double)(int64_t)x.n) == (y.t ? y.d : (double)(int64_t)y.n); }
                if (e != w) return k.fail("%s: comparison is %s", h.c_str(), e ? "true" : "false");
                break;
            }
            case 11: { P::value c(b); a = std::move(c); x = y; break; }
            case 12: a.serialize(); a.serialize(true); a.to_str(); break;
            case 13: { P::value c; if (!P::parse(c, b.serialize()).empty()) return k.fail("%s: does not parse back", h.c_str()); a = c; x = y; if (x.t == 1 && x.d == 7) x = Mo{0, 7, 0, "", x.in}; break; }
            case 14: if (x.in) return k.skip(); b = P::value(P::array{a}); y = x; y.in = true; break;
            case 15: { if (!y.in) return k.skip(); a = b.get(0); x = y; x.in = false; break; }
            case 16: if (x.t || x.in || x.n == MAX) return k.skip(); a.get<int64_t>() += 1; x.n += 1; break;
            case 17: { const P::value c(9007199254740992.0); const bool e = a != c; if (x.in || x.t == 2) k.ok(e, "differs from a number"); break; }
            case 18: { const bool e = a.evaluate_as_boolean(); const bool w = x.in || x.t == 2 || (x.t ? x.d != 0 : x.n != 0); if (e != w) return k.fail("%s: counts as %d", h.c_str(), e); break; }
            default: if (a.is<double>() != (!x.in && x.t != 2)) return k.fail("%s: is<double> is %d", h.c_str(), a.is<double>());
            }
            k.w->cmps += 2;
            if (!match(a, x) || !match(b, y)) return k.fail("after %sthe values are %s and %s", k.verbose ? h.c_str() : "the history ", a.serialize().c_str(), b.serialize().c_str());
        }
        if (k.verbose) k.note("history %s", h.c_str());
        k.out(fp(a.serialize() + b.serialize()));
    });
    ex.add("access", "typed access of integers and doubles: an integer gives int64 and double, a double gives double only, other types throw", 60, [](mc::Ctx &k, uint64_t i) {
        const N &n = nums[(i * 37) % nums.size()];
        P::value v = n.isd ? P::value(n.d) : P::value((int64_t)n.n);
        const P::value c(v);
        auto thr = [&](auto f) { try { f(); return false; } catch (const std::runtime_error &) { return true; } };
        k.call(6);
        k.ok(thr([&] { c.get<bool>(); }) && thr([&] { c.get<std::string>(); }) && thr([&] { c.get<P::array>(); }) && thr([&] { c.get<P::object>(); }), "asking a number for another type throws");
        k.ok(thr([&] { c.get(0); }) && thr([&] { c.get("k"); }) && thr([&] { c.contains(0); }), "indexing a number throws");
        if (n.isd) k.ok(thr([&] { c.get<int64_t>(); }) && thr([&] { v.get<int64_t>(); }), "asking a floating-point number for an integer throws");
        else k.ok((I)c.get<int64_t>() == n.n && (I)v.get<int64_t>() == n.n, "an integer gives its value");
        P::value z(P::int64_type, false);
        k.ok(isint(z) && z.get<int64_t>() == 0 && z.serialize() == "0" && !z.evaluate_as_boolean(), "a default integer is 0");
        for (auto &r : rest) k.ok(!r.is<int64_t>() && thr([&] { r.get<int64_t>(); }), "asking another type for an integer throws");
    });
}
MC_MAIN(setup)
