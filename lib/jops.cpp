// JSON operations for C37: one text in, everything observable about reading it out. Compiles as C++98 and later.
#include <stdint.h>
#include <string.h>
#include "picojson.h"
#include <sstream>
namespace P = picojson;
static void kinds(const P::value &v, std::string &o)
{
    o += v.is<P::null>() ? 'n' : v.is<bool>() ? 'b' :
#ifdef PICOJSON_USE_INT64
        v.is<int64_t>() ? 'i' :
#endif
        v.is<double>() ? 'd' : v.is<std::string>() ? 's' : v.is<P::array>() ? 'a' : v.is<P::object>() ? 'o' : '?';
    o += v.evaluate_as_boolean() ? '1' : '0';
    if (v.is<P::array>())
    {
        const P::array &a = v.get<P::array>();
        for (size_t i = 0; i < a.size(); i++) { kinds(a[i], o); kinds(v.get(i), o); }
        o += v.contains(a.size()) ? '!' : '.';
    }
    else if (v.is<P::object>())
    {
        const P::object &a = v.get<P::object>();
        for (P::object::const_iterator i = a.begin(); i != a.end(); ++i) { o += i->first; kinds(i->second, o); o += v.contains(i->first) ? '+' : '-'; }
    }
    o += '|' + v.to_str();
}
extern "C" size_t jops(const char *text, size_t n, int mode, char *out, size_t cap)
{
    std::string o;
    if (mode == 0)
    {
        P::value v, old(std::string("old"));
        std::string e;
        const char *last = P::parse(old, text, text + n, &e);
        v = old;
        o += e + '\1';
        char b[32];
        o.append(b, sprintf(b, "%d\1", (int)(last - text)));
        kinds(v, o);
        o += '\1' + v.serialize() + '\1' + v.serialize(true);
        P::value w;
        const std::string s = v.serialize();
        std::string e2;
        P::parse(w, s.begin(), s.end(), &e2);
        o += e2 + (w == v ? "=" : "#") + (v == w ? "=" : "#");
    }
    else if (mode == 1)
    {
        std::istringstream is(std::string(text, n));
        for (int i = 0; i < 3; i++)
        {
            P::value v;
            is >> v;
            std::ostringstream os;
            os << v;
            o += os.str() + (is.fail() ? "F" : "") + (is.eof() ? "E" : "") + '\1';
            is.clear();
        }
        o += P::get_last_error();
    }
    else if (mode == 2)
    {
        const std::string t(text, n);
        P::value s(t), a(P::array_type, false), q;
        a.get<P::array>().push_back(s);
        a.get<P::array>().push_back(P::value());
        P::value c(a), d;
        d = c;
        c.get<P::array>()[0] = P::value(true);
        d.swap(q);
        P::value ob(P::object_type, false);
        ob.get<P::object>()[t] = q;
        std::swap(ob, d);
        o = s.serialize() + '\1' + a.serialize() + '\1' + c.serialize(true) + '\1' + q.serialize() + '\1' + d.serialize(true) + '\1' + ob.serialize() + (a == q ? '=' : '#') + (a != c ? '#' : '=') + std::string(P::value(text, n).serialize());
    }
    else if (mode == 4)
    {
        // each byte is an operation on the two values; everything is written out after every step
        P::value v[2] = {P::value(1.5), P::value(std::string("s"))};
        for (size_t i = 0; i < n; i++)
        {
            P::value &a = v[text[i] / 13 & 1], &b = v[!(text[i] / 13 & 1)];
            P::array  *l = a.is<P::array>() ? &a.get<P::array>() : 0;
            P::object *m = a.is<P::object>() ? &a.get<P::object>() : 0;
            switch (text[i] % 13)
            {
            case 0: a = b; break;
            case 1: a.swap(b); break;
            case 2: std::swap(a, b); break;
            case 3: a = P::value(P::array_type, false); a.get<P::array>().push_back(b); break;
            case 4: a = P::value(P::object_type, false); a.get<P::object>()["k"] = b; break;
            case 5: if (l) l->insert(l->begin(), b); else if (m) (*m)["j"] = b; else a = P::value(true); break;
            case 6: if (l && !l->empty()) l->erase(l->begin()); else if (m) m->erase("k"); else a = P::value(); break;
            case 7: if (l && !l->empty()) a = P::value((*l)[l->size() - 1]); else if (m && m->count("k")) a = P::value((*m)["k"]); break;
            case 8: if (l) l->push_back(a); else if (m) (*m)["s"] = a; break;
            case 9: { std::string e; const char *t = "[{\"x\":[7,\"\\u20ac\"]},-2.5e3,false]"; P::parse(a, t, t + strlen(t), &e); o += e; break; }
            case 10: if (l) l->resize(l->size() + 2); else { std::string e; const char *t = "{\"k\":[null"; P::parse(a, t, t + strlen(t), &e); o += e; } break;
            case 11: a = a; break;
            case 12: { std::vector<P::value> w(3, a); w.insert(w.begin() + 1, b); std::swap(w[0], w[3]); a = P::value(w); break; }
            }
            o += v[0].serialize() + '\1' + v[1].serialize(true) + (v[0] == v[1] ? '=' : '#');
            if (o.size() > 3000) break;
        }
    }
    else
    {
        double x;
        memcpy(&x, text, sizeof x);
        try
        {
            P::value v(x), w;
            o = v.serialize() + '\1' + v.to_str() + (v.evaluate_as_boolean() ? '1' : '0');
            const std::string s = v.serialize();
            std::string e;
            P::parse(w, s.begin(), s.end(), &e);
            o += e + (w == v ? '=' : '#') + w.serialize();
#ifdef PICOJSON_USE_INT64
            if (x > -9e18 && x < 9e18) { P::value y((int64_t)x); o += '\1' + y.serialize(true); }
#endif
        }
        catch (std::exception &) { o = "exception"; }
    }
    if (o.size() <= cap) memcpy(out, o.data(), o.size());
    return o.size();
}
