// Reference model of JSON values and of the JSON grammar (RFC 8259), independent of picojson.
#pragma once
#include "picojson.h"
#include "mc.hpp"
#include <map>
#include <string>
#include <vector>
struct JV
{
    enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL;
    bool                      b = false;
    double                    n = 0;
    std::string               s;
    std::vector<JV>           a;
    std::map<std::string, JV> o;
    static JV B(bool x) { JV v; v.t = BOOL; v.b = x; return v; }
    static JV N(double x) { JV v; v.t = NUM; v.n = x; return v; }
    static JV S(const std::string &x) { JV v; v.t = STR; v.s = x; return v; }
    static JV A(std::vector<JV> x = {}) { JV v; v.t = ARR; v.a = std::move(x); return v; }
    static JV O(std::map<std::string, JV> x = {}) { JV v; v.t = OBJ; v.o = std::move(x); return v; }
    bool operator==(const JV &y) const
    {
        if (t != y.t) return false;
        switch (t)
        {
        case NUL: return true;
        case BOOL: return b == y.b;
        case NUM: return n == y.n;
        case STR: return s == y.s;
        case ARR: return a == y.a;
        default: return o == y.o;
        }
    }
};
// does the library's value hold exactly the modelled value?
static bool same(const picojson::value &p, const JV &j)
{
    const int flags = p.is<picojson::null>() | p.is<bool>() << 1 | p.is<double>() << 2 | p.is<std::string>() << 3 | p.is<picojson::array>() << 4 | p.is<picojson::object>() << 5;
    if (flags != 1 << j.t) return false;
    switch (j.t)
    {
    case JV::NUL: return true;
    case JV::BOOL: return p.get<bool>() == j.b;
    case JV::NUM: return p.get<double>() == j.n;
    case JV::STR: return p.get<std::string>() == j.s;
    case JV::ARR:
    {
        const picojson::array &a = p.get<picojson::array>();
        if (a.size() != j.a.size()) return false;
        for (size_t i = 0; i < a.size(); i++) if (!same(a[i], j.a[i])) return false;
        return true;
    }
    default:
    {
        const picojson::object &o = p.get<picojson::object>();
        if (o.size() != j.o.size()) return false;
        auto y = j.o.begin();
        for (auto x = o.begin(); x != o.end(); ++x, ++y) if (x->first != y->first || !same(x->second, y->second)) return false;
        return true;
    }
    }
}
// builds the library's value through its constructors
static picojson::value make(const JV &j)
{
    switch (j.t)
    {
    case JV::NUL: return picojson::value();
    case JV::BOOL: return picojson::value(j.b);
    case JV::NUM: return picojson::value(j.n);
    case JV::STR: return picojson::value(j.s);
    case JV::ARR: { picojson::array a; for (auto &x : j.a) a.push_back(make(x)); return picojson::value(a); }
    default: { picojson::object o; for (auto &x : j.o) o[x.first] = make(x.second); return picojson::value(o); }
    }
}
// Recogniser. verdict: 1 a JSON value was read, 0 not a JSON text, 2 number spelling outside JSON that the parser may take or leave
struct Rec
{
    const unsigned char *p, *e;
    bool                 lenient = false;
    int                  depth = 0;
    const unsigned char *bad = nullptr; // first character that cannot continue a JSON text (e: the text ended)
    bool                 exactline = true;
    Rec(const char *b, size_t n) : p((const unsigned char *)b), e((const unsigned char *)b + n) {}
    bool no(const unsigned char *at) { bad = at; return false; }
    void ws() { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) p++; }
    bool lit(const char *w) { for (; *w; w++, p++) if (p == e || *p != (unsigned char)*w) return no(p); return true; }
    bool hex4(unsigned &u)
    {
        u = 0;
        for (int i = 0; i < 4; i++, p++)
        {
            if (p == e || !isxdigit(*p)) return no(p);
            u = u * 16 + (isdigit(*p) ? *p - '0' : (*p | 32) - 'a' + 10);
        }
        return true;
    }
    static void utf8(std::string &o, unsigned c)
    {
        if (c < 0x80) o += (char)c;
        else if (c < 0x800) { o += (char)(0xc0 + c / 64); o += (char)(0x80 + c % 64); }
        else if (c < 0x10000) { o += (char)(0xe0 + c / 4096); o += (char)(0x80 + c / 64 % 64); o += (char)(0x80 + c % 64); }
        else { o += (char)(0xf0 + c / 262144); o += (char)(0x80 + c / 4096 % 64); o += (char)(0x80 + c / 64 % 64); o += (char)(0x80 + c % 64); }
    }
    bool str(std::string &o) // opening quote consumed
    {
        for (;;)
        {
            if (p == e || *p < 0x20) return no(p);
            if (*p == '"') { p++; return true; }
            if (*p != '\\') { o += (char)*p++; continue; }
            if (++p == e) return no(p);
            static const char from[] = "\"\\/bfnrt", to[] = "\"\\/\b\f\n\r\t";
            if (*p == 'u')
            {
                unsigned u, v;
                p++;
                if (!hex4(u)) return false;
                if (u >= 0xdc00 && u < 0xe000) return no(p - 1);
                if (u >= 0xd800 && u < 0xdc00)
                {
                    if (p == e || *p != '\\') return no(p);
                    if (++p == e || *p != 'u') return no(p);
                    p++;
                    if (!hex4(v)) return false;
                    if (v < 0xdc00 || v >= 0xe000) return no(p - 1);
                    u = 0x10000 + (u - 0xd800) * 1024 + (v - 0xdc00);
                }
                utf8(o, u);
                continue;
            }
            const char *f = *p ? strchr(from, *p) : nullptr;
            if (!f) return no(p);
            o += to[f - from];
            p++;
        }
    }
    // strict JSON number / decimal float syntax of the whole run
    static bool numok(const std::string &r, bool strict)
    {
        size_t i = 0;
        auto digs = [&] { size_t n = 0; while (i < r.size() && isdigit((unsigned char)r[i])) i++, n++; return n; };
        if (i < r.size() && r[i] == '-') i++;
        const size_t st = i, n = digs();
        if (strict && (n == 0 || (n > 1 && r[st] == '0'))) return false;
        size_t f = 0;
        if (i < r.size() && r[i] == '.') { i++; f = digs(); if (strict && !f) return false; }
        if (!n && !f) return false;
        if (i < r.size() && (r[i] == 'e' || r[i] == 'E'))
        {
            i++;
            if (i < r.size() && (r[i] == '+' || r[i] == '-')) i++;
            if (!digs()) return false;
        }
        return i == r.size();
    }
    bool num(JV &v)
    {
        const unsigned char *b = p;
        while (p < e && (isdigit(*p) || *p == '+' || *p == '-' || *p == '.' || *p == 'e' || *p == 'E')) p++;
        const std::string r((const char *)b, p - b);
        exactline = true;
        if (!numok(r, false)) return no(b);
        if (!numok(r, true)) lenient = true;
        v = JV::N(strtod(r.c_str(), nullptr));
        if (std::isinf(v.n)) return no(b);
        return true;
    }
    bool val(JV &v)
    {
        ws();
        if (p == e) return no(p);
        switch (*p)
        {
        case 'n': v = JV(); return lit("null");
        case 't': v = JV::B(true); return lit("true");
        case 'f': v = JV::B(false); return lit("false");
        case '"': p++; v = JV::S(""); return str(v.s);
        case '[':
            if (++depth > 1000) return no(p);
            p++;
            v = JV::A();
            ws();
            if (p < e && *p == ']') { p++; depth--; return true; }
            for (;;)
            {
                JV c;
                if (!val(c)) return false;
                v.a.push_back(std::move(c));
                ws();
                if (p < e && *p == ',') { p++; continue; }
                if (p < e && *p == ']') { p++; depth--; return true; }
                return no(p);
            }
        case '{':
            if (++depth > 1000) return no(p);
            p++;
            v = JV::O();
            ws();
            if (p < e && *p == '}') { p++; depth--; return true; }
            for (;;)
            {
                std::string k;
                JV c;
                ws();
                if (p == e || *p != '"') return no(p);
                p++;
                if (!str(k)) return false;
                ws();
                if (p == e || *p != ':') return no(p);
                p++;
                if (!val(c)) return false;
                v.o[k] = std::move(c);
                ws();
                if (p < e && *p == ',') { p++; continue; }
                if (p < e && *p == '}') { p++; depth--; return true; }
                return no(p);
            }
        default:
            if (isdigit(*p) || *p == '-') return num(v);
            return no(p);
        }
    }
};
static std::string show(const std::string &s)
{
    std::string o;
    for (unsigned char c : s.substr(0, 300))
        if (c >= 0x20 && c < 0x7f) o += (char)c;
        else { char b[8]; snprintf(b, sizeof b, "<%02x>", c); o += b; }
    return o;
}
