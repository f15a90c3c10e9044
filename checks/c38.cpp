// C38: event-style parsing. Every document tree up to a size is parsed with contexts of our own; at every event the
// context goes on, refuses, throws, skips the item with the library's null context or builds it with the default one.
#include "jsonmodel.hpp"
#include <list>
#include <sstream>
namespace P = picojson;
static void render(const JV &v, std::string &o, const char *sp)
{
    switch (v.t)
    {
    case JV::NUL: o += "null"; break;
    case JV::BOOL: o += v.b ? "true" : "false"; break;
    case JV::NUM: { char b[40]; snprintf(b, sizeof b, "%.17g", v.n); o += b; break; }
    case JV::STR: o += "\"" + v.s + "\""; break;
    case JV::ARR:
        o += "["; o += sp;
        for (size_t i = 0; i < v.a.size(); i++) { if (i) { o += ","; o += sp; } render(v.a[i], o, sp); o += sp; }
        o += "]";
        break;
    default:
    {
        o += "{"; o += sp;
        bool first = true;
        for (auto &x : v.o) { if (!first) { o += ","; o += sp; } first = false; o += "\"" + x.first + "\""; o += sp; o += ":"; o += sp; render(x.second, o, sp); o += sp; }
        o += "}";
    }
    }
}
struct Ev { std::string what; const JV *item; }; // item: the value that an array or object item announces
static void events(const JV &v, std::vector<Ev> &e)
{
    switch (v.t)
    {
    case JV::NUL: e.push_back({"null", nullptr}); break;
    case JV::BOOL: e.push_back({v.b ? "true" : "false", nullptr}); break;
    case JV::NUM: { char b[40]; snprintf(b, sizeof b, "num %.17g", v.n); e.push_back({b, nullptr}); break; }
    case JV::STR: e.push_back({"string", nullptr}); e.push_back({"text " + v.s, nullptr}); break;
    case JV::ARR:
        e.push_back({"array", nullptr});
        for (size_t i = 0; i < v.a.size(); i++) { e.push_back({"item " + std::to_string(i), &v.a[i]}); events(v.a[i], e); }
        e.push_back({"stop " + std::to_string(v.a.size()), nullptr});
        break;
    default:
        e.push_back({"object", nullptr});
        for (auto &x : v.o) { e.push_back({"key " + x.first, &x.second}); events(x.second, e); }
    }
}
#ifdef VERIF_CORE
// the event interface is not there under its documented names: whole documents only
static void doc(mc::Ctx &k, const JV &v, bool)
{
    std::string t;
    render(v, t, " ");
    P::value r;
    k.call();
    k.ok(P::parse(r, t).empty() && same(r, v), "the document is read");
}
#else
struct Refused {};
enum { GO, REFUSE, THROW, SKIP, BUILD };
struct Log
{
    std::vector<std::string> got;
    int at, mode;
    P::value built;
    bool fresh; // a context object per item
    bool tell(const std::string &s)
    {
        got.push_back(s);
        if ((int)got.size() - 1 != at) return true;
        if (mode == THROW) throw Refused();
        return mode != REFUSE;
    }
    bool here() const { return (int)got.size() - 1 == at; }
};
struct Ctx
{
    Log *l;
    bool set_null() { return l->tell("null"); }
    bool set_bool(bool b) { return l->tell(b ? "true" : "false"); }
    bool set_number(double d) { char b[40]; snprintf(b, sizeof b, "num %.17g", d); return l->tell(b); }
    template <typename I> bool parse_string(P::input<I> &in)
    {
        if (!l->tell("string")) return false;
        std::string s;
        if (!P::_parse_string(s, in)) return false;
        return l->tell("text " + s);
    }
    bool parse_array_start() { return l->tell("array"); }
    template <typename I> bool item(P::input<I> &in)
    {
        if (l->here() && l->mode == SKIP) { P::null_parse_context n; return P::_parse(n, in); }
        if (l->here() && l->mode == BUILD) { P::default_parse_context d(&l->built); return P::_parse(d, in); }
        if (l->fresh) { Ctx c{l}; return P::_parse(c, in); }
        return P::_parse(*this, in);
    }
    template <typename I> bool parse_array_item(P::input<I> &in, size_t i) { return l->tell("item " + std::to_string(i)) && item(in); }
    bool parse_array_stop(size_t n) { return l->tell("stop " + std::to_string(n)); }
    bool parse_object_start() { return l->tell("object"); }
    template <typename I> bool parse_object_item(P::input<I> &in, const std::string &key) { return l->tell("key " + key) && item(in); }
};
template <typename I> static int drive(Log &l, I b, I e, std::string &err) // 0 accepted, 1 error, 2 exception of ours, 3 other
{
    Ctx c{&l};
    try { P::_parse(c, b, e, &err); }
    catch (Refused &) { return 2; }
    catch (...) { return 3; }
    return err.empty() ? 0 : 1;
}
static int run(Log &l, const std::string &t, int form, std::string &err)
{
    if (form == 0)
    {
        std::vector<char> v(t.begin(), t.end());
        return drive(l, (const char *)v.data(), (const char *)v.data() + v.size(), err);
    }
    if (form == 1) { std::istringstream is(t); return drive(l, std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>(), err); }
    std::list<char> q(t.begin(), t.end());
    return drive(l, q.begin(), q.end(), err);
}
static std::string join(const std::vector<std::string> &v) { std::string r; for (auto &s : v) r += s + "; "; return r; }
static void doc(mc::Ctx &k, const JV &v, bool full)
{
    std::vector<Ev> ev;
    events(v, ev);
    for (int sp = 0; sp < (full ? 3 : 1) && !k.bad; sp++)
    {
        static const char *const SP[3] = {"", " ", "\n\t"};
        std::string t = SP[sp];
        render(v, t, SP[sp]);
        for (int form = 0; form < (full ? 3 : 1) && !k.bad; form++)
            for (int fresh = 0; fresh < 2; fresh++)
                for (int at = -1; at < (int)ev.size(); at++)
                    for (int mode = at < 0 ? GO : REFUSE; mode <= (at < 0 ? GO : BUILD); mode++)
                    {
                        if (mode >= SKIP && !ev[at].item) continue;
                        Log l;
                        l.at = at; l.mode = mode; l.fresh = fresh;
                        std::string err;
                        const int r = run(l, t, form, err);
                        k.call();
                        k.w->cmps++;
                        std::vector<std::string> want;
                        int wr = 0;
                        if (mode == REFUSE || mode == THROW) { for (int q = 0; q <= at; q++) want.push_back(ev[q].what); wr = mode == REFUSE ? 1 : 2; }
                        else
                            for (int q = 0; q < (int)ev.size(); q++)
                            {
                                want.push_back(ev[q].what);
                                if (q == at && mode >= SKIP) { std::vector<Ev> sub; events(*ev[q].item, sub); q += (int)sub.size(); }
                            }
                        static const char *const MN[5] = {"accepting everything", "refusing", "throwing at", "skipping", "building"};
                        if (r != wr || l.got != want)
                            return k.fail("`%s`, context %s event %d: %s; events %s; expected %s", t.c_str(), MN[mode], at, r == 0 ? "accepted" : r == 1 ? ("error " + err).c_str() : r == 2 ? "exception passed on" : "another exception", join(l.got).c_str(), join(want).c_str());
                        if (mode == BUILD && !same(l.built, *ev[at].item)) return k.fail("`%s`: item built at event %d is %s", t.c_str(), at, l.built.serialize().c_str());
                    }
        // the library's own refusing context
        {
            P::deny_parse_context d;
            std::string err;
            const char *b = t.data();
            P::_parse(d, b, b + t.size(), &err);
            k.call();
            k.ok(!err.empty(), "the refusing context refuses every document");
        }
        // cut short: an error, and no event the whole document does not have at that place
        if (full)
            for (size_t c = 0; c < t.size() && !k.bad; c++)
            {
                Log l;
                l.at = -1; l.mode = GO; l.fresh = c & 1;
                std::string err;
                const int r = run(l, t.substr(0, c), 0, err);
                k.call();
                k.w->cmps++;
                const bool top = v.t == JV::NUM; // a number cut short is a number
                if (!top && r != 1) return k.fail("`%s`, a document cut short, is accepted", t.substr(0, c).c_str());
                for (size_t q = 0; q < l.got.size(); q++)
                    if (q >= ev.size() || (l.got[q] != ev[q].what && !(q + 1 == l.got.size() && !l.got[q].compare(0, 5, "item ") && !ev[q].what.compare(0, 5, "stop ")) && !(q + 1 == l.got.size() && !l.got[q].compare(0, 4, "num ") && !ev[q].what.compare(0, 4, "num ")))) return k.fail("`%s`, a document cut short, gives events %s", t.substr(0, c).c_str(), join(l.got).c_str());
            }
    }
    uint64_t h = 5381;
    for (auto &e : ev) for (char c : e.what) h = h * 131 + (unsigned char)c;
    k.out(h);
}
#endif
static std::vector<std::vector<JV>> bysize; // trees with exactly n nodes
static void seqs(int n, std::vector<JV> &cur, std::vector<std::vector<JV>> &out) // all sequences of trees with n nodes in all
{
    if (n == 0) { out.push_back(cur); return; }
    for (int s = 1; s <= n; s++)
        for (auto &t : bysize[s]) { cur.push_back(t); seqs(n - s, cur, out); cur.pop_back(); }
}
static std::vector<JV> all;
void setup(mc::Explorer &ex)
{
    const int N = ex.thorough ? 8 : 7;
    bysize.resize(N + 1);
    bysize[1] = {JV(), JV::B(true), JV::N(-12.5), JV::S("s"), JV::A(), JV::O()};
    for (int n = 2; n <= N; n++)
    {
        std::vector<std::vector<JV>> sq;
        std::vector<JV> cur;
        if (n <= 3) seqs(n - 1, cur, sq);
        else
        {
            // from here on only one kind of leaf besides empty containers, to keep the shapes
            auto keep = bysize;
            bysize[1] = {JV::N(7), JV::A()};
            for (int q = 2; q < n; q++) { std::vector<JV> f; for (auto &t : bysize[q]) { std::function<bool(const JV &)> plain = [&](const JV &v) { if (v.t == JV::ARR) { for (auto &x : v.a) if (!plain(x)) return false; return true; } if (v.t == JV::OBJ) { if (v.o.empty()) return false; for (auto &x : v.o) if (!plain(x.second)) return false; return true; } return v.t == JV::NUM && v.n == 7; }; if (plain(t)) f.push_back(t); } bysize[q] = f; }
            seqs(n - 1, cur, sq);
            bysize = keep;
        }
        for (auto &s : sq)
        {
            bysize[n].push_back(JV::A(s));
            std::map<std::string, JV> o;
            static const char *const K[8] = {"", "a", "b", "c", "d", "e", "f", "g"};
            for (size_t i = 0; i < s.size(); i++) o[K[i]] = s[i];
            bysize[n].push_back(JV::O(o));
        }
        if (n == 2 || n == 3)
        {
            // plain trees need the plain leaf too
            std::vector<std::vector<JV>> s2;
            auto keep = bysize;
            bysize[1] = {JV::N(7)};
            if (n == 3) { bysize[2] = {JV::A({JV::N(7)}), JV::O({{"", JV::N(7)}}), JV::A({JV::A()}), JV::O({{"", JV::A()}})}; bysize[1].push_back(JV::A()); }
            else bysize[1].push_back(JV::A());
            cur.clear();
            seqs(n - 1, cur, s2);
            bysize = keep;
            for (auto &s : s2) { bysize[n].push_back(JV::A(s)); std::map<std::string, JV> o; for (size_t i = 0; i < s.size(); i++) o[i ? "b" : ""] = s[i]; bysize[n].push_back(JV::O(o)); }
        }
    }
    for (auto &b : bysize) for (auto &t : b) all.push_back(t);
    ex.add("trees", ex.thorough ? "every document tree of up to 3 nodes of 6 kinds and of up to 8 nodes of 4 kinds, at every event: go on, refuse, throw, skip the item, build the item; one context or one per item" : "every document tree of up to 3 nodes of 6 kinds and of up to 7 nodes of 4 kinds, at every event: go on, refuse, throw, skip the item, build the item; one context or one per item", all.size(), [](mc::Ctx &k, uint64_t i) { doc(k, all[i], false); });
    uint64_t small = 0;
    for (int n = 1; n <= 3; n++) small += bysize[n].size();
    ex.add("trees-forms", "the trees of up to 3 nodes, with three spacings, three kinds of iterators and cut short at every byte", small, [](mc::Ctx &k, uint64_t i) { doc(k, all[i], true); });
#ifndef VERIF_CORE
    static std::vector<JV> big;
    for (int n : {9, 10, 11, 99, 100, 101, 255, 256, 257, 1000}) { JV a = JV::A(), o = JV::O(); for (int i = 0; i < n; i++) { a.a.push_back(i % 7 == 3 ? JV::A({JV::N(i)}) : JV::N(i)); char b[16]; snprintf(b, sizeof b, "k%05d", i); o.o[b] = JV::N(i); } big.push_back(a); big.push_back(o); }
    for (int n : {10, 100, 500, 999}) { JV a = JV::N(1); for (int i = 0; i < n; i++) a = i & 1 ? JV::A({a}) : JV::O({{"k", a}}); big.push_back(a); }
    ex.add("long and deep", "arrays and objects of 9 to 1000 items and nesting up to 999: events and running indices, refused at one of 60 places", big.size() * 60, [](mc::Ctx &k, uint64_t i) {
        const JV &v = big[i / 60];
        std::vector<Ev> ev;
        events(v, ev);
        std::string t;
        render(v, t, "");
        Log l;
        l.at = i % 60 == 0 ? -1 : (int)((ev.size() - 1) * (i % 60) / 59);
        l.mode = l.at < 0 ? GO : REFUSE;
        l.fresh = i & 1;
        std::string err;
        const int r = run(l, t, 0, err);
        k.call();
        std::vector<std::string> want;
        for (int q = 0; q < (int)ev.size() && (l.at < 0 || q <= l.at); q++) want.push_back(ev[q].what);
        k.ok(r == (l.at < 0 ? 0 : 1), "accepted or refused as the context says");
        if (!k.bad && l.got != want) { size_t q = 0; while (q < want.size() && q < l.got.size() && want[q] == l.got[q]) q++; k.fail("event %zu is `%s`, expected `%s` (of %zu, expected %zu)", q, q < l.got.size() ? l.got[q].c_str() : "-", q < want.size() ? want[q].c_str() : "-", l.got.size(), want.size()); }
        k.out(l.got.size() * 2 + r);
    });
#endif
}
MC_MAIN(setup)
