// C26: results depend only on arguments. The colour library is compiled into ops.so; a state of the explored system is the
// contents of its writable statics and thread-local storage, an action is one operation with one argument set.
#include "mc.hpp"
#include "opsimage.hpp"
#include <chrono>
#include <fenv.h>
#include <locale.h>
#include <malloc.h>
#include <map>
#include <memory>
#include <set>
#include <xmmintrin.h>
static const OpsApi *api;
static Image        *img;
struct Item { int op, v; };
static std::vector<Item> items;            // every operation with every argument set
static std::vector<std::vector<int>> byop; // item numbers per operation
static const size_t CAP = 1 << 16;
static unsigned char buf[CAP];
struct Res { std::string out; int changed; };
static Res runi(int it)
{
    OpResult r{buf, CAP, 0, 0};
    api->run(items[it].op, items[it].v, &r);
    return {std::string((char *)buf, r.len < CAP ? r.len : CAP), r.inputs_changed};
}
static std::vector<std::unique_ptr<Res>> base_;
static const Res &base(int it) // result in a fresh library
{
    if (!base_[it])
    {
        img->reset();
        base_[it].reset(new Res(runi(it)));
    }
    return *base_[it];
}
static std::string show(int it)
{
    char t[400];
    api->args(items[it].op, items[it].v, t, sizeof t);
    return std::string(api->name(items[it].op)) + "(" + t + ")";
}
static std::string hex(const std::string &s, size_t at)
{
    char b[64];
    float f = 0;
    at &= ~3ull;
    if (at + 4 <= s.size()) memcpy(&f, &s[at], 4);
    snprintf(b, sizeof b, "%.9g", f);
    return b;
}
static bool same(mc::Ctx &k, const std::vector<int> &hist, const Res &got)
{
    k.w->cmps++;
    const Res &want = base(hist.back());
    if (got.changed) k.fail("%s changed its inputs", show(hist.back()).c_str());
    if (got.out != want.out)
    {
        size_t p = 0;
        while (p < got.out.size() && p < want.out.size() && got.out[p] == want.out[p]) p++;
        std::string h;
        for (int x : hist) h += (h.empty() ? "" : " ; ") + show(x);
        k.fail("after the history [ %s ] the last result differs from its value in a fresh library at word %zu: %s instead of %s", h.c_str(), p / 4, hex(got.out, p).c_str(), hex(want.out, p).c_str());
        return false;
    }
    return !got.changed;
}
static void history(mc::Ctx &k, const std::vector<int> &h)
{
    for (int x : h) base(x);
    img->reset();
    for (size_t i = 0; i < h.size(); i++)
    {
        const Res r = runi(h[i]);
        k.call();
        if (!same(k, std::vector<int>(h.begin(), h.begin() + i + 1), r)) return;
    }
}
__attribute__((noinline)) static void dirty_stack(int pat)
{
    volatile char a[64 * 1024];
    for (size_t i = 0; i < sizeof a; i++) a[i] = (char)pat;
}
static uint64_t hash(const std::string &s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}
void setup(mc::Explorer &ex)
{
    api = ops_api();
    static Image image;
    img = &image;
    byop.resize(api->count());
    for (int o = 0; o < api->count(); o++)
        for (int v = 0; v < api->variants(o); v++) { byop[o].push_back((int)items.size()); items.push_back({o, v}); }
    base_.resize(items.size());
    const uint64_t N = items.size();

    ex.add("single", "every operation with every argument set, three times in a row from the freshly loaded library: identical results, inputs unchanged, nothing written to stdout or stderr, rounding mode and locale kept", N, [](mc::Ctx &k, uint64_t i) {
        fflush(0);
        const int o1 = dup(1), o2 = dup(2);
        const int f = memfd_create("out", 0), g = memfd_create("err", 0);
        dup2(f, 1);
        dup2(g, 2);
        const unsigned    csr = _mm_getcsr() & 0xffc0;
        const int         rm  = fegetround();
        const std::string loc = setlocale(LC_ALL, nullptr);
        history(k, {(int)i, (int)i, (int)i});
        fflush(0);
        const bool quiet = lseek(f, 0, SEEK_END) == 0 && lseek(g, 0, SEEK_END) == 0;
        dup2(o1, 1);
        dup2(o2, 2);
        close(f); close(g); close(o1); close(o2);
        if (!quiet) k.fail("%s writes to standard output or standard error", show((int)i).c_str());
        k.ok((_mm_getcsr() & 0xffc0) == csr && fegetround() == rm, "floating-point mode unchanged");
        k.ok(loc == setlocale(LC_ALL, nullptr), "locale unchanged");
        if (k.verbose) k.note("%s, %zu result bytes", show((int)i).c_str(), base((int)i).out.size());
        k.out(hash(base((int)i).out));
    });
    ex.add("pairs", "ordered pairs (a, b) of operation x argument set, from the freshly loaded library: every a with every b of the same operation and with the base arguments of every operation (thorough: every b); index = a, all b inside", N, [N, &ex](mc::Ctx &k, uint64_t a) {
        for (uint64_t b = 0; b < N && !k.bad; b++)
        {
            if (!ex.thorough && items[b].op != items[a].op && items[b].v != 0) continue;
            history(k, {(int)a, (int)b});
            k.aux();
            if ((b & 63) == 0) k.beat();
        }
        if (k.verbose) k.note("first operation %s", show((int)a).c_str());
    }, 4);
    // triples over one argument set per operation (quick) or three (thorough)
    static std::vector<int> reps;
    for (auto &l : byop)
        for (size_t v = 0; v < l.size() && v < (ex.thorough ? 3u : 1u); v++) reps.push_back(l[v]);
    const uint64_t R = reps.size();
    ex.add("triples", "every sequence of three operations (base arguments; thorough: three argument sets each); index = first two, all third inside", R * R, [R](mc::Ctx &k, uint64_t i) {
        const int a = reps[i / R], b = reps[i % R];
        for (uint64_t c = 0; c < R && !k.bad; c++)
        {
            history(k, {a, b, reps[c]});
            k.aux();
        }
        k.beat();
    });
    ex.add("same-operation-triples", "every sequence of three argument sets of one operation (each parameter kept, changed by 1e-6, changed strongly, halved, zeroed, negated, times 8; quick: at most 22 second argument sets); index = operation and first argument set", N, [&ex](mc::Ctx &k, uint64_t i) {
        const auto &l = byop[items[i].op];
        const size_t lim = ex.thorough ? l.size() : (l.size() > 22 ? 22 : l.size());
        for (size_t b = 0; b < lim && !k.bad; b++)
            for (size_t c = 0; c < l.size() && !k.bad; c++)
            {
                history(k, {(int)i, l[b], l[c]});
                k.aux();
                k.beat();
            }
    }, 2);
    ex.add("reachable-states", "breadth-first closure of the library's internal states (statics + thread-local storage) under all operations, at most 64 states; one case, transitions counted as inner", 1, [N](mc::Ctx &k, uint64_t) {
        std::set<uint64_t> seen;
        struct St { std::vector<int> path; };
        std::vector<St> todo;
        for (uint64_t b = 0; b < N; b++) base((int)b);
        img->reset();
        todo.push_back({{}});
        seen.insert(hash(img->get() + img->tls()));
        size_t done = 0;
        for (; done < todo.size() && done < 64 && !k.bad; done++)
        {
            const St s = todo[done];
            for (uint64_t b = 0; b < N && !k.bad; b++)
            {
                img->reset();
                for (int x : s.path) runi(x);
                const Res r = runi((int)b);
                k.call();
                k.aux();
                auto h = s.path;
                h.push_back((int)b);
                if (!same(k, h, r)) return;
                const std::string im = img->get(), tl = img->tls();
                if (todo.size() < 4096 && seen.insert(hash(im + tl)).second) todo.push_back({h});
                k.beat();
            }
        }
        if (k.verbose) k.note("%zu reachable states, %zu expanded%s", todo.size(), done, done == todo.size() ? " (closed: holds for histories of any length)" : "");
        k.out(todo.size());
    });
    static const int reps_long = ex.thorough ? 300000 : 70000;
    ex.add("long-runs", "every operation 70000 times in a row (thorough: 300000; fewer calls once 4 s have passed, never below 2000), then every argument set of it and the base arguments of every operation, all without a fresh start: identical results after any number of calls; index = operation", byop.size(), [](mc::Ctx &k, uint64_t o) {
        for (int x : byop[o]) base(x);
        for (auto &l : byop) base(l[0]);
        img->reset();
        const int b = byop[o][0];
        const auto t0 = std::chrono::steady_clock::now();
        int n = 0;
        for (; n < reps_long; n++)
        {
            if (n >= 2000 && (n & 63) == 0 && std::chrono::steady_clock::now() - t0 > std::chrono::seconds(4)) break;
            const Res r = runi(b);
            k.call();
            k.w->cmps++;
            if (r.out != base(b).out || r.changed) { same(k, {b}, r); k.msg += " (in call number " + std::to_string(n + 1) + " of the same operation)"; return; }
            if ((n & 1023) == 0) k.beat();
        }
        for (int pass = 0; pass < 2; pass++)
            for (size_t q = 0; q < (pass ? byop.size() : byop[o].size()); q++)
            {
                const int it = pass ? byop[q][0] : byop[o][q];
                const Res r = runi(it);
                k.call();
                k.aux();
                if (!same(k, {b, it}, r)) { k.msg += " (first operation called " + std::to_string(n) + " times)"; return; }
            }
        if (k.verbose) k.note("%s", show(b).c_str());
    }, 1);
    static const int MANY = ex.thorough ? 20000 : 3000;
    ex.add("many-arguments", "every operation with 3000 different argument sets (thorough: 20000) one after the other, then the first 600 of them again, then backwards, then all its argument sets and every operation once, without a fresh start: identical to the results in a fresh library; index = operation", byop.size(), [](mc::Ctx &k, uint64_t o) {
        auto item = [&](int q) { OpResult r{buf, CAP, 0, 0}; api->run((int)o, OPS_MANY + q, &r); return Res{std::string((char *)buf, r.len < CAP ? r.len : CAP), r.inputs_changed}; };
        std::vector<uint64_t> want(MANY);
        for (int x : byop[o]) base(x);
        for (auto &l : byop) base(l[0]);
        const auto t0 = std::chrono::steady_clock::now();
        int n = 0;
        for (; n < MANY; n++)
        {
            if (n >= 1100 && (n & 15) == 0 && std::chrono::steady_clock::now() - t0 > std::chrono::seconds(4)) break;
            img->reset();
            want[n] = hash(item(n).out);
            if ((n & 255) == 0) k.beat();
        }
        img->reset();
        auto chk = [&](int q, const char *when) {
            const Res r = item(q);
            k.call();
            k.aux();
            k.w->cmps++;
            if (r.changed || hash(r.out) != want[q])
            {
                char t[400];
                api->args((int)o, OPS_MANY + q, t, sizeof t);
                k.fail("%s(%s) %s: %s", api->name((int)o), t, when, r.changed ? "changed its inputs" : "the result differs from its value in a fresh library");
                return false;
            }
            return true;
        };
        for (int q = 0; q < n; q++) { if (!chk(q, "in a sequence of calls with ever new arguments")) return; if ((q & 255) == 0) k.beat(); }
        for (int q = 0; q < n && q < 600; q++) if (!chk(q, "again, after a sequence of calls with other arguments")) return;
        for (int q = n; q-- > 0;) { if (!chk(q, "again, in reverse order")) return; if ((q & 255) == 0) k.beat(); }
        for (int pass = 0; pass < 2; pass++)
            for (size_t q = 0; q < (pass ? byop.size() : byop[o].size()); q++)
            {
                const int it = pass ? byop[q][0] : byop[o][q];
                const Res r = runi(it);
                k.call();
                if (!same(k, {it}, r)) { k.msg += " (preceded by many calls of " + std::string(api->name((int)o)) + ")"; return; }
            }
        if (k.verbose) k.note("%s, %d argument sets", api->name((int)o), n);
        k.out(n ? want[n - 1] : 0);
    }, 1);
    ex.add("rounds", "all operations with all argument sets, in order, over and over for 200 rounds of the base arguments and 6 of all (thorough: 2000 and 40), without a fresh start; one case", 1, [N, &ex](mc::Ctx &k, uint64_t) {
        for (uint64_t b = 0; b < N; b++) { base((int)b); if ((b & 63) == 0) k.beat(); }
        img->reset();
        const int A = ex.thorough ? 2000 : 200, B = ex.thorough ? 40 : 6;
        for (int round = 0; round < A + B; round++)
            for (uint64_t b = 0; b < N; b++)
            {
                if (round < A && items[b].v) continue;
                const Res r = runi((int)b);
                k.call();
                k.aux();
                if (!same(k, {(int)b}, r)) { k.msg += " (in round " + std::to_string(round + 1) + " of calling every operation in turn)"; return; }
                if ((b & 63) == 0) k.beat();
            }
    });
    ex.add("memory-contents", "every operation with fresh heap blocks and the stack prefilled with 5 byte patterns: results must not depend on uninitialised memory", N * 5, [N](mc::Ctx &k, uint64_t i) {
        static const int pats[5] = {0x00, 0x7f, 0x80, 0xff, 0x3f};
        const int it = (int)(i % N), pat = pats[i / N];
        base(it);
        img->reset();
        mallopt(M_PERTURB, pat ^ 0xff);
        dirty_stack(pat);
        const Res r = runi(it);
        mallopt(M_PERTURB, 0);
        k.call();
        if (!same(k, {it}, r)) k.msg += " (heap and stack prefilled)";
    });
}
MC_MAIN(setup)
