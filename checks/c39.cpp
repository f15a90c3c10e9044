// C39: running out of memory. Every allocation of every operation is made to fail in turn (and every pair of allocations
// over two attempts); nothing leaks, inputs and unrelated objects stay as they were, targets hold the old or the new
// value, and the next attempt succeeds with the right result. Built with AddressSanitizer.
#include "jsonmodel.hpp"
#include "colorsystem.hpp"
#include <cstdlib>
#include <memory>
#include <new>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
namespace P  = picojson;
namespace CS = ColorSystem;
typedef CS::Tristimulus T;
static long g_live, g_count, g_fail; // blocks alive; allocations since arming; the one to fail (0: none)
static bool g_armed;
static void *take(size_t n)
{
    if (g_armed && ++g_count == g_fail) throw std::bad_alloc();
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    g_live++;
    return p;
}
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return take(n); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { if (p) g_live--; free(p); }
void operator delete[](void *p) noexcept { if (p) g_live--; free(p); }
void operator delete(void *p, size_t) noexcept { if (p) g_live--; free(p); }
void operator delete[](void *p, size_t) noexcept { if (p) g_live--; free(p); }
struct Arm
{
    Arm(long f) { g_count = 0; g_fail = f; g_armed = true; }
    ~Arm() { g_armed = false; }
};
// One scenario: objects built without faults, the operation, what must be true after a failure and after success.
struct Scn
{
    virtual ~Scn() {}
    virtual void prepare() = 0;
    virtual void act() = 0;                    // the operation; may throw bad_alloc
    virtual const char *failed() { return nullptr; } // after a failed attempt: null or what is wrong
    virtual const char *done() { return nullptr; }   // after a successful attempt
};
static std::string g_what;
typedef std::function<Scn *()> Maker;
struct Case { std::string name; Maker make; };
static std::vector<Case> cases;
// ---- values
static std::vector<JV> pool;
template <class F, class G, class H> struct Fn : Scn
{
    P::value a, b;
    JV ja, jb, jr;
    F f; G fail; H ok;
    Fn(const JV &x, const JV &y, F f_, G g_, H h_) : ja(x), jb(y), f(f_), fail(g_), ok(h_) {}
    void prepare() override { a = make(ja); b = make(jb); }
    void act() override { f(*this); }
    const char *failed() override { return fail(*this); }
    const char *done() override { return ok(*this); }
};
template <class F, class G, class H> static Fn<F, G, H> *fn(const JV &x, const JV &y, F f, G g, H h) { return new Fn<F, G, H>(x, y, f, g, h); }
struct ParseScn : Scn
{
    JV old, want;
    std::string text, err;
    P::value v;
    int form;
    bool good;
    ParseScn(const JV &o, const std::string &t, int f) : old(o), text(t), form(f)
    {
        const unsigned char *p = (const unsigned char *)text.data();
        P::value x;
        good = P::parse(x, text).empty();
        ref = x.serialize();
    }
    std::string ref;
    void prepare() override { v = make(old); }
    void act() override
    {
        err.clear();
        if (form == 0) err = P::parse(v, text);
        else if (form == 1) P::parse(v, text.data(), text.data() + text.size(), &err);
        else if (form == 2)
        {
            std::istringstream is(text);
            is >> v;
            if (is.fail()) err = "failed";
            if (is.bad() || (good && is.fail())) throw std::bad_alloc();
        }
        else { P::null_parse_context c; P::_parse(c, text.data(), text.data() + text.size(), &err); if (err.empty()) P::parse(v, text.data(), text.data() + text.size(), &err); }
    }
    const char *failed() override
    {
        // whatever has been read so far: a proper value
        const std::string s = v.serialize();
        P::value w(v);
        return w == v && !s.empty() ? nullptr : "the target is not a proper value after a failed parse";
    }
    const char *done() override
    {
        if (err.empty() != good) return "wrong verdict";
        if (good && v.serialize() != ref) return "wrong value";
        return nullptr;
    }
};
struct SerScn : Scn
{
    JV j;
    P::value v;
    int form;
    std::string got, want;
    SerScn(const JV &x, int f) : j(x), form(f) { P::value t = make(x); want = form == 3 ? t.to_str() : t.serialize(form == 1); }
    void prepare() override { v = make(j); }
    void act() override
    {
        got.clear();
        if (form < 2) got = v.serialize(form == 1);
        else if (form == 2)
        {
            std::ostringstream os;
            os << v;
            if (!os) throw std::bad_alloc(); // reported through the stream's state
            got = os.str();
        }
        else if (form == 3) got = v.to_str();
        else v.serialize(std::back_inserter(got));
    }
    const char *failed() override { return same(v, j) ? nullptr : "the value changed while it was written"; }
    const char *done() override { return got == want && same(v, j) ? nullptr : "wrong text"; }
};
// ---- memory streams
struct MsScn : Scn
{
    int op, len, cur, endian;
    CS::MemoryStream s;
    std::vector<uint8_t> old, want;
    size_t at, after;
    MsScn(int o, int l, int c, int e) : op(o), len(l), cur(c), endian(e) {}
    static const int OPS = 15;
    static const char *name(int o)
    {
        static const char *const N[OPS] = {"putUint8", "putInt8", "putUint16", "putInt16", "putUint32", "putInt32", "putUint64", "putInt64", "putFloat", "putDouble", "putString", "write", "put_at", "write_at", "putPointer32"};
        return N[o];
    }
    static void apply(CS::MemoryStream &s, int op, int len)
    {
        static const char blk[64] = "the quick brown fox jumps over the lazy dog, twice and thrice.";
        switch (op)
        {
        case 0: s.putUint8(0xab); break;
        case 1: s.putInt8(-3); break;
        case 2: s.putUint16(0x1234); break;
        case 3: s.putInt16(-1234); break;
        case 4: s.putUint32(0x12345678u); break;
        case 5: s.putInt32(-123456789); break;
        case 6: s.putUint64(0x1122334455667788ull); break;
        case 7: s.putInt64(-1122334455667788ll); break;
        case 8: s.putFloat(1.5f); break;
        case 9: s.putDouble(-2.25); break;
        case 10: s.putString(std::string(blk, 40)); break;
        case 11: s.write(blk, 50); break;
        case 12: s.put_at(len + 20, 0x77); break;
        case 13: s.write_at(blk, 33, len > 2 ? len - 2 : 0); break;
        default: s.putPointer32(); break;
        }
    }
    void set(CS::MemoryStream &m)
    {
        std::vector<uint8_t> d(len);
        for (int i = 0; i < len; i++) d[i] = (uint8_t)(17 + 31 * i);
        if (len) m.init(d.data(), len);
        else m.init();
        m.buffer().shrink_to_fit();
        m.setWriteEndian(endian ? CS::MemoryStream::BIG : CS::MemoryStream::LITTLE);
        m.fseek(cur, CS::MemoryStream::TOP);
    }
    void prepare() override
    {
        CS::MemoryStream m;
        set(m);
        apply(m, op, len);
        want = m.buffer();
        after = m.ftell();
        set(s);
        old = s.buffer();
        at = s.ftell();
    }
    void act() override
    {
        apply(s, op, len);
    }
    const char *failed() override
    {
        const std::vector<uint8_t> &b = s.buffer();
        if (b.size() < old.size()) return "the stream became shorter";
        if (s.ftell() < at || s.ftell() > b.size()) return "the cursor is outside the stream";
        for (size_t i = 0; i < b.size(); i++)
        {
            const bool isold = i < old.size() && b[i] == old[i], isnew = i < want.size() && b[i] == want[i], pad = i >= old.size() && b[i] == 0;
            if (!isold && !isnew && !pad) return "a byte is neither the old nor the new one";
            if (i < at && op < 12 && !isold) return "a byte ahead of the cursor changed";
        }
        // try again from a clean start (the cursor may be anywhere in between)
        set(s);
        return nullptr;
    }
    const char *done() override { return s.buffer() == want && s.ftell() == after ? nullptr : "wrong contents or cursor"; }
};
// ---- colour
static std::vector<T> patches(int n, float s)
{
    std::vector<T> r;
    for (int k = 0; k < n; k++) r.push_back(T(s + 0.31f * (k % 3) + 0.02f * k, 0.2f + s * 0.27f * ((k / 3) % 3) + 0.01f * k, 0.1f + 0.23f * ((k * 2 + 1) % 5)));
    return r;
}
struct ColScn : Scn
{
    int op;
    std::vector<float> want, got;
    std::vector<T> a, b;
    ColScn(int o) : op(o) {}
    static const int OPS = 8;
    static const char *name(int o)
    {
        static const char *const N[OPS] = {"Macbeth::reference", "Macbeth::reference, CIE2012", "Corrector::solve two lists", "Corrector::solve chart", "Corrector::solve chart, light, observer", "Corrector::makeGamut", "SOLVER::solve", "loadGamutFromICCProfileMemory"};
        return N[o];
    }
    void m3(const CS::Matrix3 &m) { for (int i = 0; i < 9; i++) got.push_back(m[i]); }
    void vt(const std::vector<T> &v) { for (auto &t : v) for (int i = 0; i < 3; i++) got.push_back(t[i]); }
    void prepare() override
    {
        a = patches(24, 0.1f);
        b = patches(24, 0.3f);
        got.reserve(256);
        want.clear();
        got.clear();
        act();
        want = got;
    }
    void act() override
    {
        got.clear(); // capacity stays: the harness itself does not allocate
        switch (op)
        {
        case 0: vt(CS::Macbeth::reference(CS::CIE_D65)); break;
        case 1: vt(CS::Macbeth::reference(CS::CIE_D65, CS::CIE2012)); break;
        case 2: m3(CS::Corrector::solve(a, b)); break;
        case 3: m3(CS::Corrector::solve(a)); break;
        case 4: m3(CS::Corrector::solve(a, CS::CIE_D65, CS::CIE2012)); break;
        case 5: { CS::Gamut g = CS::Corrector::makeGamut("cam", a); m3(g.toXYZ()); m3(g.fromXYZ()); break; }
        case 6:
        {
            CS::SOLVER::Matrix m(4, 3);
            CS::SOLVER::Vector v(4), x(3);
            for (int i = 0; i < 12; i++) m[i / 3][i % 3] = 0.5f * i + (i % 5) * (i % 3) - 1;
            for (int i = 0; i < 4; i++) v[i] = 1.f + i * i;
            got.push_back((float)CS::SOLVER::solve(m, v, x));
            for (int i = 0; i < 3; i++) got.push_back(x[i]);
            break;
        }
        default: { unsigned char d[6] = {1, 2, 3, 4, 5, 6}; CS::Gamut g = CS::loadGamutFromICCProfileMemory(d, 6); m3(g.toXYZ()); }
        }
    }
    const char *failed() override
    {
        const std::vector<T> a2 = patches(24, 0.1f), b2 = patches(24, 0.3f);
        for (int i = 0; i < 24; i++) for (int c = 0; c < 3; c++) if (a[i][c] != a2[i][c] || b[i][c] != b2[i][c]) return "the patches changed";
        return nullptr;
    }
    const char *done() override { return got.size() == want.size() && !memcmp(got.data(), want.data(), got.size() * 4) ? nullptr : "the result differs"; }
};
// fail allocation f1 in the first attempt, f2 in the second (0: none), then none. Returns the number of attempts that failed.
static int play(mc::Ctx &k, const Case &c, long f1, long f2, long &used, bool first = false)
{
    int failures = 0;
    P::set_last_error(std::string(4096, 'x')); // the library keeps the last message for good: one block, before and after
    const long before = g_live;
    {
        std::unique_ptr<Scn> s(c.make());
        s->prepare();
        const long f[3] = {f1, f2, 0};
        for (int q = 0; q < 3 && !k.bad; q++)
        {
            bool threw = false;
            const long live = g_live;
            try { Arm arm(f[q]); s->act(); }
            catch (const std::bad_alloc &) { threw = true; }
            catch (const std::exception &x) { k.fail("%s: %s is thrown when allocation %ld fails", c.name.c_str(), x.what(), f[q]); break; }
            catch (...) { k.fail("%s: an unknown exception when allocation %ld fails", c.name.c_str(), f[q]); break; }
            if (q == 0) used = g_count;
            k.call();
            k.w->cmps++;
            if (threw)
            {
                failures++;
                if (f[q] == 0) { k.fail("%s fails although memory is available (after %d failures)", c.name.c_str(), failures - 1); break; }
                if (const char *w = s->failed()) { k.fail("%s, allocation %ld failing in attempt %d: %s", c.name.c_str(), f[q], q + 1, w); break; }
            }
            else
            {
                if (f[q] && g_count >= f[q]) { k.fail("%s: allocation %ld fails but the operation reports success", c.name.c_str(), f[q]); break; }
                if (const char *w = s->done()) { k.fail("%s after %d failures: %s", c.name.c_str(), failures, w); break; }
                break;
            }
        }
    }
    P::set_last_error(std::string(4096, 'x'));
    if (!k.bad && !first && g_live != before) k.fail("%s, allocations %ld and %ld failing: %ld blocks are never freed", c.name.c_str(), f1, f2, g_live - before);
    return failures;
}
static void all(mc::Ctx &k, const Case &c, long maxpair)
{
    long n = 0, used = 0;
    { long u; std::string m; play(k, c, 0, 0, u, true); if (k.bad) return; n = u; } // what is kept for good on first use is not a leak
    play(k, c, 0, 0, used);
    for (long f = 1; f <= used && !k.bad; f++)
    {
        long u;
        play(k, c, f, 0, u);
        k.aux();
        k.beat();
        if (used <= maxpair)
            for (long g = 1; g <= used && !k.bad; g++) { play(k, c, f, g, u); k.aux(); }
    }
    if (k.verbose) k.note("%s: %ld allocations", c.name.c_str(), used);
    k.out((uint64_t)used * 1000003 + (&c - &cases[0]));
}
// ---- the very first use in a process: every attempt in a fresh child, so that anything kept between calls is empty
static std::vector<float> out;
static void put(const void *p, size_t n) { for (size_t i = 0; i < n; i++) out.push_back((float)((const unsigned char *)p)[i]); }
static void put(const std::string &s) { put(s.data(), s.size()); }
struct First { std::string name; std::function<void()> act; };
static std::vector<First> firsts;
static int child(const First &f, const long *fails, int n, std::vector<float> *res, long *used)
{
    int fd[2];
    if (pipe(fd)) return 99;
    fflush(stdout);
    const pid_t pid = fork();
    if (!pid)
    {
        close(fd[0]);
        out.reserve(65536);
        int rc = 0;
        long cnt = 0;
        for (int q = 0; q <= n && !rc; q++)
        {
            bool threw = false;
            out.clear();
            const long x = q < n ? fails[q] : 0;
            try { Arm a(x); f.act(); }
            catch (const std::bad_alloc &) { threw = true; }
            catch (...) { rc = 2; }
            cnt = g_count;
            if (threw && !x) rc = 3;
            if (!threw && x && g_count >= x) rc = 4;
        }
        if (!rc)
        {   // from now on nothing more may be kept
            const long live = g_live;
            out.clear();
            f.act();
            if (g_live != live) rc = 5;
        }
        const size_t k = out.size() * 4;
        if (write(fd[1], &cnt, sizeof cnt) < 0 || (k && write(fd[1], out.data(), k) < 0)) rc = 98;
        _exit(rc);
    }
    close(fd[1]);
    std::vector<char> all;
    char buf[65536];
    ssize_t r;
    while ((r = read(fd[0], buf, sizeof buf)) > 0) all.insert(all.end(), buf, buf + r);
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st)) return 97;
    res->clear();
    if (all.size() >= sizeof(long))
    {
        memcpy(used, all.data(), sizeof(long));
        res->resize((all.size() - sizeof(long)) / 4);
        if (!res->empty()) memcpy(res->data(), all.data() + sizeof(long), res->size() * 4);
    }
    return WEXITSTATUS(st);
}
static void firstUse(mc::Ctx &k, const First &f, long maxpair)
{
    static const char *const W[] = {"", "", "an exception other than bad_alloc", "fails although memory is available", "an allocation fails but success is reported", "memory is kept with every call"};
    std::vector<float> want, got;
    long used = 0, u;
    int rc = child(f, nullptr, 0, &want, &used);
    if (rc) { k.fail("%s: %s (%d)", f.name.c_str(), rc < 6 ? W[rc] : "the process ended", rc); return; }
    for (long a = 1; a <= used && !k.bad; a++)
        for (long b = 0; b <= (used <= maxpair ? used : 0) && !k.bad; b++)
        {
            const long fl[2] = {a, b};
            rc = child(f, fl, b ? 2 : 1, &got, &u);
            k.call();
            k.aux();
            k.w->cmps++;
            k.beat();
            if (rc) k.fail("%s in a new process, allocations %ld and %ld failing: %s (%d)", f.name.c_str(), a, b, rc < 6 ? W[rc] : "the process ended", rc);
            else if (got.size() != want.size() || (got.size() && memcmp(got.data(), want.data(), got.size() * 4))) k.fail("%s in a new process, after allocations %ld and %ld failed: the result differs from the one without failures", f.name.c_str(), a, b);
        }
    k.out((uint64_t)used * 31 + (&f - &firsts[0]));
}
void setup(mc::Explorer &ex)
{
    const bool T_ = ex.thorough;
    const std::string L(60, 'x'); // longer than any in-place buffer
    pool = {JV(), JV::B(true), JV::N(1.5), JV::S("s"), JV::S(L), JV::A(), JV::O(), JV::A({JV::N(1), JV::S(L)}), JV::O({{"k", JV::S(L)}, {L, JV::N(2)}}), JV::A({JV::A({JV::S(L)}), JV::O({{"a", JV::A({JV::N(1), JV()})}}), JV::S("t")}), JV::O({{"a", JV::O({{"b", JV::A({JV::S(L), JV::S(L)})}})}, {"c", JV()}}), JV::A(std::vector<JV>(9, JV::S(L)))};
    struct Fam { std::string name, desc; size_t lo, hi; };
    std::vector<Fam> fams;
    size_t lo = 0;
    auto family = [&](const char *n, const char *d) { fams.push_back({n, d, lo, cases.size()}); lo = cases.size(); };
    for (size_t x = 0; x < pool.size(); x++)
    {
        const JV a = pool[x];
        cases.push_back({"copying value " + std::to_string(x), [a] { return fn(a, a, [](auto &s) { P::value c(s.a); s.b.swap(c); }, [](auto &s) { return same(s.a, s.ja) && same(s.b, s.jb) ? nullptr : "a value changed"; }, [](auto &s) { return same(s.a, s.ja) && same(s.b, s.ja) ? nullptr : "the copy differs"; }); }});
        for (size_t y = 0; y < pool.size(); y++)
        {
            const JV b = pool[y];
            const std::string n = std::to_string(x) + ", " + std::to_string(y);
            cases.push_back({"assigning values " + n, [a, b] { return fn(a, b, [](auto &s) { s.a = s.b; }, [](auto &s) { return !same(s.b, s.jb) ? "the source changed" : same(s.a, s.ja) ? nullptr : "the target lost its value"; }, [](auto &s) { return same(s.a, s.jb) && same(s.b, s.jb) ? nullptr : "assigned value differs"; }); }});
            cases.push_back({"moving and swapping values " + n, [a, b] { return fn(a, b, [](auto &s) { P::value t(std::move(s.a)); s.a = std::move(s.b); s.b = std::move(t); s.a.swap(s.b); s.a.swap(s.b); }, [](auto &s) { return "moving and swapping must not need memory"; }, [](auto &s) { return same(s.a, s.jb) && same(s.b, s.ja) ? nullptr : "exchanged values differ"; }); }});
            cases.push_back({"comparing values " + n, [a, b] { return fn(a, b, [](auto &s) { if ((s.a == s.b) != (s.ja == s.jb)) throw std::runtime_error("wrong comparison"); }, [](auto &s) { return same(s.a, s.ja) && same(s.b, s.jb) ? nullptr : "comparing changed a value"; }, [](auto &s) { return same(s.a, s.ja) && same(s.b, s.jb) ? nullptr : "comparing changed a value"; }); }});
            if (a.t == JV::ARR)
                cases.push_back({"adding an element " + n, [a, b] { JV r = a; r.a.push_back(b); return fn(a, b, [](auto &s) { s.a.template get<P::array>().push_back(s.b); }, [](auto &s) { return same(s.a, s.ja) && same(s.b, s.jb) ? nullptr : "a failed push_back changed a value"; }, [r](auto &s) { return same(s.a, r) ? nullptr : "element not added"; }); }});
            if (a.t == JV::OBJ)
                cases.push_back({"adding a member " + n, [a, b] { JV r = a; r.o["new key, longer than sixteen characters"] = b; return fn(a, b, [](auto &s) { P::value c(s.b); s.a.template get<P::object>()["new key, longer than sixteen characters"].swap(c); }, [](auto &s) { return same(s.a, s.ja) && same(s.b, s.jb) ? nullptr : "a failed insertion changed a value"; }, [r](auto &s) { return same(s.a, r) ? nullptr : "member not added"; }); }});
        }
    }
    family("values", "copying, assigning, moving, swapping, comparing and extending all ordered pairs of 12 values: every allocation failing, and every pair of failures over two attempts");
    for (size_t x = 0; x < pool.size(); x++)
        for (int f = 0; f < 5; f++)
        {
            const JV a = pool[x];
            cases.push_back({"writing value " + std::to_string(x) + ", form " + std::to_string(f), [a, f] { return new SerScn(a, f); }});
        }
    family("writing", "five ways of writing each of the 12 values");
    static const std::vector<std::string> texts = {"null", "1.5", "[1,2,3]", "{\"a\":1}", "\"short\"", "\"a long string that does not fit in place \\u00e9\\ud83d\\ude00\"", "[[[[1]]],{\"k\":[\"v\"]}]", "{\"a key that is longer than sixteen\":{\"b\":[1,\"a value that is longer too\"]}}", "[1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17]",
        "{\"a\":1,\"a\":\"again, and rather longer than sixteen\"}", "[1,2", "{\"a\" 1}", "[\"unterminated and longer than sixteen characters", "nul", "[1,2,]  and a long tail that goes into the message", "\"\\ud800\"", "1e999", "123456789012345678901234567890"};
    for (auto &t : texts)
        for (size_t o : {0, 4, 9, 10})
            for (int f = 0; f < 4; f++)
            {
#ifdef VERIF_CORE
                if (f == 3) continue;
#endif
                const JV a = pool[o];
                cases.push_back({"parsing `" + t + "` into value " + std::to_string(o) + ", form " + std::to_string(f), [a, t, f] { return new ParseScn(a, t, f); }});
            }
    family("parsing", "18 valid and invalid texts read four ways into four targets");
    for (int op = 0; op < MsScn::OPS; op++)
        for (int len : {0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 64, 100})
            for (int back : {0, 1, 2, 3, 5})
                for (int e = 0; e < 2; e++)
                    if (back <= len) { const int cur = len - back; cases.push_back({std::string(MsScn::name(op)) + " on " + std::to_string(len) + " bytes at " + std::to_string(cur), [=] { return new MsScn(op, len, cur, e); }}); }
    family("streams", "15 ways of writing to streams of 13 lengths, 5 cursor positions, both byte orders");
    for (int op = 0; op < ColScn::OPS; op++) cases.push_back({ColScn::name(op), [op] { return new ColScn(op); }});
    family("colour", "charts, corrections, solver and profile loading");
    for (int op = 0; op < ColScn::OPS; op++)
        firsts.push_back({ColScn::name(op), [op] { ColScn c(op); c.a = patches(24, 0.1f); c.b = patches(24, 0.3f); c.act(); out.insert(out.end(), c.got.begin(), c.got.end()); }});
    for (auto &t : texts)
        firsts.push_back({"reading and writing `" + t + "`", [t] { P::value v; std::string e = P::parse(v, t); put(e); if (e.empty()) { put(v.serialize()); put(v.serialize(true)); put(v.to_str()); P::value w(v); put(w == v ? "=" : "!"); } }});
    for (int op = 0; op < MsScn::OPS; op++)
        firsts.push_back({MsScn::name(op), [op] { CS::MemoryStream s; MsScn::apply(s, 4, 0); MsScn::apply(s, op, (int)s.buffer().size()); put(s.buffer().data(), s.buffer().size()); }});
    ex.add("first use", "41 operations whose first call in a new process runs out of memory at every allocation (and in two calls at every pair of allocations), then succeeds", firsts.size(), [T_](mc::Ctx &k, uint64_t i) { firstUse(k, firsts[i], T_ ? 60 : 12); }, 1);
    for (auto &f : fams)
    {
        const size_t base = f.lo;
        const long mp = T_ ? 400 : f.name == "colour" ? 120 : 60;
        ex.add(f.name.c_str(), f.desc.c_str(), f.hi - f.lo, [base, mp](mc::Ctx &k, uint64_t i) { all(k, cases[base + i], mp); }, 1);
    }
}
MC_MAIN(setup)
