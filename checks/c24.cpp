// C24: MemoryStream as a byte file: explicit-state exploration of the model with every transition executed on the real
// class (built with AddressSanitizer).
#include "ref.hpp"
#include "streammodel.hpp"
#include <map>
#include <memory>
typedef CS::MemoryStream MS;
enum Kind { PUT8, GET8, WRITE, READ, GETAT, PUTAT, WRITEAT, READAT, SEEKTOP, SEEKCUR, SEEKEND, ALIGN, MARK, TOMARK, SEEKTO, PUTI8, GETI8, RESET, GET16, GET32 };
struct Op { Kind k; int a, b; };
static std::string show(const Op &o)
{
    static const char *N[] = {"putUint8", "getUint8", "write", "read", "get_at", "put_at", "write_at", "read_at", "fseek TOP", "fseek CURRENT", "fseek END", "align", "mark", "seekTo(mark)", "seekTo", "putInt8", "getInt8", "init", "getUint16", "getUint32"};
    char s[64];
    snprintf(s, sizeof s, "%s(%d,%d)", N[o.k], o.a, o.b);
    return s;
}
static std::vector<uint8_t> block(int n, int seed)
{
    std::vector<uint8_t> d;
    for (int i = 0; i < n; i++) d.push_back((uint8_t)(1 + (i * 2 + seed) % 3));
    return d;
}
static std::vector<uint8_t> bigblock(size_t n, int seed)
{
    std::vector<uint8_t> d(n);
    for (size_t i = 0; i < n; i++) d[i] = (uint8_t)(1 + (i * 31 + i / 251 + seed * 7) % 255);
    return d;
}
// is the operation within the interface's precondition in this model state?
static bool allowed(const FileModel &m, const Op &o)
{
    switch (o.k)
    {
    case SEEKTOP: case SEEKTO: return o.a >= 0 && (size_t)o.a <= m.b.size();
    case SEEKCUR: return (long)m.p + o.a >= 0 && (size_t)((long)m.p + o.a) <= m.b.size();
    case SEEKEND: return (long)m.b.size() - 1 - o.a >= 0 && (long)m.b.size() - 1 - o.a <= (long)m.b.size();
    case ALIGN: return m.p + (o.a - m.p % o.a) % o.a <= m.b.size();
    case TOMARK: return m.mark <= m.b.size();
    default: return true;
    }
}
struct Run
{
    MS        s;
    FileModel m;
    size_t    smark = 0;
    bool same(mc::Ctx &k, const char *after)
    {
        k.w->cmps += 4;
        if (s.buffer().size() != m.b.size()) { k.fail("%s: size %zu, byte file has %zu", after, s.buffer().size(), m.b.size()); return false; }
        if (s.ftell() != m.p || s.mark() != m.p) { k.fail("%s: cursor %zu, byte file at %zu", after, s.ftell(), m.p); return false; }
        if (s.feof() != m.eof()) { k.fail("%s: feof %d, byte file %d", after, (int)s.feof(), (int)m.eof()); return false; }
        if (!m.b.empty() && memcmp(s.buffer().data(), m.b.data(), m.b.size()))
            for (size_t i = 0; i < m.b.size(); i++)
                if (s.buffer()[i] != m.b[i]) { k.fail("%s: byte %zu is %d, byte file has %d", after, i, s.buffer()[i], m.b[i]); return false; }
        if (!m.eof() && *(uint8_t *)s.ptr() != m.b[m.p]) { k.fail("%s: ptr() does not address the cursor byte", after); return false; }
        return true;
    }
    bool num(mc::Ctx &k, const Op &o, long got, long want)
    {
        k.w->cmps++;
        if (got != want) k.fail("%s returned %ld, byte file gives %ld", show(o).c_str(), got, want);
        return got == want;
    }
    // applies one operation to both; false on a difference in the operation's own result
    bool step(mc::Ctx &k, const Op &o)
    {
        k.call();
        switch (o.k)
        {
        case PUT8: s.putUint8((uint8_t)o.a); m.writeAt(m.p, {(uint8_t)o.a}); m.p++; return true;
        case PUTI8: s.putInt8((int8_t)o.a); m.writeAt(m.p, {(uint8_t)o.a}); m.p++; return true;
        case GET8: case GETI8: {
            const uint8_t want = m.at(m.p);
            const bool    e    = m.eof();
            if (!e) m.p++;
            return o.k == GET8 ? num(k, o, s.getUint8(), want) : num(k, o, s.getInt8(), (int8_t)want);
        }
        case GET16: case GET32: {
            unsigned v = 0;
            for (int i = 0; i < (o.k == GET16 ? 2 : 4); i++) { v |= (unsigned)m.at(m.p) << (8 * i); if (!m.eof()) m.p++; }
            return o.k == GET16 ? num(k, o, s.getUint16(), v) : num(k, o, s.getUint32(), v);
        }
        case WRITE: case WRITEAT: {
            const std::vector<uint8_t> d = o.a > 64 ? bigblock(o.a, o.b) : block(o.a, o.k == WRITE ? o.b : o.a);
            std::unique_ptr<uint8_t[]> src(new uint8_t[d.size() ? d.size() : 1]);
            if (d.size()) memcpy(src.get(), d.data(), d.size());
            const size_t at = o.k == WRITE ? m.p : (size_t)o.b;
            const size_t r  = o.k == WRITE ? s.write(src.get(), d.size()) : s.write_at(src.get(), d.size(), at);
            m.writeAt(at, d);
            if (o.k == WRITE) m.p += d.size();
            if (d.size() && memcmp(src.get(), d.data(), d.size())) { k.fail("%s changed its source", show(o).c_str()); return false; }
            return num(k, o, (long)r, (long)d.size());
        }
        case READ: case READAT: {
            const size_t at = o.k == READ ? m.p : (size_t)o.b;
            const std::vector<uint8_t> want = m.readAt(at, o.a);
            std::vector<uint8_t> dst(o.a + 8, 0xEE);
            const size_t r = o.k == READ ? s.read(dst.data(), o.a) : s.read_at(dst.data(), o.a, at);
            if (o.k == READ) m.p += want.size();
            if (!num(k, o, (long)r, (long)want.size())) return false;
            for (size_t i = 0; i < want.size(); i++) if (dst[i] != want[i]) { k.fail("%s: byte %zu read as %d, byte file has %d", show(o).c_str(), i, dst[i], want[i]); return false; }
            for (size_t i = want.size(); i < dst.size(); i++) if (dst[i] != 0xEE) { k.fail("%s wrote past the bytes it returned", show(o).c_str()); return false; }
            return true;
        }
        case GETAT: return num(k, o, s.get_at(o.a), m.at(o.a));
        case PUTAT: s.put_at(o.a, (uint8_t)o.b); m.writeAt(o.a, {(uint8_t)o.b}); return true;
        case SEEKTOP: m.p = o.a; return num(k, o, s.fseek(o.a, MS::TOP), (long)m.p);
        case SEEKTO: m.p = o.a; s.seekTo(o.a); return true;
        case SEEKCUR: m.p += o.a; return num(k, o, s.fseek(o.a, MS::CURRENT), (long)m.p);
        case SEEKEND: m.p = m.b.size() - 1 - o.a; return num(k, o, s.fseek(o.a, MS::END), (long)m.p);
        case ALIGN: m.p += (o.a - m.p % o.a) % o.a; s.align(o.a); return true;
        case MARK: m.mark = m.p; smark = s.mark(); return num(k, o, (long)smark, (long)m.p);
        case TOMARK: m.p = m.mark; s.seekTo(smark); return true;
        case RESET: {
            const std::vector<uint8_t> d = block(o.a, o.b);
            if (o.a) s.init(d.data(), d.size()); else if (o.b & 1) s.init(&o, 0); else s.init();
            m.b = d; m.p = 0; m.mark = 0; smark = 0;
            return true;
        }
        }
        return true;
    }
};
static std::vector<Op> alphabet(bool small)
{
    std::vector<Op> a;
    for (int v : {1, 2}) a.push_back({PUT8, v, 0});
    a.push_back({GET8, 0, 0});
    if (!small) { a.push_back({PUTI8, -3, 0}); a.push_back({GETI8, 0, 0}); a.push_back({PUT8, 0, 0}); a.push_back({GET16, 0, 0}); a.push_back({GET32, 0, 0}); }
    for (int n = small ? 2 : 0; n <= (small ? 2 : 3); n++) a.push_back({WRITE, n, 0});
    if (!small) a.push_back({WRITE, 5, 1});
    for (int n : small ? std::vector<int>{2} : std::vector<int>{0, 1, 2, 3, 7}) a.push_back({READ, n, 0});
    for (int p : small ? std::vector<int>{1, 3} : std::vector<int>{0, 1, 2, 3, 4, 6}) a.push_back({PUTAT, p, 3});
    for (int p : small ? std::vector<int>{0, 2} : std::vector<int>{0, 1, 2, 3, 4, 6}) { if (small) a.push_back({WRITEAT, 2, p}); else for (int n : {0, 1, 2, 3}) a.push_back({WRITEAT, n, p}); }
    if (!small) for (int p = 0; p <= 7; p++) { a.push_back({GETAT, p, 0}); for (int n : {0, 1, 3, 9}) a.push_back({READAT, n, p}); }
    for (int p : small ? std::vector<int>{0, 1} : std::vector<int>{0, 1, 2, 3, 4, 5, 6}) a.push_back({SEEKTOP, p, 0});
    for (int p : small ? std::vector<int>{-1, 1} : std::vector<int>{-3, -2, -1, 0, 1, 2, 3}) a.push_back({SEEKCUR, p, 0});
    for (int p : small ? std::vector<int>{0, 1, -1} : std::vector<int>{-1, 0, 1, 2, 3, 4}) a.push_back({SEEKEND, p, 0});
    for (int p : small ? std::vector<int>{2} : std::vector<int>{1, 2, 3, 4, 8}) a.push_back({ALIGN, p, 0});
    a.push_back({MARK, 0, 0});
    a.push_back({TOMARK, 0, 0});
    if (!small) { for (int p = 0; p <= 4; p++) a.push_back({SEEKTO, p, 0}); a.push_back({RESET, 0, 0}); a.push_back({RESET, 0, 1}); a.push_back({RESET, 3, 1}); }
    return a;
}
struct State { FileModel m; int parent, op; };
static std::vector<State> ST;
static std::vector<Op>    FULL, SMALL;
static void modelStep(FileModel &m, const Op &o)
{
    switch (o.k)
    {
    case PUT8: case PUTI8: m.writeAt(m.p, {(uint8_t)o.a}); m.p++; break;
    case GET8: case GETI8: if (!m.eof()) m.p++; break;
    case GET16: m.p = std::min(m.b.size(), m.p + 2); break;
    case GET32: m.p = std::min(m.b.size(), m.p + 4); break;
    case WRITE: m.writeAt(m.p, block(o.a, o.b)); m.p += o.a; break;
    case WRITEAT: m.writeAt(o.b, block(o.a, o.a)); break;
    case READ: m.p += m.readAt(m.p, o.a).size(); break;
    case PUTAT: m.writeAt(o.a, {(uint8_t)o.b}); break;
    case SEEKTOP: case SEEKTO: m.p = o.a; break;
    case SEEKCUR: m.p += o.a; break;
    case SEEKEND: m.p = m.b.size() - 1 - o.a; break;
    case ALIGN: m.p += (o.a - m.p % o.a) % o.a; break;
    case MARK: m.mark = m.p; break;
    case TOMARK: m.p = m.mark; break;
    case RESET: m.b = block(o.a, o.b); m.p = 0; m.mark = 0; break;
    default: break;
    }
}
static void explore(size_t maxSize, size_t maxStates)
{
    std::map<std::string, int> seen;
    auto key = [](const FileModel &m) { std::string s((const char *)m.b.data(), m.b.size()); s += '/'; s += (char)m.p; s += (char)m.mark; return s; };
    ST.push_back(State{FileModel(), -1, -1});
    seen[key(ST[0].m)] = 0;
    for (size_t i = 0; i < ST.size() && ST.size() < maxStates; i++)
        for (size_t o = 0; o < FULL.size(); o++)
        {
            if (!allowed(ST[i].m, FULL[o])) continue;
            FileModel n = ST[i].m;
            modelStep(n, FULL[o]);
            if (n.b.size() > maxSize || n.mark > 2) continue;
            if (seen.emplace(key(n), (int)ST.size()).second) ST.push_back(State{n, (int)i, (int)o});
        }
}
void setup(mc::Explorer &ex)
{
    FULL  = alphabet(false);
    SMALL = alphabet(true);
    explore(ex.thorough ? 5 : 4, 1000000);
    const uint64_t F = FULL.size();
    ex.add("states", "every reachable state of the byte-file model (contents over the written byte values, size <= 4 (thorough 5), cursor, mark) x every operation: the state is reached on the real class by replaying its path, then the operation runs on both", ST.size() * F, [=](mc::Ctx &k, uint64_t i) {
        const int st = (int)(i / F);
        const Op  op = FULL[i % F];
        std::vector<int> path;
        for (int s = st; ST[s].parent >= 0; s = ST[s].parent) path.push_back(ST[s].op);
        if (!allowed(ST[st].m, op)) return k.skip();
        Run r;
        std::string h;
        for (size_t j = path.size(); j-- > 0;)
        {
            if (k.verbose) h += show(FULL[path[j]]) + " ";
            if (!r.step(k, FULL[path[j]])) return;
        }
        if (k.verbose) k.note("history: %s then %s", h.c_str(), show(op).c_str());
        if (!r.same(k, "after replaying the path")) return;
        if (r.m.b != ST[st].m.b || r.m.p != ST[st].m.p) { k.fail("model replay differs"); return; }
        if (!r.step(k, op)) return;
        if (!r.same(k, show(op).c_str())) return;
        uint64_t hsh = r.m.p;
        for (uint8_t c : r.m.b) hsh = hsh * 131 + c + 1;
        k.out(hsh);
        k.ok(true, "equal to the byte file");
    });
    const int depth = ex.thorough ? 6 : 5;
    const uint64_t S = SMALL.size();
    uint64_t N = 1;
    for (int i = 0; i < depth; i++) N *= S;
    char desc[200];
    snprintf(desc, sizeof desc, "every sequence of %d operations over %d operations (no state merging, so hidden state such as capacity is covered)", depth, (int)S);
    ex.add("sequences", desc, N, [=](mc::Ctx &k, uint64_t i) {
        Run r;
        std::string h;
        for (int j = 0; j < depth; j++)
        {
            const Op &o = SMALL[i % S];
            i /= S;
            if (!allowed(r.m, o)) return k.skip(); // shorter legal prefixes are prefixes of other sequences
            if (k.verbose) h += show(o) + " ";
            if (!r.step(k, o) || !r.same(k, show(o).c_str())) { if (k.verbose) k.note("history: %s", h.c_str()); return; }
        }
        if (k.verbose) k.note("history: %s", h.c_str());
        k.ok(true, "equal to the byte file");
    });
    static std::vector<int> SZ = {0, 1, 5, 255, 256, 257, 1000, 4095, 4096, 65535, 65536, 70000};
    const uint64_t z = SZ.size();
    ex.add("large", "streams of 0..70000 bytes, built by block, by bytes, or from memory: block read/write, absolute access, seeks from all origins, at and across the end, with every size pair", z * z * 7 * 3, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int a = d.of(SZ), b = d.of(SZ), how = (int)d.pick(7), build = (int)d.pick(3);
        Run r;
        const std::vector<uint8_t> init = bigblock(a, 3);
        if (build == 0) { if (!r.step(k, {WRITE, a, 3})) return; if (a <= 64) { } }
        else if (build == 1) { for (int q = 0; q < a; q++) { r.s.putUint8(init[q]); } r.m.writeAt(0, init); r.m.p = a; }
        else { std::vector<uint8_t> e = init; e.push_back(0); r.s.init(e.data(), a); r.m.b = init; r.m.p = 0; }
        k.beat();
        if (k.verbose) k.note("stream of %d bytes (construction %d), size argument %d, scenario %d", a, build, b, how);
        if (!r.same(k, "construction")) return;
        std::vector<Op> ops;
        const int mid = a / 2, last = a ? a - 1 : 0;
        switch (how)
        {
        case 0: ops = {{SEEKTOP, mid, 0}, {WRITE, b, 5}, {SEEKTOP, 0, 0}, {READ, a + b + 3, 0}, {GET8, 0, 0}}; break;
        case 1: ops = {{SEEKTOP, last, 0}, {READ, b, 0}, {READ, b, 0}, {PUT8, 7, 0}, {GETAT, a, 0}}; break;
        case 2: ops = {{WRITEAT, b, a + 10}, {GETAT, a + 5, 0}, {READAT, b, mid}, {GET8, 0, 0}}; break;
        case 3: ops = {{PUTAT, a + b, 9}, {GETAT, a + b, 0}, {GETAT, a + b + 1, 0}, {SEEKTOP, a + b, 0}, {GET8, 0, 0}, {GET8, 0, 0}}; break;
        case 4: ops = {{SEEKEND, 0, 0}, {GET8, 0, 0}, {SEEKEND, std::min(b, last), 0}, {READ, b, 0}, {SEEKCUR, -1, 0}, {GET32, 0, 0}}; break;
        case 5: ops = {{SEEKTOP, std::min(a, b), 0}, {ALIGN, 4, 0}, {MARK, 0, 0}, {PUT8, 1, 0}, {PUT8, 2, 0}, {TOMARK, 0, 0}, {READ, 2, 0}}; break;
        default: ops = {{WRITEAT, b, mid}, {WRITEAT, 3, last}, {SEEKTO, mid, 0}, {GET16, 0, 0}, {READAT, a + b, 0}}; break;
        }
        for (auto &o : ops)
        {
            if (!allowed(r.m, o)) { k.skip(); return; }
            if (!r.step(k, o) || !r.same(k, show(o).c_str())) return;
        }
        k.out(r.m.b.size() * 8 + how);
        k.ok(true, "equal to the byte file");
    });
    static std::vector<int> HG = ex.thorough ? std::vector<int>{131072, 1048575, 1048576, 1048577, 3000000, 16777216, 16777217, 40000000} : std::vector<int>{131072, 1048575, 1048576, 1048577, 3000000};
    ex.add("huge", "streams of 0.1 to 3 million bytes (thorough: to 40 million), written as one block or taken from memory: whole and partial block reads and writes, absolute access, gaps and seeks at that size", HG.size() * 2 * 6, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int a = d.of(HG), build = (int)d.pick(2), how = (int)d.pick(6);
        Run r;
        if (build == 0) { if (!r.step(k, {WRITE, a, 3})) return; }
        else { const std::vector<uint8_t> init = bigblock(a, 3); r.s.init(init.data(), a); r.m.b = init; r.m.p = 0; }
        k.beat();
        if (k.verbose) k.note("stream of %d bytes (construction %d), scenario %d", a, build, how);
        if (!r.same(k, "construction")) return;
        std::vector<Op> ops;
        switch (how)
        {
        case 0: ops = {{SEEKTOP, 0, 0}, {READ, a, 0}, {GET8, 0, 0}}; break;
        case 1: ops = {{SEEKTOP, 1, 0}, {READ, a + 5, 0}, {SEEKEND, 0, 0}, {GET8, 0, 0}}; break;
        case 2: ops = {{SEEKTOP, 7, 0}, {WRITE, a, 5}, {READAT, a, 3}, {GETAT, a, 0}}; break;
        case 3: ops = {{WRITEAT, a, a + 10}, {READAT, 2 * a, 5}, {SEEKTOP, a + 9, 0}, {GET32, 0, 0}}; break;
        case 4: ops = {{PUTAT, 2 * a, 9}, {GETAT, 2 * a, 0}, {GETAT, 2 * a - 1, 0}, {SEEKTOP, 2 * a, 0}, {GET8, 0, 0}, {GET8, 0, 0}}; break;
        default: ops = {{SEEKEND, a - 1, 0}, {SEEKCUR, a / 2, 0}, {GET32, 0, 0}, {PUT8, 3, 0}, {SEEKCUR, -(a / 2), 0}, {READ, a, 0}}; break;
        }
        for (auto &o : ops)
        {
            if (!allowed(r.m, o)) { k.skip(); return; }
            if (!r.step(k, o) || !r.same(k, show(o).c_str())) return;
            k.beat();
        }
        k.out(r.m.b.size() * 8 + how);
        k.ok(true, "equal to the byte file");
    }, 1);
    // every size in turn: a block of exactly n bytes, a seek by exactly n, an absolute position of exactly n
    static std::vector<int> EV;
    for (int n = 0; n <= (ex.thorough ? 20000 : 5000); n++) EV.push_back(n);
    for (int e = 12; e <= 20; e++) for (int q = -2; q <= 2; q++) EV.push_back((1 << e) + q);
    for (int n : {10000, 44100, 48000, 50000, 64000, 99999, 100000, 123456, 640 * 480, 1000000}) EV.push_back(n);
    ex.add("every-size", "every size n = 0..5000 (thorough 20000), 2^12..2^20 and neighbours: blocks of n bytes written and read at the cursor, absolutely and from memory, seeks by n from every origin, alignment to n, on streams of 0, 3 and n bytes", EV.size() * 8, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int n = d.of(EV), how = (int)d.pick(8);
        Run r;
        std::vector<Op> ops;
        if (how >= 4) // a stream of n + 3 bytes from memory
        {
            std::vector<uint8_t> init = bigblock(n + 3, 2);
            r.s.init(init.data(), n + 3); r.m.b = init; r.m.p = 0;
            if (!r.same(k, "construction from memory")) return;
        }
        switch (how)
        {
        case 0: ops = {{WRITE, n, 3}, {PUT8, 9, 0}, {SEEKTOP, 0, 0}, {READ, n, 0}, {GET8, 0, 0}, {READ, n, 0}}; break;
        case 1: ops = {{WRITE, 3, 1}, {WRITE, n, 3}, {WRITE, 2, 1}, {SEEKTOP, 3, 0}, {READ, n, 0}, {GET16, 0, 0}, {SEEKTOP, 1, 0}, {WRITE, n, 6}, {GET8, 0, 0}}; break;
        case 2: ops = {{WRITEAT, n, 0}, {WRITEAT, n, 5}, {READAT, n, 0}, {READAT, n, 5}, {READAT, n, 9}, {GET8, 0, 0}}; break;
        case 3: ops = {{WRITEAT, 4, n}, {PUTAT, n, 7}, {GETAT, n, 0}, {GETAT, n + 4, 0}, {PUTAT, n + 4, 8}, {SEEKTOP, n, 0}, {GET32, 0, 0}}; break;
        case 4: ops = {{SEEKTOP, n, 0}, {GET8, 0, 0}, {SEEKTO, n, 0}, {PUT8, 5, 0}, {SEEKCUR, -n, 0}, {GET8, 0, 0}, {SEEKCUR, n, 0}, {GET8, 0, 0}}; break;
        case 5: ops = {{SEEKEND, n, 0}, {GET8, 0, 0}, {READ, n, 0}, {SEEKEND, n + 2, 0}, {SEEKCUR, n, 0}, {MARK, 0, 0}, {GET16, 0, 0}, {TOMARK, 0, 0}, {PUT8, 4, 0}}; break;
        case 6: ops = {{READ, n, 0}, {READ, n, 0}, {SEEKTOP, 1, 0}, {READ, n + 1, 0}, {WRITE, n, 4}, {READAT, n, 2}}; break;
        default: if (n) ops = {{SEEKTOP, n ? 1 : 0, 0}, {ALIGN, n, 0}, {GET8, 0, 0}, {SEEKTOP, n, 0}, {ALIGN, n, 0}, {SEEKTOP, n, 0}, {ALIGN, 2, 0}, {GET8, 0, 0}}; break;
        }
        if (k.verbose) k.note("size %d, scenario %d", n, how);
        for (auto &o : ops)
        {
            if (!allowed(r.m, o)) { k.skip(); return; }
            if (!r.step(k, o) || !r.same(k, show(o).c_str())) return;
        }
        k.out(r.m.b.size() * 8 + how);
        k.ok(true, "equal to the byte file");
    }, 16);
    ex.add("alignments", "alignment to every a = 1..66, 100, 128, 256, 512, 1000 from every cursor position 0..600 of a stream of 2000 bytes", 71 * 601, [=](mc::Ctx &k, uint64_t i) {
        static const int MORE[5] = {100, 128, 256, 512, 1000};
        const int a0 = (int)(i % 71), at = (int)(i / 71), a = a0 < 66 ? a0 + 1 : MORE[a0 - 66];
        Run r;
        const std::vector<uint8_t> init = bigblock(2000, 2);
        r.s.init(init.data(), 2000); r.m.b = init; r.m.p = 0;
        if (k.verbose) k.note("align %d from %d", a, at);
        for (const Op &o : {Op{SEEKTOP, at, 0}, Op{ALIGN, a, 0}, Op{GET8, 0, 0}, Op{ALIGN, a, 0}, Op{PUT8, 5, 0}})
            if (!r.step(k, o) || !r.same(k, show(o).c_str())) return;
        k.out(r.m.p);
    });
    static const int RN[] = {0, 1, 2, 3, 5, 64, 300};
    ex.add("reinit", "every sequence of two operations, byte orders set, then (re-)initialisation without data, with a size only, or with data of seven sizes, then every operation: contents given, size, cursor 0, default byte order", S * S * 4 * 3 * 7 * F, [=](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const Op after = FULL[d.pick(F)];
        const int n = RN[d.pick(7)], how = (int)d.pick(3), en = (int)d.pick(4);
        const Op o[2] = {SMALL[d.pick(S)], SMALL[d.pick(S)]};
        if (how == 0 && n) return k.skip();
        Run r;
        for (auto &q : o)
        {
            if (!allowed(r.m, q)) return k.skip();
            if (!r.step(k, q)) return;
        }
        if (en & 1) r.s.setReadEndian(MS::BIG);
        if (en & 2) r.s.setWriteEndian(MS::BIG);
        if (k.verbose) k.note("%s %s, byte orders %d, initialisation form %d with size %d, then %s", show(o[0]).c_str(), show(o[1]).c_str(), en, how, n, show(after).c_str());
        const std::vector<uint8_t> old = r.m.b, data = bigblock(n + 1, 9);
        if (how == 0) r.s.init(); else if (how == 1) r.s.init(NULL, n); else r.s.init(data.data(), n);
        r.m.p = r.m.mark = r.smark = 0;
        if (how == 1)
        {
            // contents of a stream made by size only: zeroes, or what was there before
            if ((int)r.s.buffer().size() != n) return k.fail("initialised with size %d, size is %zu", n, r.s.buffer().size());
            for (int j = 0; j < n; j++) if (r.s.buffer()[j] && (j >= (int)old.size() || r.s.buffer()[j] != old[j])) return k.fail("initialised with size %d only, byte %d is %d", n, j, r.s.buffer()[j]);
            r.m.b = r.s.buffer();
        }
        else r.m.b.assign(data.begin(), data.begin() + (how ? n : 0));
        if (!r.same(k, "initialisation")) return;
        if (!allowed(r.m, after)) return k.skip();
        if (!r.step(k, after) || !r.same(k, show(after).c_str())) return;
        const size_t at = r.m.p;
        r.s.putUint16(0x0102);
        r.m.writeAt(at, {2, 1});
        r.m.p += 2;
        if (!r.same(k, "a 16-bit value in the default byte order")) return;
        r.s.seekTo(at);
        const unsigned g16 = r.s.getUint16();
        if (g16 != 0x0102) return k.fail("a 16-bit value read in the default byte order is %04x", g16);
        k.call(2);
        k.out(r.m.b.size() * 4 + how);
        k.ok(true, "equal to the byte file");
    });
    ex.add("values", "every byte value: put, overwrite, absolute access, block", 256 * 4, [=](mc::Ctx &k, uint64_t i) {
        const int v = (int)(i & 255), how = (int)(i >> 8);
        Run r;
        std::vector<Op> ops;
        if (how == 0) ops = {{PUT8, v, 0}, {PUT8, 255 - v, 0}, {SEEKTOP, 0, 0}, {GET8, 0, 0}, {GETI8, 0, 0}};
        if (how == 1) ops = {{WRITE, 3, 0}, {SEEKTOP, 1, 0}, {PUT8, v, 0}, {SEEKCUR, -1, 0}, {GETI8, 0, 0}, {GET8, 0, 0}};
        if (how == 2) ops = {{PUTAT, 2, v}, {GETAT, 2, 0}, {GETAT, 0, 0}, {GETAT, 300, 0}, {GET32, 0, 0}};
        if (how == 3) ops = {{PUTI8, (int8_t)v, 0}, {PUTI8, v, 0}, {SEEKEND, 1, 0}, {GET16, 0, 0}, {GET16, 0, 0}};
        for (auto &o : ops) if (!r.step(k, o) || !r.same(k, show(o).c_str())) return;
        k.ok(true, "equal to the byte file");
    });
}
MC_MAIN(setup)
