// C25: typed stream values in either byte order (built with AddressSanitizer).
#include "ref.hpp"
#include "streammodel.hpp"
#include <memory>
typedef CS::MemoryStream MS;
enum Ty { U8, I8, U16, I16, U32, I32, U64, I64, F32, F64, P32, P64, NTY };
static const int W[NTY] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 4, 8};
static const char *NM[NTY] = {"Uint8", "Int8", "Uint16", "Int16", "Uint32", "Int32", "Uint64", "Int64", "Float", "Double", "Pointer32", "Pointer64"};
static void put(MS &s, Ty t, uint64_t v)
{
    switch (t)
    {
    case U8: s.putUint8((uint8_t)v); break;
    case I8: s.putInt8((int8_t)v); break;
    case U16: s.putUint16((uint16_t)v); break;
    case I16: s.putInt16((int16_t)v); break;
    case U32: case P32: s.putUint32((uint32_t)v); break;
    case I32: s.putInt32((int32_t)v); break;
    case U64: case P64: s.putUint64(v); break;
    case I64: s.putInt64((int64_t)v); break;
    case F32: { float f; const uint32_t u = (uint32_t)v; memcpy(&f, &u, 4); s.putFloat(f); break; }
    default: { double f; memcpy(&f, &v, 8); s.putDouble(f); break; }
    }
}
// value read, as the 64-bit pattern of the C++ value (sign-extended for signed types)
static uint64_t get(MS &s, Ty t)
{
    switch (t)
    {
    case U8: return s.getUint8();
    case I8: return (uint64_t)(int64_t)s.getInt8();
    case U16: return s.getUint16();
    case I16: return (uint64_t)(int64_t)s.getInt16();
    case U32: return s.getUint32();
    case I32: return (uint64_t)(int64_t)s.getInt32();
    case U64: return s.getUint64();
    case I64: return (uint64_t)s.getInt64();
    case F32: { const float f = s.getFloat(); uint32_t u; memcpy(&u, &f, 4); return u; }
    case F64: { const double f = s.getDouble(); uint64_t u; memcpy(&u, &f, 8); return u; }
    case P32: return s.getPointer32();
    default: return s.getPointer64();
    }
}
static uint64_t mask(Ty t) { return W[t] == 8 ? ~0ull : (1ull << (8 * W[t])) - 1; }
static uint64_t extend(Ty t, uint64_t v)
{
    v &= mask(t);
    switch (t)
    {
    case I8: return (uint64_t)(int64_t)(int8_t)v;
    case I16: return (uint64_t)(int64_t)(int16_t)v;
    case I32: return (uint64_t)(int64_t)(int32_t)v;
    default: return v;
    }
}
static bool isnanPattern(Ty t, uint64_t v)
{
    if (t == F32) return (v & 0x7f800000u) == 0x7f800000u && (v & 0x7fffffu);
    if (t == F64) return (v & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (v & 0xfffffffffffffull);
    return false;
}
static std::vector<uint8_t> layout(Ty t, uint64_t v, bool big)
{
    std::vector<uint8_t> b(W[t]);
    for (int i = 0; i < W[t]; i++) b[i] = (uint8_t)(v >> (8 * (big ? W[t] - 1 - i : i)));
    return b;
}
static uint64_t fromBytes(Ty t, const std::vector<uint8_t> &b, bool big)
{
    uint64_t v = 0;
    for (int i = 0; i < W[t]; i++) v |= (uint64_t)b[i] << (8 * (big ? W[t] - 1 - i : i));
    return extend(t, v);
}
// one write + read at a position inside or at the end of an existing stream, all four order combinations
static void one(mc::Ctx &k, Ty t, uint64_t v, int pre, int post)
{
    for (int o = 0; o < 4; o++)
    {
        const bool wb = o & 1, rb = o & 2;
        MS s;
        FileModel m;
        for (int i = 0; i < pre + post; i++) { s.putUint8((uint8_t)(0x40 + i)); }
        for (int i = 0; i < pre + post; i++) m.b.push_back((uint8_t)(0x40 + i));
        s.fseek(pre, MS::TOP);
        s.setWriteEndian(wb ? MS::BIG : MS::LITTLE);
        s.setReadEndian(rb ? MS::BIG : MS::LITTLE);
        put(s, t, v);
        k.call(2);
        const std::vector<uint8_t> want = layout(t, v, wb);
        const bool nan = isnanPattern(t, v & mask(t));
        m.writeAt(pre, want);
        if (k.verbose) k.note("put%s(0x%llx) %s-endian at %d of %d bytes, read %s-endian", NM[t], (unsigned long long)v, wb ? "big" : "little", pre, pre + post, rb ? "big" : "little");
        if (s.ftell() != (size_t)(pre + W[t])) { k.fail("put%s: cursor %zu instead of %d", NM[t], s.ftell(), pre + W[t]); return; }
        if (s.buffer().size() != m.b.size()) { k.fail("put%s: size %zu instead of %zu", NM[t], s.buffer().size(), m.b.size()); return; }
        for (size_t i = 0; i < m.b.size(); i++)
            if (s.buffer()[i] != m.b[i] && !(nan && (long)i >= pre && (long)i < pre + W[t])) { k.fail("put%s(0x%llx) %s-endian: byte %zu is %02x, expected %02x", NM[t], (unsigned long long)v, wb ? "big" : "little", i, s.buffer()[i], m.b[i]); return; }
        s.seekTo(pre);
        const uint64_t g = get(s, t), w = fromBytes(t, want, rb);
        if (g != w && !(isnanPattern(t, w) && isnanPattern(t, g))) { k.fail("get%s %s-endian after put%s(0x%llx) %s-endian gives 0x%llx, expected 0x%llx", NM[t], rb ? "big" : "little", NM[t], (unsigned long long)v, wb ? "big" : "little", (unsigned long long)g, (unsigned long long)w); return; }
        if (wb == rb && g != extend(t, v) && !nan) { k.fail("value not preserved"); return; }
        if (s.ftell() != (size_t)(pre + W[t])) { k.fail("get%s: cursor %zu instead of %d", NM[t], s.ftell(), pre + W[t]); return; }
        k.w->cmps += 5 + m.b.size();
        k.out(g * 31 + o);
    }
}
static std::vector<uint64_t> patterns(int bytes, const std::vector<int> &al)
{
    std::vector<uint64_t> r;
    uint64_t n = 1;
    for (int i = 0; i < bytes; i++) n *= al.size();
    for (uint64_t i = 0; i < n; i++)
    {
        uint64_t v = 0, q = i;
        for (int j = 0; j < bytes; j++) { v |= (uint64_t)al[q % al.size()] << (8 * j); q /= al.size(); }
        r.push_back(v);
    }
    return r;
}
static void strCase(mc::Ctx &k, const std::string &str, bool big, int pre, int post)
{
    MS s;
    for (int i = 0; i < pre + post; i++) s.putUint8((uint8_t)(0x40 + i % 64));
    s.fseek(pre, MS::TOP);
    s.setWriteEndian(big ? MS::BIG : MS::LITTLE);
    s.setReadEndian(big ? MS::BIG : MS::LITTLE);
    s.putString(str);
    const size_t end = s.ftell();
    s.putUint16(0xBEEF); // neighbour must survive
    s.seekTo(pre);
    const std::string g = s.get_string();
    k.call(2);
    if (k.verbose) k.note("string of %zu bytes, %s-endian, at %d", str.size(), big ? "big" : "little", pre);
    k.ok(g == str, "string read back unchanged");
    k.ok(s.ftell() == end, "string read consumes exactly the bytes written");
    k.ok(s.getUint16() == 0xBEEF, "value after the string");
    for (int i = 0; i < pre; i++) k.ok(s.buffer()[i] == 0x40 + i % 64, "bytes before the string untouched");
    k.out(end * 3 + str.size());
}
static double freeMemory()
{
    double best = 0;
    char line[256];
    if (FILE *f = fopen("/proc/meminfo", "r"))
    {
        while (fgets(line, sizeof line, f)) { unsigned long long kb; if (sscanf(line, "MemAvailable: %llu", &kb) == 1) best = kb * 1024.0; }
        fclose(f);
    }
    if (FILE *f = fopen("/sys/fs/cgroup/memory.max", "r"))
    {
        unsigned long long m;
        if (fgets(line, sizeof line, f) && sscanf(line, "%llu", &m) == 1) best = std::min(best, (double)m);
        fclose(f);
    }
    return best;
}
void setup(mc::Explorer &ex)
{
    static std::vector<uint64_t> P4, P8, F4, D8;
    P4 = patterns(4, ex.thorough ? std::vector<int>{0, 1, 0x7f, 0x80, 0xff, 0x55, 0x10, 0xfe, 0xa5, 2, 4, 8, 0x20, 0x40, 9, 10, 13, 0x1a, 0x41} : std::vector<int>{0, 1, 0x7f, 0x80, 0xff, 0x5a, 0x0a, 0x0d, 0x1a, 0x20});
    P8 = patterns(8, ex.thorough ? std::vector<int>{0, 0x7f, 0x80, 0xff, 0x3c, 0x0a} : std::vector<int>{0, 0x7f, 0x80, 0xff});
    for (int e = 0; e < 256; e++) for (int m = 0; m < 64; m++) for (int sgn = 0; sgn < 2; sgn++) F4.push_back((uint64_t)sgn << 31 | (uint64_t)e << 23 | (uint64_t)(m & 31) << 18 | (m & 32 ? 0x2a5f1 : 0));
    for (int e = 0; e < 2048; e++) for (int m = 0; m < 32; m++) for (int sgn = 0; sgn < 2; sgn++) D8.push_back((uint64_t)sgn << 63 | (uint64_t)e << 52 | (uint64_t)(m & 15) << 48 | (m & 16 ? 0x123456789abcull : 0));
    ex.add("8bit", "every 8-bit value, signed and unsigned, four byte-order combinations, appending and overwriting", 256 * 2 * 3, [](mc::Ctx &k, uint64_t i) { mc::Mixed d(i); const Ty t = d.pick(2) ? I8 : U8; const int p = (int)d.pick(3); one(k, t, d.v, p, p == 2 ? 4 : 0); });
    ex.add("16bit", "every 16-bit value, signed and unsigned", 65536 * 2 * 3, [](mc::Ctx &k, uint64_t i) { mc::Mixed d(i); const Ty t = d.pick(2) ? I16 : U16; const int p = (int)d.pick(3); one(k, t, d.v, p, p == 2 ? 4 : p); });
    ex.add("32bit", "every 32-bit value whose bytes come from a ten-byte alphabet (thorough nineteen), signed, unsigned and pointer", P4.size() * 3 * 3, [](mc::Ctx &k, uint64_t i) { mc::Mixed d(i); const int q = (int)d.pick(3); const int p = (int)d.pick(3); one(k, q == 0 ? U32 : q == 1 ? I32 : P32, P4[d.v], p, p == 2 ? 7 : p); });
    ex.add("64bit", "every 64-bit value whose bytes come from {00,7f,80,ff} (thorough six values), signed, unsigned and pointer", P8.size() * 3 * 3, [](mc::Ctx &k, uint64_t i) { mc::Mixed d(i); const int q = (int)d.pick(3); const int p = (int)d.pick(3); one(k, q == 0 ? U64 : q == 1 ? I64 : P64, P8[d.v], p, p == 2 ? 11 : p); });
    ex.add("bits", "every 64-bit value with one or two bits set or cleared, all integer types", 64 * 64 * 2 * 8, [](mc::Ctx &k, uint64_t i) { mc::Mixed d(i); const int a = (int)d.pick(64), b = (int)d.pick(64), inv = (int)d.pick(2); uint64_t v = 1ull << a | 1ull << b; if (inv) v = ~v; one(k, (Ty)d.v, v, 1, 3); });
    ex.add("float", "float patterns: every exponent x 64 mantissas x sign (denormals, infinities, NaNs included)", F4.size() * 2, [](mc::Ctx &k, uint64_t i) { mc::Mixed d(i); const int p = (int)d.pick(2); one(k, F32, F4[d.v], p * 3, p * 5); });
    ex.add("double", "double patterns: every exponent x 32 mantissas x sign", D8.size() * 2, [](mc::Ctx &k, uint64_t i) { mc::Mixed d(i); const int p = (int)d.pick(2); one(k, F64, D8[d.v], p * 3, p * 5); });
    // sequences of typed values, orders changed between them
    ex.add("sequences", "every sequence of three typed values x byte orders chosen per value, written then read in order, and truncated reads past the end give zero bytes", (uint64_t)NTY * NTY * NTY * 8, [](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const Ty t[3] = {(Ty)d.pick(NTY), (Ty)d.pick(NTY), (Ty)d.pick(NTY)};
        const unsigned o = (unsigned)d.v;
        static const uint64_t V[3] = {0x8123456789abcdefull, 0x00000000fedc80ffull, 0x7ff0e1c2a3b48596ull};
        MS s;
        std::vector<uint8_t> all;
        for (int j = 0; j < 3; j++)
        {
            s.setWriteEndian(o >> j & 1 ? MS::BIG : MS::LITTLE);
            put(s, t[j], V[j]);
            const auto b = layout(t[j], V[j], o >> j & 1);
            all.insert(all.end(), b.begin(), b.end());
        }
        k.call(6);
        if (k.verbose) k.note("%s, %s, %s, orders %u", NM[t[0]], NM[t[1]], NM[t[2]], o);
        k.ok(s.buffer() == all, "byte layout of the sequence");
        s.seekTo(0);
        for (int j = 0; j < 3; j++)
        {
            s.setReadEndian(o >> j & 1 ? MS::BIG : MS::LITTLE);
            const uint64_t g = get(s, t[j]);
            k.ok(g == extend(t[j], V[j]), "value read back in sequence");
        }
        k.ok(s.feof() && s.ftell() == all.size(), "sequence fully consumed");
        // a read of each width that runs past the end sees zero bytes and stops at the end
        const int w = W[t[0]];
        for (int have = 0; have < w; have++)
        {
            MS q;
            for (int j = 0; j < have; j++) q.putUint8((uint8_t)(0x91 + j));
            q.seekTo(0);
            q.setReadEndian(o & 1 ? MS::BIG : MS::LITTLE);
            std::vector<uint8_t> b(w, 0);
            for (int j = 0; j < have; j++) b[j] = (uint8_t)(0x91 + j);
            k.ok(get(q, t[0]) == fromBytes(t[0], b, o & 1), "truncated read");
            k.ok(q.ftell() == (size_t)have, "truncated read stops at the end");
        }
    });
    static std::vector<int> OFF;
    for (int j = 0; j < 600; j++) OFF.push_back(j);
    for (int b : {1 << 10, 1 << 12, 1 << 15, 1 << 16}) for (int j = -9; j <= 9; j++) OFF.push_back(b + j);
    ex.add("offsets", "every type at every offset 0..599 and around 2^10, 2^12, 2^15, 2^16, appended, overlapping the end, and overwriting", OFF.size() * NTY * 3, [](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const Ty t = (Ty)d.pick(NTY);
        const int q = (int)d.pick(3), pre = OFF[d.v];
        static const int POST[3] = {0, 1, 9};
        one(k, t, 0x8123456789abcdefull ^ (uint64_t)pre * 0x9e3779b97f4a7c15ull, pre, POST[q]);
    });
    static std::vector<size_t> SZ = {0, 1, 4, 100, 247, 248, 252, 255, 256, 257, 65520, 65535, 65536, 65537, 70000, 16777200, 16777216, 16777300};
    ex.add("pointers", "back-patched 32/64-bit pointer fields: every stream size of a list up to 2^24, field at the start, in the middle, nested two, both write orders, read order equal or opposite", SZ.size() * 2 * 2 * 2 * 3, [](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const size_t n = SZ[d.pick(SZ.size())];
        const bool big = d.pick(2), p64 = d.pick(2), rbig = d.pick(2);
        const int pre = (int)d.v * 5;
        MS s;
        s.setWriteEndian(big ? MS::BIG : MS::LITTLE);
        s.setReadEndian(rbig ? MS::BIG : MS::LITTLE);
        std::vector<uint8_t> a(pre, 0x33), pay(n, 0x77);
        if (pre) s.write(a.data(), a.size());
        const size_t p = p64 ? s.putPointer64() : s.putPointer32();
        k.call(4);
        k.ok(p == (size_t)pre, "pointer field position");
        const int w = p64 ? 8 : 4;
        k.ok(s.ftell() == (size_t)pre + w && s.buffer().size() == (size_t)pre + w, "pointer field reserved");
        for (int j = 0; j < w; j++) k.ok(s.buffer()[pre + j] == 0, "reserved field is zero");
        if (n) s.write(pay.data(), n);
        const size_t p2 = s.putPointer32();
        const size_t size = s.buffer().size(), cur = size / 2;
        s.seekTo(cur);
        if (p64) s.adjustPointer64(p); else s.adjustPointer32(p);
        k.ok(s.ftell() == cur, "patching does not move the cursor");
        k.ok(s.buffer().size() == size, "patching does not change the size");
        const auto want = layout(p64 ? P64 : P32, size, big);
        for (int j = 0; j < w; j++) k.ok(s.buffer()[pre + j] == want[j], "patched field holds the stream size in the write order");
        for (int j = 0; j < pre; j++) k.ok(s.buffer()[j] == 0x33, "bytes before the field untouched");
        bool clean = true;
        for (size_t j = 0; j < n; j++) clean &= s.buffer()[pre + w + j] == 0x77;
        for (int j = 0; j < 4; j++) clean &= s.buffer()[p2 + j] == 0;
        k.ok(clean, "bytes after the field untouched");
        auto field = [&] { // as a reader set to the writer's order sees it
            s.seekTo(p);
            s.setReadEndian(big ? MS::BIG : MS::LITTLE);
            const size_t r = p64 ? s.getPointer64() : s.getPointer32();
            s.setReadEndian(rbig ? MS::BIG : MS::LITTLE);
            return r;
        };
        k.ok(field() == size, "pointer read back");
        if (k.verbose) k.note("field at %d, stream size %zu, %s-endian, %d bit", pre, size, big ? "big" : "little", w * 8);
        k.out(size * 4 + big * 2 + p64);
        // growing after the patch leaves the field, a second patch updates it
        s.fseek(0, MS::END); s.getUint8();
        s.putUint8(1);
        k.ok(field() == size, "field unchanged by later writes");
        if (p64) s.adjustPointer64(p); else s.adjustPointer32(p);
        k.ok(field() == size + 1, "second patch");
        k.beat();
    });
    ex.add("repatched", "a pointer field written over any earlier content (every byte value), every width, order and position", 256 * 2 * 2 * 9, [](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const uint8_t fill = (uint8_t)d.pick(256);
        const bool big = d.pick(2), p64 = d.pick(2);
        const size_t p = d.v;
        const std::vector<uint8_t> a(300, fill);
        MS s(a.data(), a.size());
        s.setWriteEndian(big ? MS::BIG : MS::LITTLE);
        s.seekTo(7);
        if (p64) s.adjustPointer64(p); else s.adjustPointer32(p);
        k.call(2); k.out(i);
        k.ok(s.ftell() == 7 && s.buffer().size() == 300, "patching moves neither the cursor nor the end");
        const auto want = layout(p64 ? P64 : P32, 300, big);
        for (size_t j = 0; j < 300; j++)
            if (s.buffer()[j] != (j >= p && j < p + want.size() ? want[j - p] : fill)) return k.fail("field at %zu over bytes %u, %s-endian, %zu bytes: byte %zu is %u", p, fill, big ? "big" : "little", want.size(), j, s.buffer()[j]);
    });
    // streams beyond 2^31 bytes: the cursor is an int, the buffer and 64-bit pointer fields are not
    static std::vector<size_t> HUGE_ = {((size_t)1 << 32) + 0x01020305};
    ex.mem_gb = 12;
    ex.add("huge-pointers", "64-bit pointer field of a stream of more than 2^32 bytes, both orders (skipped with less than 10 GB of free memory)", HUGE_.size(), [](mc::Ctx &k, uint64_t i) {
        if (freeMemory() < 10e9) return k.skip();
        MS s;
        try { s.init(NULL, HUGE_[i]); } catch (const std::bad_alloc &) { return k.skip(); }
        k.beat();
        for (int big = 0; big < 2; big++)
        {
            s.setWriteEndian(big ? MS::BIG : MS::LITTLE);
            s.adjustPointer64(big ? 8 : 0);
            s.put_at(HUGE_[i] - 1 - big, (uint8_t)(0xa5 + big));
            k.call(2);
            const auto want = layout(P64, HUGE_[i], big);
            for (int j = 0; j < 8; j++) k.ok(s.buffer()[(big ? 8 : 0) + j] == want[j], "patched field holds the stream size in the write order");
            k.ok(s.get_at(HUGE_[i] - 1 - big) == 0xa5 + big && s.buffer().size() == HUGE_[i], "bytes at absolute positions");
        }
        k.out(s.buffer().size());
        k.beat();
    });
    static const char AL[5] = {'a', 'Z', '\0', (char)0xff, '\n'};
    const int len = ex.thorough ? 7 : 6;
    uint64_t N = 0, pw = 1;
    for (int l = 0; l <= len; l++) { N += pw; pw *= 5; }
    ex.add("strings", "every string up to length 6 (thorough 7) over {a, Z, NUL, 0xff, newline}, both orders, appended or overwriting", N * 2 * 2, [](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const bool big = d.pick(2);
        const int pre = d.pick(2) ? 3 : 0;
        uint64_t v = d.v, cnt = 1;
        int l = 0;
        while (v >= cnt) { v -= cnt; cnt *= 5; l++; }
        std::string s;
        for (int j = 0; j < l; j++) { s += AL[v % 5]; v /= 5; }
        strCase(k, s, big, pre, pre ? 20 : 0);
    });
    ex.add("string-bytes", "every string of one or two bytes (all byte values), both orders", (256 + 65536) * 2, [](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const bool big = d.pick(2);
        std::string s;
        if (d.v < 256) s = std::string(1, (char)d.v);
        else { s += (char)((d.v - 256) & 255); s += (char)((d.v - 256) >> 8); }
        strCase(k, s, big, d.v % 3, 0);
    });
    ex.add("long-strings", "strings of every length 0..600 and around 2^16, both orders", 611 * 2, [](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const bool big = d.pick(2);
        const size_t L = d.v < 601 ? d.v : 65531 + (d.v - 601);
        std::string s;
        for (size_t j = 0; j < L; j++) s += (char)(j * 7 + L);
        strCase(k, s, big, 0, 0);
        // substrings with an agreed length (terminator included)
        MS q;
        q.putSubstr(s, L + 1);
        const size_t e = q.ftell();
        q.putUint8(0x5c);
        q.seekTo(0);
        k.ok(q.getSubstr((int)L + 1) == s, "substring read back");
        k.ok(q.ftell() == e && q.getUint8() == 0x5c, "substring consumes what was written");
    });
    ex.add("fields", "fixed-length string fields: every text length 0..12 x field length 0..text+1 (terminator included) x read length -2..field length, read from every start", 13 * 14 * 16 * 13, [](mc::Ctx &k, uint64_t i) {
        mc::Mixed d(i);
        const int L = (int)d.pick(13), len = (int)d.pick(14), n = (int)d.pick(16) - 2, st = (int)d.pick(13);
        if (len > L + 1 || n > len || st > len - (n > 0 ? n : 0)) return k.skip();
        std::string s, want;
        for (int j = 0; j < L; j++) s += (char)(j * 19 + L + 200);
        if (len > 0) { want = s.substr(0, len - 1); want += '\0'; }
        MS q;
        q.putUint8(0x5a);
        q.putSubstr(s, (size_t)len);
        k.call(2);
        k.ok(q.ftell() == (size_t)len + 1 && q.buffer().size() == (size_t)len + 1, "a field occupies exactly its length");
        if (k.bad) return;
        k.ok(q.buffer()[0] == 0x5a && (len == 0 || !memcmp(q.buffer().data() + 1, want.data(), len)), "a field holds the text and a terminator");
        q.putUint8(0x5c);
        q.seekTo(1 + st);
        const std::string got = q.getSubstr(n);
        k.ok(got == (n > 0 ? want.substr(st, n - 1) : std::string()), "a field read returns the bytes before its terminator");
        k.ok(q.ftell() == (size_t)(1 + st + (n > 0 ? n : 0)), "a field read consumes exactly its length");
    });
    ex.add("defaults", "a new stream reads and writes little-endian; the two settings are independent and init resets them", 1, [](mc::Ctx &k, uint64_t) {
        MS s;
        s.putUint32(0x01020304);
        k.ok(s.buffer()[0] == 4 && s.buffer()[3] == 1, "little-endian by default");
        s.seekTo(0);
        k.ok(s.getUint32() == 0x01020304, "little-endian read by default");
        s.setReadEndian(MS::BIG);
        s.seekTo(0);
        k.ok(s.getUint32() == 0x04030201, "read order changed alone");
        s.putUint16(0x0a0b);
        k.ok(s.buffer()[4] == 0x0b, "write order unaffected by the read order");
        s.setWriteEndian(MS::BIG);
        s.setReadEndian(MS::LITTLE);
        s.putUint16(0x0a0b);
        k.ok(s.buffer()[6] == 0x0a, "write order changed alone");
        s.init();
        s.putUint16(0x0c0d);
        s.seekTo(0);
        k.ok(s.buffer().size() == 2 && s.buffer()[0] == 0x0d && s.getUint16() == 0x0c0d, "init resets both orders");
        const uint8_t raw[4] = {1, 2, 3, 4};
        MS m(raw, 4);
        k.ok(m.getUint32() == 0x04030201 && m.feof(), "stream over memory");
        k.call(12);
    });
}
MC_MAIN(setup)
