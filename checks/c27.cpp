// C27: all interleavings of two library computations. The colour library is compiled with -fsanitize=thread
// instrumentation (every memory access and function entry becomes a call), but linked against the runtime below instead of
// the tool's: a controlled scheduler that runs one thread at a time and switches only where the schedule says, a
// happens-before race detector over all memory the two computations share, and scheduler-aware locks and guards.
#include "mc.hpp"
#include "opsimage.hpp"
#include <map>
#include <memory>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <unordered_map>
static const OpsApi *api;
static Image        *img;
static uintptr_t     ro_lo, ro_hi; // read-only part of ops.so
// ------------------------------------------------------------------------------------------------------- scheduler
static __thread int self = -1;
typedef uint64_t VC[2];
struct Th
{
    sem_t    sem;
    bool     done, started;
    void    *blocked; // object waited for
    uint64_t pts, shared, swrites, funcs;
    VC       vc;
    char    *stk;
    std::map<char *, size_t> own; // live heap blocks
    int      item_op, item_v;
    unsigned char *out;
    size_t   len;
    int      changed;
};
static const size_t STK = 1 << 20, CAP = 1 << 16;
static Th           th[2];
static sem_t        done_sem;
struct Sw { int t; uint64_t at; };
static std::vector<Sw> plan;
static size_t          plan_pos;
static bool            count_funcs;
static bool            deadlock;
static std::string     race;
static uint64_t        transitions, switches;
static std::set<uintptr_t> *acc_rec, *wr_rec; // footprint of a solo run
static void foot(void *p, size_t n, bool wr)
{
    if (!acc_rec) return;
    const int me = self;
    self = -1;
    for (size_t i = 0; i < n; i++) { acc_rec->insert((uintptr_t)p + i); if (wr) wr_rec->insert((uintptr_t)p + i); }
    self = me;
}
struct Cell { uint64_t w[2], r[2]; };
static std::unordered_map<uintptr_t, Cell> shadow;
struct Sync { VC vc; int owner; };
static std::map<void *, Sync> syncs;

static void hand(int to)
{
    switches++;
    const int me = self;
    sem_post(&th[to].sem);
    while (sem_wait(&th[me].sem)) {}
}
static inline bool runnable(int t) { return th[t].started && !th[t].done && !th[t].blocked; }
static void point()
{
    Th &t = th[self];
    t.pts++;
    transitions++;
    if (plan_pos < plan.size() && plan[plan_pos].t == self && t.pts == plan[plan_pos].at)
    {
        plan_pos++;
        if (runnable(1 - self)) hand(1 - self);
    }
}
// wait until the object is free
static void block(void *o)
{
    th[self].blocked = o;
    if (runnable(1 - self)) { hand(1 - self); return; }
    deadlock = true; // nobody can go on: end this run
    th[self].blocked = nullptr;
    const int me = self;
    self = -1;
    th[me].done = true;
    sem_post(&done_sem);
    pthread_exit(nullptr);
}
static void wake(void *o)
{
    if (th[1 - self].blocked == o) th[1 - self].blocked = nullptr;
}
static void acq(void *o)
{
    auto &s = syncs[o];
    for (int k = 0; k < 2; k++) if (s.vc[k] > th[self].vc[k]) th[self].vc[k] = s.vc[k];
}
static void rel(void *o)
{
    auto &s = syncs[o];
    for (int k = 0; k < 2; k++) if (th[self].vc[k] > s.vc[k]) s.vc[k] = th[self].vc[k];
    th[self].vc[self]++;
}
static inline bool priv(Th &t, char *a)
{
    if (a >= t.stk && a < t.stk + STK) return true; // stack and thread-local storage
    if (a >= (char *)t.out && a < (char *)t.out + CAP) return true; // where the harness collects the result
    auto i = t.own.upper_bound(a);
    if (i != t.own.begin())
    {
        --i;
        if (a < i->first + i->second) return true;
    }
    return false;
}
static void access(void *p, size_t n, bool wr)
{
    if (self < 0 || n == 0) return;
    Th &t = th[self];
    if ((uintptr_t)p >= ro_lo && (uintptr_t)p < ro_hi) return;
    if (priv(t, (char *)p)) return;
    const int me = self, ot = 1 - self;
    t.shared++;
    if (wr) t.swrites++;
    foot(p, n, wr);
    point();
    for (size_t i = 0; i < n; i++)
    {
        Cell &c = shadow[(uintptr_t)p + i];
        const bool conf = c.w[ot] > t.vc[ot] || (wr && c.r[ot] > t.vc[ot]);
        if (conf && race.empty())
        {
            char b[200];
            snprintf(b, sizeof b, "unsynchronised %s of shared memory (%s+0x%zx, %zu bytes) conflicts with a%s of the other thread", wr ? "write" : "read",
                img->shared(p) ? "library static" : "heap", img->shared(p) ? (size_t)((char *)p - img->ranges[0].p) : (size_t)p & 0xfff, n, c.w[ot] > t.vc[ot] ? " write" : " read");
            race = b;
        }
        if (wr) c.w[me] = t.vc[me]; else c.r[me] = t.vc[me];
    }
}
// ------------------------------------------------------------------------------------- instrumentation entry points
extern "C"
{
    void __tsan_init() {}
    void __tsan_func_entry(void *)
    {
        if (self < 0) return;
        th[self].funcs++;
        if (count_funcs) point();
    }
    void __tsan_func_exit() {}
#define RW(N)                                                                                                          \
    void __tsan_read##N(void *p) { access(p, N, false); }                                                              \
    void __tsan_write##N(void *p) { access(p, N, true); }                                                              \
    void __tsan_unaligned_read##N(void *p) { access(p, N, false); }                                                    \
    void __tsan_unaligned_write##N(void *p) { access(p, N, true); }                                                    \
    void __tsan_volatile_read##N(void *p) { access(p, N, false); }                                                     \
    void __tsan_volatile_write##N(void *p) { access(p, N, true); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_read_range(void *p, size_t n) { access(p, n, false); }
    void __tsan_write_range(void *p, size_t n) { access(p, n, true); }
    void __tsan_vptr_update(void *p, void *) { access(p, 8, true); }
    void __tsan_vptr_read(void *p) { access(p, 8, false); }
    static void at(void *p)
    {
        if (self < 0) return;
        if (!((uintptr_t)p >= ro_lo && (uintptr_t)p < ro_hi) && !priv(th[self], (char *)p)) { th[self].shared++; foot(p, 1, false); point(); }
        acq(p);
    }
    static void atr(void *p)
    {
        if (self < 0) return;
        th[self].swrites++;
        foot(p, 1, true);
        rel(p);
    }
#define AT(N, T)                                                                                                       \
    T __tsan_atomic##N##_load(const volatile T *p, int) { at((void *)p); return __atomic_load_n(p, 5); }               \
    void __tsan_atomic##N##_store(volatile T *p, T v, int) { at((void *)p); __atomic_store_n(p, v, 5); atr((void *)p); } \
    T __tsan_atomic##N##_exchange(volatile T *p, T v, int) { at((void *)p); T r = __atomic_exchange_n(p, v, 5); atr((void *)p); return r; } \
    T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int) { at((void *)p); T r = __atomic_fetch_add(p, v, 5); atr((void *)p); return r; } \
    T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int) { at((void *)p); T r = __atomic_fetch_sub(p, v, 5); atr((void *)p); return r; } \
    T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int) { at((void *)p); T r = __atomic_fetch_and(p, v, 5); atr((void *)p); return r; } \
    T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int) { at((void *)p); T r = __atomic_fetch_or(p, v, 5); atr((void *)p); return r; } \
    T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int) { at((void *)p); T r = __atomic_fetch_xor(p, v, 5); atr((void *)p); return r; } \
    T __tsan_atomic##N##_fetch_nand(volatile T *p, T v, int) { at((void *)p); T r = __atomic_fetch_nand(p, v, 5); atr((void *)p); return r; } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *c, T v, int, int) { at((void *)p); int r = __atomic_compare_exchange_n(p, c, v, 0, 5, 5); atr((void *)p); return r; } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *c, T v, int, int) { at((void *)p); int r = __atomic_compare_exchange_n(p, c, v, 0, 5, 5); atr((void *)p); return r; }
    AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
    void __tsan_atomic_thread_fence(int) {}
    void __tsan_atomic_signal_fence(int) {}

    void *__wrap_memcpy(void *d, const void *s, size_t n) { access((void *)s, n, false); access(d, n, true); return memcpy(d, s, n); }
    void *__wrap_memmove(void *d, const void *s, size_t n) { access((void *)s, n, false); access(d, n, true); return memmove(d, s, n); }
    void *__wrap_memset(void *d, int c, size_t n) { access(d, n, true); return memset(d, c, n); }
    int   __wrap_memcmp(const void *a, const void *b, size_t n) { access((void *)a, n, false); access((void *)b, n, false); return memcmp(a, b, n); }
    // locks
    static int lock(void *m)
    {
        if (self < 0) return 0;
        th[self].shared++;
        th[self].swrites++;
        foot(m, 1, true);
        point();
        while (syncs[m].owner) block(m);
        syncs[m].owner = self + 1;
        acq(m);
        return 0;
    }
    static int unlock(void *m)
    {
        if (self < 0) return 0;
        rel(m);
        syncs[m].owner = 0;
        wake(m);
        point();
        return 0;
    }
    int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { return lock(m); }
    int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (self >= 0 && syncs[m].owner) return 16; return lock(m); }
    int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { return unlock(m); }
    int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) { return lock(m); }
    int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { return lock(m); }
    int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) { return unlock(m); }
    int __wrap_pthread_once(pthread_once_t *o, void (*f)())
    {
        if (self < 0) { if (!*(int *)o) { f(); *(int *)o = 2; } return 0; }
        lock((char *)o);
        if (*(int *)o != 2) { f(); *(int *)o = 2; }
        unlock((char *)o);
        return 0;
    }
    int __wrap___cxa_guard_acquire(uint8_t *g)
    {
        if (self < 0) return g[0] ? 0 : 1;
        lock(g + 1);
        if (g[0]) { acq(g); unlock(g + 1); return 0; }
        return 1; // initialising, other threads wait
    }
    void __wrap___cxa_guard_release(uint8_t *g)
    {
        g[0] = 1;
        if (self < 0) return;
        rel(g);
        unlock(g + 1);
    }
    void __wrap___cxa_guard_abort(uint8_t *g)
    {
        if (self < 0) return;
        unlock(g + 1);
    }
}
// heap ownership
static void *own_add(void *p, size_t n)
{
    if (!p) throw std::bad_alloc();
    if (self >= 0)
    {
        const int me = self;
        self = -1; // the map's own allocations are not the program's
        th[me].own[(char *)p] = n;
        for (size_t i = 0; i < n && !shadow.empty(); i++) shadow.erase((uintptr_t)p + i);
        self = me;
    }
    return p;
}
static void own_del(void *p)
{
    if (self >= 0 && p)
    {
        const int me = self;
        self = -1;
        th[me].own.erase((char *)p);
        self = me;
    }
    free(p);
}
void *operator new(size_t n) { return own_add(malloc(n ? n : 1), n ? n : 1); }
void *operator new[](size_t n) { return own_add(malloc(n ? n : 1), n ? n : 1); }
void  operator delete(void *p) noexcept { own_del(p); }
void  operator delete[](void *p) noexcept { own_del(p); }
void  operator delete(void *p, size_t) noexcept { own_del(p); }
void  operator delete[](void *p, size_t) noexcept { own_del(p); }
// ---------------------------------------------------------------------------------------------------- running pairs
static void *body(void *a)
{
    const int t = (int)(intptr_t)a;
    while (sem_wait(&th[t].sem)) {}
    OpResult r{th[t].out, CAP, 0, 0};
    self = t;
    api->run(th[t].item_op, th[t].item_v, &r);
    self = -1;
    th[t].len     = r.len;
    th[t].changed = r.inputs_changed;
    th[t].done    = true;
    if (th[1 - t].started && !th[1 - t].done)
    {
        if (th[1 - t].blocked) { deadlock = true; sem_post(&done_sem); }
        else sem_post(&th[1 - t].sem);
    }
    else
        sem_post(&done_sem);
    return nullptr;
}
struct Item { int op, v; };
// runs thread 0 (and thread 1 if two) under the plan; thread `first` starts
static void exec(const Item &a, const Item *b, int first, const std::vector<Sw> &p, bool funcs)
{
    img->reset();
    plan        = p;
    plan_pos    = 0;
    count_funcs = funcs;
    deadlock    = false;
    race.clear();
    shadow.clear();
    syncs.clear();
    sem_init(&done_sem, 0, 0);
    pthread_t id[2];
    for (int t = 0; t < (b ? 2 : 1); t++)
    {
        Th &x = th[t];
        if (!x.stk)
        {
            x.stk = (char *)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            x.out = (unsigned char *)malloc(CAP);
        }
        sem_init(&x.sem, 0, 0);
        x.done = false;
        x.started = true;
        x.blocked = nullptr;
        x.pts = x.shared = x.swrites = x.funcs = 0;
        x.vc[t] = 1;
        x.vc[1 - t] = 0;
        x.own.clear();
        const Item &it = t ? *b : a;
        x.item_op = it.op;
        x.item_v  = it.v;
        x.len     = 0;
    }
    if (!b) { th[1].started = false; th[1].done = true; }
    for (int t = 0; t < (b ? 2 : 1); t++)
    {
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, th[t].stk, STK);
        pthread_create(&id[t], &at, body, (void *)(intptr_t)t);
        pthread_attr_destroy(&at);
    }
    sem_post(&th[first].sem);
    while (sem_wait(&done_sem)) {}
    if (deadlock) return; // threads are left behind, the case is over
    for (int t = 0; t < (b ? 2 : 1); t++) pthread_join(id[t], 0);
}
static std::string show(const Item &i)
{
    char t[300];
    api->args(i.op, i.v, t, sizeof t);
    return std::string(api->name(i.op)) + "(" + t + ")";
}
struct Solo { std::string out; uint64_t funcpts, shared, swrites; std::set<uintptr_t> acc, wr; };
static bool dependent(const Solo &a, const Solo &b)
{
    for (uintptr_t x : a.wr) if (b.acc.count(x)) return true;
    for (uintptr_t x : b.wr) if (a.acc.count(x)) return true;
    return false;
}
static std::map<std::pair<int, int>, Solo> solos;
static const Solo &solo(const Item &i)
{
    auto &s = solos[{i.op, i.v}];
    if (s.out.empty())
    {
        acc_rec = &s.acc;
        wr_rec  = &s.wr;
        exec(i, nullptr, 0, {}, true);
        acc_rec = wr_rec = nullptr;
        s.out.assign((char *)th[0].out, th[0].len);
        s.funcpts = th[0].pts;
        s.shared  = th[0].shared;
        s.swrites = th[0].swrites;
    }
    return s;
}
static std::string sched(const std::vector<Sw> &p)
{
    std::string s;
    for (auto &x : p) { char b[48]; snprintf(b, sizeof b, "%spreempt %c at its point %llu", s.empty() ? "" : ", ", 'A' + x.t, (unsigned long long)x.at); s += b; }
    return s.empty() ? "no preemption" : s;
}
static bool check(mc::Ctx &k, const Item &a, const Item &b, int first, const std::vector<Sw> &p, bool funcs)
{
    const Solo &sa = solo(a), &sb = solo(b);
    const uint64_t t0 = transitions;
    exec(a, &b, first, p, funcs);
    k.call(2);
    k.aux();
    k.w->cmps += 2;
    const Item *it[2] = {&a, &b};
    const Solo *so[2] = {&sa, &sb};
    const std::string desc = "A = " + show(a) + ", B = " + show(b) + ", " + (first ? "B" : "A") + " starts, " + sched(p);
    if (deadlock) { k.fail("%s: deadlock", desc.c_str()); return false; }
    if (!race.empty()) { k.fail("%s: %s", desc.c_str(), race.c_str()); return false; }
    for (int t = 0; t < 2; t++)
        if (so[t]->out != std::string((char *)th[t].out, th[t].len) || th[t].changed)
        {
            k.fail("%s: the result of %s differs from its result when run alone", desc.c_str(), show(*it[t]).c_str());
            return false;
        }
    (void)t0;
    return true;
}
static std::vector<Item> reps, partners;
static uint64_t          func_cap;
void setup(mc::Explorer &ex)
{
    api = ops_api();
    static Image image;
    img = &image;
    dl_iterate_phdr([](dl_phdr_info *i, size_t, void *) {
        const auto key = (uintptr_t)(void *)ops_api;
        uintptr_t  lo = ~0ull, hi = 0, w = ~0ull, relro = 0;
        bool       hit = false;
        for (int k = 0; k < i->dlpi_phnum; k++)
        {
            const auto &h = i->dlpi_phdr[k];
            const uintptr_t a = i->dlpi_addr + h.p_vaddr;
            if (h.p_type == PT_GNU_RELRO) relro = a + h.p_memsz;
            if (h.p_type != PT_LOAD) continue;
            if (key >= a && key < a + h.p_memsz) hit = true;
            if (a < lo) lo = a;
            if (a + h.p_memsz > hi) hi = a + h.p_memsz;
            if ((h.p_flags & PF_W) && a < w) w = a;
        }
        if (hit) { ro_lo = lo; ro_hi = relro > w ? relro : w; return 1; }
        return 0;
    }, nullptr);
    func_cap = ex.thorough ? 400 : 8;
    for (int o = 0; o < api->count(); o++)
    {
        reps.push_back({o, 0});
        partners.push_back({o, 0});
        if (api->variants(o) > 2) partners.push_back({o, 2});
    }
    const uint64_t R = reps.size(), P = partners.size();
    ex.add("calls", "every pair of operations (second one with equal and with different arguments): A is preempted at each of its first 8 (thorough 400) function entries and shared accesses, B runs to completion, A resumes", R * P, [R, P](mc::Ctx &k, uint64_t i) {
        const Item a = reps[i / P], b = partners[i % P];
        const Solo &s = solo(a);
        const uint64_t n = s.funcpts < func_cap ? s.funcpts : func_cap;
        for (uint64_t at = 0; at <= n && !k.bad; at++)
        {
            std::vector<Sw> p;
            if (at) p.push_back({0, at});
            if (!check(k, a, b, 0, p, true)) return;
            k.beat();
        }
        if (k.verbose) k.note("A = %s, B = %s, %llu schedules, A makes %llu shared accesses of which %llu write", show(a).c_str(), show(b).c_str(), (unsigned long long)n + 1, (unsigned long long)s.shared, (unsigned long long)s.swrites);
        k.out(s.funcpts * 7919 + s.shared);
    });
    static std::vector<Item> all;
    for (int o = 0; o < api->count(); o++)
        for (int v = 0; v < api->variants(o); v++) all.push_back({o, v});
    ex.add("same-operation", "every operation with every argument set, against itself and against its base arguments, in both orders (footprints and race detection)", all.size(), [](mc::Ctx &k, uint64_t i) {
        const Item a = all[i], b = {a.op, 0};
        for (int first = 0; first < 2 && !k.bad; first++)
            if (!check(k, a, a, first, {}, false) || !check(k, a, b, first, {}, false)) return;
        k.out(solo(a).shared * 31 + solo(a).swrites);
    });
    ex.add("shared-accesses", "every pair of operations: all schedules with at most two preemptions placed at accesses to memory both threads can reach, with either thread starting; pairs in which no location written by one is accessed by the other have no dependent accesses, so their two serial orders represent every interleaving", R * P, [R, P](mc::Ctx &k, uint64_t i) {
        const Item a = reps[i / P], b = partners[i % P];
        const Solo &sa = solo(a), &sb = solo(b);
        const bool dep = dependent(sa, sb);
        for (int first = 0; first < 2 && !k.bad; first++)
        {
            if (!check(k, a, b, first, {}, false)) return;
            if (!dep) continue;
            const uint64_t cap = 60;
            const uint64_t n1 = std::min<uint64_t>(cap, (first ? sb : sa).shared + 4), n2 = std::min<uint64_t>(cap, (first ? sa : sb).shared + 4);
            for (uint64_t x = 1; x <= n1 && !k.bad; x++)
            {
                if (!check(k, a, b, first, {{first, x}}, false)) return;
                for (uint64_t y = 1; y <= n2 && !k.bad; y++)
                    if (!check(k, a, b, first, {{first, x}, {1 - first, y}}, false)) return;
                k.beat();
            }
        }
        if (k.verbose) k.note("A = %s (%llu shared accesses, %llu writes), B = %s (%llu, %llu): %s", show(a).c_str(), (unsigned long long)sa.shared, (unsigned long long)sa.swrites, show(b).c_str(), (unsigned long long)sb.shared, (unsigned long long)sb.swrites, dep ? "dependent, preemptions enumerated" : "independent, serial orders suffice");
    });
}
MC_MAIN(setup)
