// Bounded exhaustive exploration kernel.
//
// A check registers families. A family is a finite space {0..N-1} and a body that decodes an index into one case, runs
// the real code on it and compares with the reference model. run_all() evaluates every index of every family, in forked
// workers on all cores. The index under evaluation lives in shared memory, so crashes and hangs of the code under test are
// attributed to the exact case; (family, index) is the replay recipe.
#pragma once
#include <atomic>
#include <cfloat>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <functional>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace mc
{
static inline double private_gb(pid_t p)
{
    char n[64], b[128];
    snprintf(n, sizeof n, "/proc/%d/statm", (int)p);
    const int fd = open(n, O_RDONLY);
    if (fd < 0)
        return 0;
    const ssize_t r = read(fd, b, sizeof b - 1);
    close(fd);
    b[r > 0 ? r : 0] = 0;
    unsigned long long size = 0, res = 0, shr = 0;
    if (sscanf(b, "%llu %llu %llu", &size, &res, &shr) != 3 || shr > res)
        return 0;
    return (res - shr) * (double)sysconf(_SC_PAGESIZE) / 1e9;
}
static const double EPS = 1.1920928955078125e-07; // 2^-23

static const int      MAXW  = 64;
static const uint64_t NBUCK = 1u << 22;

struct Shared
{
    std::atomic<uint64_t> next;
    std::atomic<int>      stop;
    std::atomic<int>      failed; // 0 none, 1 property failure
    uint64_t              fail_idx;
    int fail_worker;
    char                  fail_msg[4096];
    struct W
    {
        volatile uint64_t cur;
        volatile uint64_t beat;
        volatile int      busy;
        uint64_t          cases, calls, cmps, skipped, aux, nchunk;
        double            worst;
        char              pad[64];
    } w[MAXW];
    std::atomic<uint32_t> bucket[NBUCK / 32];
};

struct Ctx
{
    Shared::W  *w       = nullptr;
    Shared     *sh      = nullptr;
    bool        verbose = false;
    bool        bad     = false;
    std::string log, msg;
    uint64_t    idx = 0;

    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        char    b[1024];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        if (log.size() < 3000)
        {
            log += b;
            log += "; ";
        }
    }
    __attribute__((noinline, cold)) void fail(const char *fmt, ...)
    {
        if (bad)
            return;
        bad = true;
        char    b[1500];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        msg = b;
    }
    void call(uint64_t n = 1) { w->calls += n; }
    void skip() { w->skipped++; }
    void aux(uint64_t n = 1) { w->aux += n; }
    // progress mark inside a long case (keeps the hang detector quiet)
    void beat() { w->beat = w->beat + 1; }

    bool ok(bool cond, const char *what)
    {
        w->cmps++;
        if (verbose)
            note("%s: %s", what, cond ? "ok" : "FAILED");
        if (!cond)
            fail("%s", what);
        return cond;
    }
    bool near(const char *what, double got, double want, double tol)
    {
        w->cmps++;
        const double e = std::fabs(got - want);
        if (verbose)
            note("%s=%.9g (reference %.9g, tolerance %.3g)", what, got, want, tol);
        if (!(e <= tol))
        {
            if (!(got == want)) // equal infinities are fine
                fail("%s is %.9g, reference %.9g, |difference| %.3g > tolerance %.3g", what, got, want, e, tol);
            return got == want;
        }
        const double r = (tol > 0) ? e / tol : 0;
        if (r > w->worst)
            w->worst = r;
        return true;
    }
    bool eq(const char *what, double got, double want)
    {
        w->cmps++;
        if (verbose)
            note("%s=%.9g (expected exactly %.9g)", what, got, want);
        if (!(got == want))
            fail("%s is %.9g, must be exactly %.9g", what, got, want);
        return got == want;
    }
    void out(uint64_t h) // record an observed outcome (distinct-outcome counting)
    {
        h *= 0x9E3779B97F4A7C15ull;
        h ^= h >> 29;
        h *= 0xBF58476D1CE4E5B9ull;
        h ^= h >> 32;
        const uint32_t k = (uint32_t)(h & (NBUCK - 1));
        const uint32_t m = 1u << (k & 31);
        if (!(sh->bucket[k >> 5].load(std::memory_order_relaxed) & m))
            sh->bucket[k >> 5].fetch_or(m, std::memory_order_relaxed);
    }
    void outf(float a, float b = 0, float c = 0)
    {
        uint32_t x, y, z;
        memcpy(&x, &a, 4);
        memcpy(&y, &b, 4);
        memcpy(&z, &c, 4);
        out(((uint64_t)x << 32 | y) * 31 + z);
    }
};

struct Family
{
    std::string                                   name, desc;
    uint64_t                                      n;
    std::function<void(Ctx &, uint64_t, uint64_t)> run; // evaluates [lo,hi), stops at the first failure
    uint64_t                                      chunk;
    // results
    uint64_t cases = 0, calls = 0, cmps = 0, skipped = 0, aux = 0, distinct = 0;
    double   worst = 0, wall = 0;
};

struct Explorer
{
    std::vector<Family> fams;
    bool                thorough = false;
    double              hang_s   = 30;
    double              mem_gb   = 3; // a worker that holds more is ended: the code under test does not stop allocating

    template <class F> void add(const char *name, const char *desc, uint64_t n, F body, uint64_t chunk = 0)
    {
        Family f;
        f.name  = name;
        f.desc  = desc;
        f.n     = n;
        f.chunk = chunk;
        f.run   = [body](Ctx &c, uint64_t lo, uint64_t hi) {
            for (uint64_t i = lo; i < hi; i++)
            {
                c.w->cur  = i;
                c.idx     = i;
                c.w->beat = c.w->beat + 1;
                body(c, i);
                c.w->cases++;
                if (__builtin_expect(c.bad, 0))
                    return;
            }
        };
        fams.push_back(f);
    }
    // Call sequences base, variant, base, other base, base: one argument at a time differs by one of 14 amounts, so that
    // a result kept from an earlier call under an incomplete or rounded key is seen. f checks one call against its oracle.
    // pre makes each call once and ignores the results (f may make further calls, which would hide the one kept).
    template <class F> void vary(const char *name, const std::vector<std::vector<float>> &bases, F f) { vary(name, bases, f, [](const float *) {}); }
    template <class F, class P> void vary(const char *name, const std::vector<std::vector<float>> &bases, F f, P pre)
    {
        const size_t   dims = bases[0].size(), nb = bases.size();
        const uint64_t nt   = 14;
        add(name, "sequences of calls whose arguments differ in one component by 14 relative and absolute amounts (0.003 .. factor 2), each result checked against its own arguments: base, variant, base, another base, base", nb * dims * nt * nb, [=](Ctx &k, uint64_t i) {
            const std::vector<float> &b = bases[i % nb], &o = bases[i / nb % nb];
            i /= nb * nb;
            const size_t j = i % dims;
            const int    t = (int)(i / dims);
            static const float M[14] = {1.0005f, 1.01f, 1.05f, 1.3f, 0.5f, 2.f, 1.f, 1.f, 1.f, 1.f, 1.f, 1.f, 0.97f, -1.f}, A[14] = {0, 0, 0, 0, 0, 0, 0.003f, 0.01f, 0.05f, 0.3f, 0.9f, -0.02f, 0, 0};
            std::vector<float> v = b;
            v[j] = v[j] * M[t] + A[t];
            const std::vector<float> *seq[5] = {&b, &v, &b, &o, &b};
            for (int q = 0; q < 5; q++)
            {
                if (q) pre(seq[q - 1]->data());
                f(k, seq[q]->data());
                if (k.bad) return;
            }
        });
    }
};

static std::string jesc(const std::string &s)
{
    std::string o;
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\')
        {
            o += '\\';
            o += ch;
        }
        else if (ch < 0x20 || ch >= 0x7f)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
        }
        else
            o += ch;
    }
    return o;
}

static double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

// Evaluates one case in the current process. Returns true if the property held. With a history (chunk starts, in the
// order one worker evaluated them) the cases before it are evaluated first, as that worker did.
static bool eval_one(Family &f, uint64_t idx, std::string &log, std::string &msg, Shared *sh, const std::vector<uint64_t> &hist = {}, uint64_t chunk = 0)
{
    Ctx c;
    c.sh      = sh;
    c.w       = &sh->w[MAXW - 1];
    for (size_t i = 0; i < hist.size(); i++)
    {
        const bool     last = i + 1 == hist.size();
        const uint64_t hi   = last ? idx : (f.n - hist[i] < chunk ? f.n : hist[i] + chunk);
        if (hist[i] < hi)
            f.run(c, hist[i], hi);
        if (c.bad)
        {
            msg = c.msg;
            return false;
        }
    }
    c.verbose = true;
    f.run(c, idx, idx + 1);
    log = c.log;
    msg = c.msg;
    return !c.bad;
}

static int main_(int argc, char **argv, void (*setup)(Explorer &))
{
    Explorer    ex;
    std::string out, rfam;
    uint64_t    ridx   = 0;
    bool        replay = false, list = false;
    std::vector<uint64_t> rhist;
    uint64_t    rchunk = 0;
    double      hang   = 0;
    int         jobs   = (int)sysconf(_SC_NPROCESSORS_ONLN);
    std::string only;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        if (a == "--tier")
            ex.thorough = std::string(argv[++i]) == "thorough";
        else if (a == "--out")
            out = argv[++i];
        else if (a == "--jobs")
            jobs = atoi(argv[++i]);
        else if (a == "--hang")
            hang = atof(argv[++i]);
        else if (a == "--only")
            only = argv[++i];
        else if (a == "--list")
            list = true;
        else if (a == "--replay")
        {
            replay = true;
            rfam   = argv[++i];
            ridx   = strtoull(argv[++i], 0, 10);
        }
        else if (a == "--history")
        {
            rchunk = strtoull(argv[++i], 0, 10);
            for (char *s = argv[++i]; *s;)
            {
                rhist.push_back(strtoull(s, &s, 10));
                if (*s == ',') s++;
            }
        }
    }
    if (jobs < 1)
        jobs = 1;
    if (jobs > MAXW - 1)
        jobs = MAXW - 1;
    setup(ex);
    if (hang > 0)
        ex.hang_s = hang;
    Shared *sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (sh == MAP_FAILED)
        return 3;
    // which chunks each worker evaluated, in order: makes a failure that needs earlier calls replayable
    static const size_t HMAX = 1 << 13;
    uint64_t *hist = (uint64_t *)mmap(0, sizeof(uint64_t) * HMAX * MAXW, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (hist == MAP_FAILED)
        return 3;
    if (list)
    {
        for (auto &f : ex.fams)
            printf("%-28s %14llu  %s\n", f.name.c_str(), (unsigned long long)f.n, f.desc.c_str());
        return 0;
    }
    const int real_out = dup(1);
    if (replay)
    {
        for (auto &f : ex.fams)
            if (f.name == rfam)
            {
                const pid_t me = getpid(), p = fork();
                if (p < 0)
                    return 3;
                if (p == 0)
                {
                    prctl(PR_SET_PDEATHSIG, SIGKILL);
                    if (getppid() != me)
                        _exit(3);
                    int nul = open("/dev/null", O_WRONLY);
                    dup2(nul, 1);
                    std::string log, msg;
                    const bool  okk = eval_one(f, ridx, log, msg, sh, rhist, rchunk);
                    dprintf(real_out, "%s\n%s\n%s\n", okk ? "HELD" : "FAILED", msg.c_str(), log.c_str());
                    _exit(okk ? 0 : 10);
                }
                int st = 0;
                while (waitpid(p, &st, WNOHANG) != p)
                {
                    usleep(3000);
                    if (private_gb(p) > ex.mem_gb)
                    {
                        dprintf(real_out, "FAILED\nthe code under test holds more than %g GB of memory\n", ex.mem_gb);
                        kill(p, SIGKILL);
                        waitpid(p, &st, 0);
                        return 10;
                    }
                }
                return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
            }
        fprintf(stderr, "no such family %s\n", rfam.c_str());
        return 3;
    }

    std::string vfam, vmsg;
    uint64_t    vidx = 0, vchunk = 0;
    int         vworker = 0;
    double      peak_gb = 0;
    int         viol = 0; // 1 property, 2 crash, 3 hang
    for (auto &f : ex.fams)
    {
        if (!only.empty() && f.name != only)
            continue;
        const double t0 = now();
        memset((void *)sh, 0, sizeof(Shared));
        uint64_t chunk = f.chunk ? f.chunk : f.n / ((uint64_t)jobs * 64) + 1;
        if (chunk > 200000)
            chunk = 200000;
        std::vector<pid_t> pid(jobs);
        for (int k = 0; k < jobs; k++)
        {
            fflush(0);
            pid_t p = fork();
            if (p == 0)
            {
                int nul = open("/dev/null", O_WRONLY);
                dup2(nul, 1);
                Ctx c;
                c.sh = sh;
                c.w  = &sh->w[k];
                while (!sh->stop.load())
                {
                    const uint64_t lo = sh->next.fetch_add(chunk);
                    if (lo >= f.n)
                        break;
                    const uint64_t hi = (f.n - lo < chunk) ? f.n : lo + chunk;
                    if (c.w->nchunk < HMAX)
                        hist[k * HMAX + c.w->nchunk] = lo;
                    c.w->nchunk++;
                    c.w->busy         = 1;
                    f.run(c, lo, hi);
                    c.w->busy = 0;
                    if (c.bad)
                    {
                        int z = 0;
                        if (sh->failed.compare_exchange_strong(z, 2))
                        {
                            sh->fail_idx = c.idx;
                            sh->fail_worker = k;
                            snprintf(sh->fail_msg, sizeof sh->fail_msg, "%s", c.msg.c_str());
                            sh->failed = 1;
                        }
                        sh->stop = 1;
                    }
                }
                _exit(0);
            }
            if (p < 0)
            {
                perror("fork");
                return 3;
            }
            pid[k] = p;
        }
        std::vector<uint64_t> lastbeat(jobs, ~0ull);
        std::vector<double>   since(jobs, now());
        int                   live = jobs;
        while (live > 0)
        {
            int   st;
            pid_t p = waitpid(-1, &st, WNOHANG);
            if (p > 0)
            {
                for (int k = 0; k < jobs; k++)
                    if (pid[k] == p)
                    {
                        live--;
                        pid[k] = -1;
                        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && !viol && !(sh->stop.load() && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL))
                        {
                            viol = 2;
                            vfam = f.name;
                            vidx = sh->w[k].cur;
                            vworker = k;
                            char b[128];
                            if (WIFSIGNALED(st))
                                snprintf(b, sizeof b, "code under test crashed: signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
                            else
                                snprintf(b, sizeof b, "code under test ended the process (exit status %d)", WEXITSTATUS(st));
                            vmsg     = b;
                            sh->stop = 1;
                        }
                    }
                continue;
            }
            usleep(3000);
            const double t = now();
            for (int k = 0; k < jobs; k++)
            {
                if (pid[k] < 0)
                    continue;
                const uint64_t b = sh->w[k].beat;
                const double   gb = private_gb(pid[k]);
                peak_gb = gb > peak_gb ? gb : peak_gb;
                if (gb > ex.mem_gb)
                {
                    if (!viol && !sh->failed.load())
                    {
                        viol = 2;
                        vfam = f.name;
                        vidx = sh->w[k].cur;
                        vworker = k;
                        char t2[96];
                        snprintf(t2, sizeof t2, "the code under test holds more than %g GB of memory", ex.mem_gb);
                        vmsg = t2;
                    }
                    sh->stop = 1;
                    kill(pid[k], SIGKILL);
                }
                if (b != lastbeat[k] || !sh->w[k].busy)
                {
                    lastbeat[k] = b;
                    since[k]    = t;
                }
                else if (t - since[k] > ex.hang_s)
                {
                    if (!viol && !sh->failed.load())
                    {
                        viol = 3;
                        vfam = f.name;
                        vidx = sh->w[k].cur;
                        vworker = k;
                        vmsg = "no result within the time limit (hang)";
                    }
                    sh->stop = 1;
                    kill(pid[k], SIGKILL);
                    since[k] = t;
                }
            }
        }
        for (int k = 0; k < jobs; k++)
        {
            auto &w = sh->w[k];
            f.cases += w.cases;
            f.calls += w.calls;
            f.cmps += w.cmps;
            f.skipped += w.skipped;
            f.aux += w.aux;
            if (w.worst > f.worst)
                f.worst = w.worst;
        }
        for (uint64_t k = 0; k < NBUCK / 32; k++)
            f.distinct += __builtin_popcount(sh->bucket[k].load());
        f.wall = now() - t0;
        if (!viol && sh->failed.load())
        {
            viol = 1;
            vfam = f.name;
            vidx = sh->fail_idx;
            vworker = sh->fail_worker;
            vmsg = sh->fail_msg;
        }
        if (viol)
        {
            vchunk = chunk;
            break;
        }
        if (f.cases != f.n)
        {
            fprintf(stderr, "internal error: family %s evaluated %llu of %llu cases\n", f.name.c_str(), (unsigned long long)f.cases, (unsigned long long)f.n);
            return 3;
        }
    }
    FILE *o = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!o)
        return 3;
    fprintf(o, "{\"violation\":%d", viol);
    if (viol)
        fprintf(o, ",\"family\":\"%s\",\"index\":%llu,\"message\":\"%s\"", vfam.c_str(), (unsigned long long)vidx, jesc(vmsg).c_str());
    if (viol)
    {
        fprintf(o, ",\"chunk\":%llu,\"history\":[", (unsigned long long)vchunk);
        for (uint64_t i = 0; sh->w[vworker].nchunk <= HMAX && i < sh->w[vworker].nchunk; i++)
            fprintf(o, "%s%llu", i ? "," : "", (unsigned long long)hist[vworker * HMAX + i]);
        fprintf(o, "]");
    }
    fprintf(o, ",\"families\":[");
    bool first = true;
    for (auto &f : ex.fams)
    {
        if (!only.empty() && f.name != only)
            continue;
        std::string samples;
        if (!viol && f.n)
        {
            // written-out sample cases, evaluated in a child so that library output cannot mix with ours
            const uint64_t pick[2] = {f.n / 3, f.n - 1};
            for (int s = 0; s < 2; s++)
            {
                if (s == 1 && pick[1] == pick[0])
                    break;
                int pfd[2];
                if (pipe(pfd))
                    break;
                fflush(0);
                pid_t p = fork();
                if (p == 0)
                {
                    close(pfd[0]);
                    int nul = open("/dev/null", O_WRONLY);
                    dup2(nul, 1);
                    alarm(60);
                    std::string log, msg;
                    eval_one(f, pick[s], log, msg, sh);
                    if (log.size() > 700)
                        log.resize(700);
                    ssize_t r = write(pfd[1], log.data(), log.size());
                    (void)r;
                    _exit(0);
                }
                close(pfd[1]);
                std::string t;
                char        b[1024];
                ssize_t     r;
                while ((r = read(pfd[0], b, sizeof b)) > 0)
                    t.append(b, r);
                close(pfd[0]);
                int st;
                waitpid(p, &st, 0);
                char h[64];
                snprintf(h, sizeof h, "#%llu: ", (unsigned long long)pick[s]);
                if (!samples.empty())
                    samples += ",";
                samples += "\"" + jesc(h + t) + "\"";
            }
        }
        fprintf(o, "%s\n{\"name\":\"%s\",\"what\":\"%s\",\"size\":%llu,\"cases\":%llu,\"calls\":%llu,\"comparisons\":%llu,\"skipped\":%llu,\"aux\":%llu,\"distinct_outcomes\":%llu,\"worst_error_over_tolerance\":%.4g,\"wall_s\":%.3f,\"samples\":[%s]}",
            first ? "" : ",", f.name.c_str(), jesc(f.desc).c_str(), (unsigned long long)f.n, (unsigned long long)f.cases, (unsigned long long)f.calls, (unsigned long long)f.cmps,
            (unsigned long long)f.skipped, (unsigned long long)f.aux, (unsigned long long)f.distinct, f.worst, f.wall, samples.c_str());
        first = false;
    }
    fprintf(o, "],\"peak_gb\":%.3f}\n", peak_gb);
    if (o != stdout)
        fclose(o);
    return viol ? 10 : 0;
}

// ---- helpers for decoding spaces -------------------------------------------------------------------------------------
struct Mixed // mixed radix decoder
{
    uint64_t v;
    explicit Mixed(uint64_t i) : v(i) {}
    uint64_t pick(uint64_t n)
    {
        const uint64_t r = v % n;
        v /= n;
        return r;
    }
    template <class T> const T &of(const std::vector<T> &a) { return a[pick(a.size())]; }
};
static inline float bits(uint32_t u)
{
    float f;
    memcpy(&f, &u, 4);
    return f;
}
static inline uint32_t ubits(float f)
{
    uint32_t u;
    memcpy(&u, &f, 4);
    return u;
}
// order-preserving map between floats and integers (for neighbours of either sign)
static inline int64_t ordi(float f)
{
    int32_t u;
    memcpy(&u, &f, 4);
    return u >= 0 ? (int64_t)u : (int64_t)(0x80000000ll - (int64_t)(uint32_t)u);
}
static inline float iord(int64_t i) { return i >= 0 ? bits((uint32_t)i) : bits((uint32_t)(0x80000000ll - i)); }
} // namespace mc

#define MC_MAIN(setup)                                                                                                 \
    int main(int argc, char **argv) { return mc::main_(argc, argv, setup); }
