// C36: every operation gives the same result in every translation unit and at every phase of the program's life.
// The probe programs (lib/life.cpp + three copies of lib/ops.cpp, one executable per link order and optimisation level)
// lie beside this executable; they are run here and their digests compared.
#include "mc.hpp"
#include "ops.hpp"
#include <fstream>
#include <memory>
static const int PH = 15;
static const char *const PHASE[PH] = {"before any initialiser", "unit a, ahead of the header", "unit a, after the header", "unit b, ahead of the header", "unit b, after the header", "unit c, ahead of the header", "unit c, after the header", "main",
                                      "destructor in unit c, after the header", "destructor in unit c, ahead of the header", "destructor in unit b, after the header", "destructor in unit b, ahead of the header", "destructor in unit a, after the header", "destructor in unit a, ahead of the header", "after all destructors"};
struct Run { std::string name; std::vector<uint64_t> h; std::vector<char> have; int status; };
static std::vector<Run> runs;
static std::vector<std::pair<int, int>> items;
static const OpsApi *api;
static std::string here()
{
    char b[4096];
    const ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
    b[n > 0 ? n : 0] = 0;
    return std::string(b).substr(0, std::string(b).rfind('/'));
}
static std::string show(size_t it)
{
    char t[400];
    api->args(items[it].first, items[it].second, t, sizeof t);
    return std::string(api->name(items[it].first)) + "(" + t + ")";
}
void setup(mc::Explorer &ex)
{
    api = ops_api();
    std::vector<int> first;
    for (int op = 0; op < api->count(); op++)
    {
        first.push_back((int)items.size());
        for (int v = 0; v < api->variants(op); v++) items.push_back({op, v});
    }
    const std::string dir = here();
    std::ifstream list(dir + "/probes.txt");
    std::string n;
    while (list >> n) { Run r; r.name = n; r.status = 0; runs.push_back(r); }
    std::vector<pid_t> pid;
    for (auto &r : runs)
    {
        const std::string exe = dir + "/" + r.name, out = exe + "." + std::to_string(getpid()) + ".out";
        const pid_t p = fork();
        if (p == 0)
        {
            const int fd = open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            const int nul = open("/dev/null", O_RDWR);
            dup2(nul, 0); dup2(nul, 1); dup2(nul, 2);
            if (fd != 3) dup2(fd, 3);
            alarm(120);
            execl(exe.c_str(), exe.c_str(), (char *)0);
            _exit(127);
        }
        pid.push_back(p);
    }
    for (size_t q = 0; q < runs.size(); q++)
    {
        Run &r = runs[q];
        waitpid(pid[q], &r.status, 0);
        const std::string out = dir + "/" + r.name + "." + std::to_string(getpid()) + ".out";
        r.h.assign((size_t)PH * 3 * items.size(), 0);
        r.have.assign(r.h.size(), 0);
        std::ifstream f(out, std::ios::binary);
        uint64_t rec[4];
        while (f.read((char *)rec, sizeof rec))
        {
            const size_t ph = rec[0] >> 8, a = rec[0] & 255;
            if (ph >= PH || a > 2 || rec[1] >= first.size()) continue;
            const size_t at = (ph * 3 + a) * items.size() + first[rec[1]] + rec[2];
            r.h[at] = rec[3];
            r.have[at] = 1;
        }
        unlink(out.c_str());
    }
    for (size_t q = 0; q < runs.size(); q++)
    {
        ex.add(("program:" + runs[q].name).c_str(), "every operation and argument set, called in each of three translation units, at each of 15 phases of the program (before any initialiser, in initialisers ahead of and after the header in each unit, main, the destructors, after them), one program per compiler, optimisation level and link order", (uint64_t)PH * 3 * items.size(), [q](mc::Ctx &k, uint64_t i) {
            const Run &r = runs[q];
            const size_t it = i % items.size();
            const int a = (int)(i / items.size() % 3), ph = (int)(i / items.size() / 3);
            k.call();
            k.w->cmps++;
            if (!r.have[i])
            {
                // the program did not get here
                bool first = i == 0 || r.have[i - 1];
                if (WIFSIGNALED(r.status)) return k.fail("the program is ended by signal %d %s %s of unit %c, phase `%s`", WTERMSIG(r.status), first ? "in" : "before", show(it).c_str(), 'a' + a, PHASE[ph]);
                return k.fail("the program stops (status %d) %s %s of unit %c, phase `%s`", WEXITSTATUS(r.status), first ? "in" : "before", show(it).c_str(), 'a' + a, PHASE[ph]);
            }
            const size_t ref = (size_t)(7 * 3 + 0) * items.size() + it;
            if (k.verbose) k.note("%s in unit %c, phase `%s`", show(it).c_str(), 'a' + a, PHASE[ph]);
            if (!r.have[ref]) return k.skip();
            if (r.h[i] != r.h[ref]) return k.fail("%s called in unit %c, phase `%s`, differs from its result in main", show(it).c_str(), 'a' + a, PHASE[ph]);
            // the same program in another link order
            const std::string lvl = r.name.substr(0, r.name.find('-'));
            for (auto &o : runs)
                if (o.name.compare(0, lvl.size(), lvl) == 0)
                {
                    if (o.have[ref] && o.h[ref] != r.h[ref]) return k.fail("%s differs between link orders %s and %s", show(it).c_str(), r.name.c_str(), o.name.c_str());
                    break;
                }
            k.out(r.h[i]);
        });
    }
}
MC_MAIN(setup)
