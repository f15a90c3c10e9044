// Probe program of C36: runs every operation of three translation units at every phase of the program's life and writes
// the digests of the results to descriptor 3. It uses nothing of the library itself.
#include "ops.hpp"
#include <unistd.h>
#include <cstdlib>
#include <cstring>
extern "C" const OpsApi *ops_a();
extern "C" const OpsApi *ops_b();
extern "C" const OpsApi *ops_c();
static const int PHASES = 15; // 0 earliest; 2t+1, 2t+2 initialisation of unit t; 7 main; 13-2t, 12-2t destruction of unit t; 14 latest
static unsigned char buf[1 << 16];
extern "C" void life_phase(int ph)
{
    const OpsApi *const api[3] = {ops_a(), ops_b(), ops_c()};
    static uint64_t rec[4];
    for (int a = 0; a < 3; a++)
        for (int op = 0, n = api[a]->count(); op < n; op++)
            for (int v = 0, m = api[a]->variants(op); v < m; v++)
            {
                OpResult r = {buf, sizeof buf, 0, 0, nullptr};
                api[a]->run(op, v, &r);
                uint64_t h = 1469598103934665603ull ^ (uint64_t)r.inputs_changed;
                const size_t len = r.len < sizeof buf ? r.len : sizeof buf;
                for (size_t i = 0; i < len; i++) h = (h ^ buf[i]) * 1099511628211ull;
                h = (h ^ r.len) * 1099511628211ull;
                rec[0] = (uint64_t)ph << 8 | a;
                rec[1] = op;
                rec[2] = v;
                rec[3] = h;
                if (write(3, rec, sizeof rec) != sizeof rec) _exit(9);
            }
}
__attribute__((constructor(101))) static void earliest() { life_phase(0); }
__attribute__((destructor(101))) static void latest() { life_phase(14); }
int main() { life_phase(7); return 0; }
