// Snapshot / restore of everything the operation library (ops.so, i.e. the colour library compiled from /repo) can keep
// between calls: its writable data segment and the calling thread's copy of its thread-local storage.
#pragma once
#include "ops.hpp"
#include <cstring>
#include <link.h>
#include <string>
#include <vector>
struct Image
{
    struct Range { char *p; size_t n; };
    std::vector<Range> ranges;   // writable statics
    size_t             tls_size = 0;
    size_t             modid    = 0;
    std::string        init;     // contents right after loading
    std::string        tls_init;

    static int cb(dl_phdr_info *i, size_t, void *arg)
    {
        Image     *me  = (Image *)arg;
        const auto key = (uintptr_t)(void *)ops_api;
        bool       hit = false;
        for (int k = 0; k < i->dlpi_phnum; k++)
        {
            const auto &h = i->dlpi_phdr[k];
            if (h.p_type == PT_LOAD && key >= i->dlpi_addr + h.p_vaddr && key < i->dlpi_addr + h.p_vaddr + h.p_memsz) hit = true;
        }
        if (!hit) return 0;
        uintptr_t rlo = 0, rhi = 0;
        for (int k = 0; k < i->dlpi_phnum; k++)
            if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO)
            {
                rlo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
                rhi = rlo + i->dlpi_phdr[k].p_memsz;
                rlo &= ~4095ull;
                rhi = (rhi + 4095) & ~4095ull;
            }
        for (int k = 0; k < i->dlpi_phnum; k++)
        {
            const auto &h = i->dlpi_phdr[k];
            if (h.p_type == PT_TLS) { me->tls_size = h.p_memsz; me->modid = i->dlpi_tls_modid; me->tls_p = (char *)i->dlpi_tls_data; }
            if (h.p_type == PT_LOAD && (h.p_flags & PF_W))
            {
                uintptr_t lo = i->dlpi_addr + h.p_vaddr, hi = lo + h.p_memsz;
                if (rlo <= lo && rhi > lo) lo = rhi;
                if (lo < hi) me->ranges.push_back({(char *)lo, hi - lo});
            }
        }
        return 1;
    }
    char *tls_p = nullptr; // TLS block of the thread that constructed the image
    Image()
    {
        ops_api();
        dl_iterate_phdr(cb, this);
        init = get();
        if (tls_p) tls_init.assign(tls_p, tls_size);
    }
    std::string get() const
    {
        std::string s;
        for (auto &r : ranges) s.append(r.p, r.n);
        return s;
    }
    std::string tls() const { return tls_p ? std::string(tls_p, tls_size) : std::string(); }
    void set(const std::string &s) const
    {
        size_t o = 0;
        for (auto &r : ranges) { memcpy(r.p, s.data() + o, r.n); o += r.n; }
    }
    void set_tls(const std::string &s) const { if (tls_p) memcpy(tls_p, s.data(), tls_size); }
    void reset() const
    {
        set(init);
        set_tls(tls_init);
    }
    bool shared(const void *a) const
    {
        for (auto &r : ranges)
            if ((char *)a >= r.p && (char *)a < r.p + r.n) return true;
        return false;
    }
};
