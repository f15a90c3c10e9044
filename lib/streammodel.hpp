// Abstract growable byte file used as the specification of MemoryStream.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
struct FileModel
{
    std::vector<uint8_t> b;
    size_t               p = 0, mark = 0;
    bool                 eof() const { return p >= b.size(); }
    void                 writeAt(size_t at, const std::vector<uint8_t> &d)
    {
        if (at + d.size() > b.size())
            b.resize(at + d.size(), 0);
        for (size_t i = 0; i < d.size(); i++)
            b[at + i] = d[i];
    }
    std::vector<uint8_t> readAt(size_t at, size_t n) const
    {
        std::vector<uint8_t> r;
        for (size_t i = at; i < b.size() && r.size() < n; i++)
            r.push_back(b[i]);
        return r;
    }
    uint8_t at(size_t i) const { return i < b.size() ? b[i] : 0; }
};
