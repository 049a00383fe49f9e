#pragma once
#include "drv.hpp"
#include <sys/mman.h>
namespace drv {
struct Big {
    uint8_t* p; size_t n, len;
    Big(Ctx& c, size_t pre, size_t post, size_t imm) {
        by &a = c.Y(pre), &z = c.Y(post);
        n = a.size() + z.size() + strtoull(c.M(imm).c_str(), nullptr, 10); len = n + 4096;
        void* m = mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if(m == MAP_FAILED) throw std::logic_error("driver: no address space");
        p = static_cast<uint8_t*>(m);
        if(a.size()) memcpy(p, a.data(), a.size());
        if(z.size()) memcpy(p + n - z.size(), z.data(), z.size());
    }
    ~Big() { munmap(p, len); }
    Big(const Big&) = delete;
    std::span<const uint8_t> span() const { return {p, n}; }
};
}
