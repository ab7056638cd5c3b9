// Ranges of several gigabytes that need little memory: the middle is one small
// window mapped again and again, the last megabyte is memory of its own.
#pragma once
#include "pbt.h"
#include <sys/mman.h>
#include <unistd.h>

namespace bigmap {
using pbt::Bytes;
using pbt::u64;
using pbt::u8;
constexpr u64 WIN = 2u << 20, TAIL = 1u << 20;
struct Big
{
    u8* p = nullptr;
    u64 n = 0;
    int fd = -1;
    explicit Big(u64 bytes) // rounded up to whole megabytes; null when it cannot be had
    {
        u64 len = (bytes + TAIL - 1) / TAIL * TAIL;
        pbt::slow_case();
        fd = memfd_create("big", 0);
        if (fd < 0 || ftruncate(fd, (off_t)WIN))
            return;
        void* q = mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (q == MAP_FAILED)
            return;
        n = len;
        for (u64 o = 0; o + TAIL < len; o += WIN)
        {
            u64 l = std::min(WIN, len - TAIL - o);
            if (mmap((u8*)q + o, l, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED)
            {
                munmap(q, len);
                return;
            }
        }
        p = (u8*)q;
    }
    ~Big()
    {
        if (p)
            munmap(p, n);
        if (fd >= 0)
            close(fd);
    }
    Big(const Big&)            = delete;
    Big& operator=(const Big&) = delete;
    void fill(u64 seed)
    {
        for (u64 i = 0; i < WIN; i += 8)
        {
            u64 v = pbt::splitmix(seed);
            std::memcpy(p + i, &v, 8);
        }
        for (u64 i = 0; i < TAIL; i += 8)
        {
            u64 v = pbt::splitmix(seed);
            std::memcpy(p + n - TAIL + i, &v, 8);
        }
    }
    // what the range holds: window and tail
    Bytes image() const
    {
        Bytes b(p, p + WIN);
        b.insert(b.end(), p + n - TAIL, p + n);
        return b;
    }
};
// lengths that a 32-bit (signed or unsigned) byte count cannot hold
inline u64 gen_len(pbt::Source& s)
{
    return (s.coin(1, 3) ? 1ull << 31 : 1ull << 32) + (s.coin() ? s.below(100) : s.below(1u << 20));
}
} // namespace bigmap
