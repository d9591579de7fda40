#pragma once
#include "pbt.hpp"
#include <fsdyn/bytearray.h>
#include <fsdyn/fsalloc.h>
#include <algorithm>
#include <map>
#include <sys/mman.h>
using namespace pbt;

namespace {
struct BA {
    byte_array_t *a;
    size_t max;
    std::string m;
    void check(const char *after)
    {
        size_t n = byte_array_size(a);
        REQUIRE(n == m.size(), "size is %zu after %s, expected %zu (max_size %zu)", n, after, m.size(), max);
        const char *d = (const char *) byte_array_data(a);
        REQUIRE(d, "data is NULL after %s", after);
        if (memcmp(d, m.data(), n)) {
            size_t i = 0;
            while (d[i] == m[i])
                i++;
            fail("content differs at %zu after %s: %s, expected %s", i, after,
                 show(d + i, std::min<size_t>(n - i, 16)).c_str(),
                 show(m.data() + i, std::min<size_t>(n - i, 16)).c_str());
        }
        REQUIRE(d[n] == 0, "no NUL after the content after %s (size %zu)", after, n);
        REQUIRE(n + 1 <= max, "%zu bytes and the NUL exceed max_size %zu after %s", n, max, after);
    }
};

inline size_t ba_max(Src &s)
{
    static const std::vector<uint64_t> pts = {1, 2, 64, 127, 128, 129, 255, 256, 257, 512, 1000, 1024, 4096};
    switch (s.weighted({4, 4, 1, 1})) {
        case 0:
            return 1 + s.size_near(5000, pts);
        case 1:
            return 1 + s.below(40);
        case 2:
            return SIZE_MAX - s.below(3);
        default:
            return SIZE_MAX >> s.below(30);
    }
}

// a length near what is left, near the powers of two, or anything
inline size_t ba_len(Src &s, const BA &b)
{
    size_t left = b.max - 1 - b.m.size();
    if (s.flip() && left < 20000)
        return left + 2 - std::min<size_t>(s.below(5), left + 2);
    static const std::vector<uint64_t> pts = {126, 127, 128, 129, 255, 256, 511, 512, 1023, 1024};
    switch (s.below(3)) {
        case 0:
            return s.below(12);
        case 1:
            return s.size_near(1400, pts);
        default: { // just up to a power of two of the total
            size_t p = (size_t) 1 << (3 + s.below(9));
            size_t t = p + s.below(4) - 2;
            return t > b.m.size() ? t - b.m.size() : s.below(6);
        }
    }
}

inline std::string ba_bytes(Src &s, size_t n, bool nuls)
{
    Rng g(s.upto(0xffff));
    std::string r(n, 0);
    for (char &c : r) {
        c = (char) g.upto(255);
        if (!nuls && !c)
            c = 'z';
    }
    return r;
}

// a reallocator for objects of gigabytes that are hardly touched
void *sparse_realloc(void *ptr, size_t size)
{
    const size_t page = 4096;
    size_t *old = ptr ? (size_t *) ((char *) ptr - page) : nullptr;
    size_t need = (size + page - 1) / page * page + page;
    if (!size) {
        if (old)
            munmap(old, *old);
        return nullptr;
    }
    void *p = old ? mremap(old, *old, need, MREMAP_MAYMOVE)
                  : mmap(nullptr, need, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED)
        abort();
    *(size_t *) p = need;
    return (char *) p + page;
}

struct Sparse {
    fs_realloc_t old = fs_get_reallocator();
    Sparse() { fs_set_reallocator(sparse_realloc); }
    ~Sparse() { fs_set_reallocator(old); }
};

// zero bytes but for some stretches
struct SparseBA {
    byte_array_t *a;
    uint64_t size = 0;
    std::map<uint64_t, uint8_t> m;
    void put(uint64_t pos, const std::string &d)
    {
        for (size_t i = 0; i < d.size(); i++)
            m[pos + i] = (uint8_t) d[i];
        size = std::max<uint64_t>(size, pos + d.size());
    }
    void cut(uint64_t n)
    {
        m.erase(m.lower_bound(n), m.end());
        size = n;
    }
    void check(const char *after)
    {
        REQUIRE(byte_array_size(a) == size, "size is %zu after %s, expected %llu", byte_array_size(a), after,
                (unsigned long long) size);
        const uint8_t *d = (const uint8_t *) byte_array_data(a);
        REQUIRE(d[size] == 0, "no NUL after the content after %s (size %llu)", after, (unsigned long long) size);
        for (auto &e : m) {
            REQUIRE(d[e.first] == e.second, "content differs at %llu after %s (size %llu)",
                    (unsigned long long) e.first, after, (unsigned long long) size);
            for (uint64_t q : {e.first - 1, e.first + 1, e.first ^ 1ul << 31, e.first ^ 1ul << 32})
                if (q < size && !m.count(q))
                    REQUIRE(d[q] == 0, "content differs at %llu after %s (size %llu)", (unsigned long long) q, after,
                            (unsigned long long) size);
        }
    }
};
} // namespace
