#pragma once
// Texts of gigabytes that hardly take any memory: one stretch of content mapped
// over and over, ending right before a page that cannot be accessed.  A write to
// a source changes that page only, one to a destination shows everywhere but in
// the last OWN bytes (or a bit less), which have memory of their own.
#include "pbt.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <fsdyn/fsalloc.h>

namespace {
struct Vast {
    char *base = nullptr, *p = nullptr;
    size_t total = 0, n, period;
    bool ok = false;
    enum { OWN = 65536 };
    // n bytes beginning like the pattern (whose size must be a multiple of the
    // page size) at some phase: p[i] == pattern[(phase() + i) % period]
    Vast(const std::string &pattern, size_t n_, bool destination) : n(n_), period(pattern.size())
    {
        const size_t page = 4096;
        if (period % page)
            abort();
        size_t copies = (n + period - 1) / period;
        size_t used = (n + page - 1) / page * page;
        total = copies * period + page;
        base = (char *) mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (base == MAP_FAILED) {
            base = nullptr;
            return;
        }
        int fd = memfd_create("vast", 0);
        if (fd < 0)
            return;
        bool good = true;
        for (size_t at = 0; good && at < period;) {
            ssize_t k = write(fd, pattern.data() + at, period - at);
            good = k > 0;
            at += good ? (size_t) k : 0;
        }
        for (size_t i = 0; good && i < copies; i++) {
            size_t len = std::min(period, used - i * period);
            good = mmap(base + i * period, len, PROT_READ | PROT_WRITE,
                        MAP_FIXED | (destination ? MAP_SHARED : MAP_PRIVATE), fd, 0) != MAP_FAILED;
        }
        close(fd);
        if (good && destination && used > OWN) {
            char *tail = base + used - OWN;
            good = mmap(tail, OWN, PROT_READ | PROT_WRITE, MAP_FIXED | MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) != MAP_FAILED;
            for (size_t i = 0; good && i < OWN; i++)
                tail[i] = pattern[(used - OWN + i) % period];
        }
        p = base + used - n;
        ok = good;
    }
    size_t phase() const { return (size_t) (p - base) % period; }
    char *end() const { return p + n; }
    // is the destination the given content over and over (but for the last bytes)?
    void check_repeats(const std::string &want, size_t last)
    {
        for (size_t i = 0; i < want.size(); i++)
            REQUIRE(p[i] == want[i], "wrong byte at %zu (or %zu bytes further, or a multiple)", i, period);
        for (size_t i = n - OWN + 8192; i < n - last; i++)
            REQUIRE(p[i] == want[i % want.size()], "wrong byte at %zu", i);
    }
    ~Vast()
    {
        if (base)
            munmap(base, total);
    }
    Vast(const Vast &) = delete;
};

// an address range of which only what is touched takes memory
struct Range {
    char *base = nullptr, *p = nullptr;
    size_t n, total;
    bool ok;
    explicit Range(size_t n_) : n(n_)
    {
        const size_t page = 4096;
        size_t used = (n + page - 1) / page * page;
        total = used + page;
        base = (char *) mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        ok = base != MAP_FAILED;
        if (!ok)
            return;
        mprotect(base + used, page, PROT_NONE);
        p = base + used - n;
    }
    char *end() const { return p + n; }
    ~Range()
    {
        if (ok)
            munmap(base, total);
    }
    Range(const Range &) = delete;
};

// a reallocator that gives out blocks of gigabytes in the manner of Vast
struct BigBlocks {
    enum : size_t { LEAST = 1u << 29, ALIAS = 12u << 20, OWN = 65536 };
    struct Block {
        char *base;
        size_t total, size;
    };
    fs_realloc_t old = fs_get_reallocator();
    std::map<char *, Block> blocks;
    static BigBlocks *&cur()
    {
        static BigBlocks *c;
        return c;
    }
    BigBlocks()
    {
        cur() = this;
        fs_set_reallocator(hook);
    }
    ~BigBlocks()
    {
        fs_set_reallocator(old);
        for (auto &b : blocks)
            munmap(b.second.base, b.second.total);
        cur() = nullptr;
    }
    BigBlocks(const BigBlocks &) = delete;
    char *fresh(size_t n)
    {
        const size_t page = 4096;
        size_t used = (n + page - 1) / page * page, total = used + page;
        char *base = (char *) mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (base == MAP_FAILED)
            abort();
        int fd = memfd_create("big", 0);
        bool good = fd >= 0 && !ftruncate(fd, ALIAS);
        for (size_t at = 0; good && at < used; at += ALIAS)
            good = mmap(base + at, std::min<size_t>(ALIAS, used - at), PROT_READ | PROT_WRITE, MAP_FIXED | MAP_SHARED,
                        fd, 0) != MAP_FAILED;
        good = good && mmap(base + used - OWN, OWN, PROT_READ | PROT_WRITE,
                            MAP_FIXED | MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) != MAP_FAILED;
        if (!good)
            abort();
        close(fd);
        char *p = base + (used - n) / 16 * 16;
        blocks[p] = Block{base, total, n};
        return p;
    }
    void drop(std::map<char *, Block>::iterator i)
    {
        munmap(i->second.base, i->second.total);
        blocks.erase(i);
    }
    static void *hook(void *p, size_t n)
    {
        BigBlocks &b = *cur();
        auto i = p ? b.blocks.find((char *) p) : b.blocks.end();
        if (i == b.blocks.end() && n < LEAST)
            return b.old(p, n);
        if (i == b.blocks.end()) {
            char *q = b.fresh(n);
            if (p) {
                memcpy(q, p, pbt::talloc::block_size(p));
                b.old(p, 0);
            }
            return q;
        }
        char *q = nullptr;
        if (n) {
            q = n < LEAST ? (char *) b.old(nullptr, n) : b.fresh(n);
            memcpy(q, p, std::min(n, i->second.size));
        }
        b.drop(i);
        return q;
    }
    // is p a text of n characters, `unit` over and over (its size divides ALIAS)
    // and then `tail` (less than half of OWN)?
    void check(const char *p, size_t n, const std::string &unit, const std::string &tail, const char *what)
    {
        REQUIRE(p, "%s: no result", what);
        if (n + 1 < LEAST || ALIAS % unit.size())
            abort();
        auto i = blocks.find((char *) p);
        REQUIRE(i != blocks.end(), "%s: a block too small for the result of %zu bytes", what, n);
        REQUIRE(i->second.size > n, "%s: a block of %zu bytes for a result of %zu and the NUL", what, i->second.size, n);
        if (i->second.size > n + 8192)
            return; // the end of the text is not in memory of its own
        for (size_t k = n - tail.size() - 8192; k <= n; k++) {
            char want = k == n ? 0 : k < n - tail.size() ? unit[k % unit.size()] : tail[k - (n - tail.size())];
            REQUIRE(p[k] == want, "%s: byte %zu of %zu is 0x%02x, not 0x%02x", what, k, n, p[k] & 0xff, want & 0xff);
        }
        for (size_t k = 0; k < unit.size(); k++)
            REQUIRE(p[k] == unit[k], "%s: a byte like 0x%02x where 0x%02x belongs (at %zu or so)", what, p[k] & 0xff,
                    unit[k] & 0xff, k);
    }
};

// around the points where narrower types give up, up to 2^32 and a bit
inline size_t vast_size(pbt::Src &s)
{
    static const uint64_t points[] = {1ull << 31, 1ull << 32, 1ull << 32, (1ull << 32) + (1ull << 20), 3ull << 30};
    uint64_t v = points[s.below(sizeof points / sizeof *points)];
    return (size_t) (v + s.below(10) - 2);
}

// differences of addresses beyond what an int or an unsigned holds
inline size_t vast_room(pbt::Src &s)
{
    static const unsigned bits[] = {31, 32, 32, 33, 36, 16};
    return ((size_t) 1 << bits[s.below(6)]) * (1 + s.below(2)) + s.below(9) - 4;
}
} // namespace
