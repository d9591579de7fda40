#include "pbt.hpp"
#include <algorithm>
#include <fsdyn/bytearray.h>
#include <fsdyn/charstr.h>
#include <fsdyn/fsalloc.h>
#include <limits.h>
#include <malloc.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
using namespace pbt;
namespace fd = fsecure::fsdyn;

// ---- In the binaries of this check the library's references to the C
// library's allocation functions are redirected here (see check.py), so that
// memory obtained behind the reallocator's back is noticed.
static unsigned long direct_calls;
static bool default_in_use;
static const char *direct_name = "";
#define DIRECT(n) (default_in_use || (direct_calls++, direct_name = n))
extern "C" {
void *pbtlib_malloc(size_t n) { DIRECT("malloc"); return malloc(n); }
void *pbtlib_calloc(size_t n, size_t m) { DIRECT("calloc"); return calloc(n, m); }
void *pbtlib_realloc(void *p, size_t n) { DIRECT("realloc"); return realloc(p, n); }
void *pbtlib_reallocarray(void *p, size_t n, size_t m) { DIRECT("reallocarray"); return reallocarray(p, n, m); }
void pbtlib_free(void *p) { DIRECT("free"); free(p); }
char *pbtlib_strdup(const char *s) { DIRECT("strdup"); return strdup(s); }
char *pbtlib_strndup(const char *s, size_t n) { DIRECT("strndup"); return strndup(s, n); }
void *pbtlib_aligned_alloc(size_t a, size_t n) { DIRECT("aligned_alloc"); return aligned_alloc(a, n); }
int pbtlib_posix_memalign(void **p, size_t a, size_t n) { DIRECT("posix_memalign"); return posix_memalign(p, a, n); }
int pbtlib_vasprintf(char **p, const char *f, va_list ap) { DIRECT("vasprintf"); return vasprintf(p, f, ap); }
int pbtlib_asprintf(char **p, const char *f, ...)
{
    DIRECT("asprintf");
    va_list ap;
    va_start(ap, f);
    int r = vasprintf(p, f, ap);
    va_end(ap);
    return r;
}
}

namespace {

// Two reallocators on the same tracked heap: only the installed one may be
// called.
uint64_t calls_a, calls_b;
void *hook_a(void *p, size_t n)
{
    calls_a++;
    return talloc::hook(p, n);
}
void *hook_b(void *p, size_t n)
{
    calls_b++;
    return talloc::hook(p, n);
}
// refuses what cannot be had
void *hook_tight(void *p, size_t n)
{
    if (n > (size_t) 1 << 26)
        return nullptr;
    return talloc::hook(p, n);
}

const fs_realloc_t initial = fs_get_reallocator();

struct Installed {
    fs_realloc_t old;
    explicit Installed(fs_realloc_t h) : old(fs_get_reallocator()) { fs_set_reallocator(h); }
    ~Installed() { fs_set_reallocator(old); }
};

// ------------------------------------------------ the other properties' cases
void operations(Src &s)
{
    static std::vector<const Stage *> stages;
    static std::vector<std::string> names;
    if (stages.empty()) {
        std::vector<const Property *> ps = registry();
        std::sort(ps.begin(), ps.end(),
                  [](const Property *a, const Property *b) { return strcmp(a->id, b->id) < 0; });
        for (const Property *p : ps)
            for (const Stage &st : p->stages)
                if (st.flags & F_ALLOC) {
                    // large histories are rare
                    int copies = strcmp(st.name, "large") ? 8 : 1;
                    for (int k = 0; k < copies; k++) {
                        stages.push_back(&st);
                        names.push_back(std::string(p->id) + "/" + st.name);
                    }
                }
    }
    size_t i = s.below(stages.size());
    bool b = s.flip();
    s.note("the operations of %s", names[i].c_str());
    s.label(names[i].c_str());
    Installed in(b ? hook_b : hook_a);
    uint64_t a0 = calls_a, b0 = calls_b;
    unsigned long d0 = direct_calls;
    size_t live0 = talloc::live;
    long skew0 = talloc::skew;
    bool done = run_guarded_stage(*stages[i], s);
    REQUIRE(direct_calls == d0, "the library calls %s directly", direct_name);
    REQUIRE((b ? calls_a == a0 : calls_b == b0), "a reallocator that is not installed was called");
    if (!done)
        return;                 // not our concern
    long bal = (long) talloc::live - (long) live0 + talloc::skew - skew0;
    REQUIRE(bal == 0, "%ld block(s) still allocated after everything was released (operations of %s)", bal,
            names[i].c_str());
    if ((b ? calls_b - b0 : calls_a - a0) > 0)
        s.nontrivial();
}

// ------------------------------------------------------- the functions proper
struct Block {
    char *p;
    size_t n;
    unsigned char fill;
};

bool filled(const Block &b, size_t n)
{
    for (size_t i = 0; i < n; i++)
        if ((unsigned char) b.p[i] != (unsigned char) (b.fill + i * 7))
            return false;
    return true;
}

void fill(Block &b)
{
    for (size_t i = 0; i < b.n; i++)
        b.p[i] = (char) (b.fill + i * 7);
}

void raw(Src &s)
{
    std::vector<Block> blocks;
    fs_realloc_t hooks[] = {hook_a, hook_b};
    int cur = (int) s.below(2);
    Installed in(hooks[cur]);
    size_t live0 = talloc::live;
    struct Cleanup {
        std::vector<Block> &b;
        ~Cleanup()
        {
            for (Block &x : b)
                talloc::hook(x.p, 0);
        }
    } cleanup{blocks};
    unsigned char seed = 1;
    while (s.more(15)) {
        uint64_t a0 = calls_a, b0 = calls_b;
        size_t expect = blocks.size();
        switch (s.below(7)) {
            case 0: { // allocate
                size_t n = 1 + s.size(5000);
                s.note("fsalloc(%zu)", n);
                char *p = (char *) fsalloc(n);
                REQUIRE(p && talloc::owns(p) && talloc::block_size(p) >= n, "fsalloc(%zu): no such block", n);
                blocks.push_back({p, n, seed++});
                fill(blocks.back());
                expect++;
                break;
            }
            case 1: { // zeroed
                size_t m = 1 + s.size(70), n = 1 + s.size(70);
                s.note("fscalloc(%zu, %zu)", m, n);
                char *p = (char *) fscalloc(m, n);
                REQUIRE(p && talloc::owns(p) && talloc::block_size(p) >= m * n,
                        "fscalloc(%zu, %zu): no such block", m, n);
                for (size_t i = 0; i < m * n; i++)
                    REQUIRE(!p[i], "fscalloc(%zu, %zu): byte %zu is not zero", m, n, i);
                blocks.push_back({p, m * n, seed++});
                fill(blocks.back());
                expect++;
                break;
            }
            case 2: { // resize
                if (blocks.empty())
                    break;
                Block &b = blocks[s.below(blocks.size())];
                size_t n = 1 + s.size(5000);
                if (s.flip())
                    n = (size_t) std::max<int64_t>(1, (int64_t) b.n + s.range(-3, 3));
                s.note("fsrealloc(block of %zu, %zu)", b.n, n);
                char *p = (char *) fsrealloc(b.p, n);
                REQUIRE(p && talloc::owns(p) && talloc::block_size(p) >= n, "fsrealloc(.., %zu): no such block",
                        n);
                b.p = p;
                REQUIRE(filled(b, std::min(b.n, n)), "fsrealloc(.., %zu): the content is lost", n);
                b.n = n;
                fill(b);
                break;
            }
            case 3: { // fsrealloc(NULL)
                size_t n = 1 + s.size(300);
                s.note("fsrealloc(NULL, %zu)", n);
                char *p = (char *) fsrealloc(nullptr, n);
                REQUIRE(p && talloc::owns(p) && talloc::block_size(p) >= n, "fsrealloc(NULL, %zu): no such block",
                        n);
                blocks.push_back({p, n, seed++});
                fill(blocks.back());
                expect++;
                break;
            }
            case 4: { // release
                s.note("fsfree(NULL)");
                fsfree(nullptr);
                if (blocks.empty())
                    break;
                size_t i = s.below(blocks.size());
                Block b = blocks[i];
                blocks.erase(blocks.begin() + (ptrdiff_t) i);
                if (s.flip()) {
                    s.note("fsfree(block of %zu)", b.n);
                    fsfree(b.p);
                } else {
                    s.note("fsrealloc(block of %zu, 0)", b.n);
                    fsrealloc(b.p, 0);
                }
                expect--;
                break;
            }
            case 5: // another reallocator on the same heap
                cur = !cur;
                s.note("fs_set_reallocator");
                fs_set_reallocator(hooks[cur]);
                break;
            default:
                break;
        }
        REQUIRE(fs_get_reallocator() == hooks[cur], "fs_get_reallocator returns another one");
        REQUIRE(cur ? calls_a == a0 : calls_b == b0, "a reallocator that is not installed was called");
        REQUIRE(talloc::live - live0 == expect, "%zu blocks are allocated, expected %zu", talloc::live - live0,
                expect);
        // the others are untouched
        for (const Block &b : blocks)
            REQUIRE(filled(b, b.n), "a block of %zu bytes was changed", b.n);
        if (blocks.size() > 1)
            s.nontrivial();
    }
}

// products at and beyond the limits of size_t
void products(Src &s)
{
    Installed in(hook_tight);
    size_t m = 0, n = 0;
    switch (s.below(5)) {
        case 0: { // just around SIZE_MAX
            n = 1 + s.size((size_t) 1 << 40);
            m = SIZE_MAX / n + (size_t) s.range(0, 2);
            break;
        }
        case 1: { // wraps to something small
            int k = 1 + (int) s.below(63);
            m = (size_t) 1 << k;
            n = ((size_t) 1 << (64 - k)) + s.below(100);
            break;
        }
        case 2:
            m = (size_t) s.u64();
            n = (size_t) s.u64();
            break;
        case 3: {
            m = SIZE_MAX - s.below(3);
            n = 2 + s.below(100);
            break;
        }
        default: // fits
            m = 1 + s.size(3000);
            n = 1 + s.size(3000);
    }
    if (s.flip())
        std::swap(m, n);
    if (!m || !n)
        return;
    unsigned __int128 want = (unsigned __int128) m * n;
    s.note("fscalloc(%zu, %zu)", m, n);
    size_t live0 = talloc::live;
    void *p = fscalloc(m, n);
    if (p) {
        REQUIRE(talloc::owns(p) && talloc::block_size(p) >= want,
                "fscalloc(%zu, %zu) returns a block of %zu bytes", m, n, talloc::block_size(p));
        for (size_t i = 0; i < (size_t) want; i++)
            REQUIRE(!((char *) p)[i], "fscalloc(%zu, %zu): byte %zu is not zero", m, n, i);
        fsfree(p);
        s.label("product that fits");
    } else {
        REQUIRE(want > (unsigned __int128) 1 << 26, "fscalloc(%zu, %zu) fails", m, n);
        if (want > SIZE_MAX)
            s.label("product beyond SIZE_MAX");
    }
    REQUIRE(talloc::live == live0, "fscalloc leaves a block behind");
    s.nontrivial();
}

long long seen;
int seen_calls;
void count_a(int n)
{
    seen += n;
    seen_calls++;
}
long long seen_b;
int seen_b_calls;
void count_b(int n)
{
    seen_b += n;
    seen_b_calls++;
}

void skews(Src &s)
{
    fs_reallocator_counter_t old = fs_get_reallocator_counter();
    struct Back {
        fs_reallocator_counter_t c;
        ~Back() { fs_set_reallocator_counter(c); }
    } back{old};
    fs_reallocator_counter_t cs[] = {count_a, count_b};
    int cur = (int) s.below(2);
    fs_set_reallocator_counter(cs[cur]);
    while (s.more(6)) {
        if (s.chance(1, 4)) {
            cur = !cur;
            s.note("fs_set_reallocator_counter");
            fs_set_reallocator_counter(cs[cur]);
        }
        REQUIRE(fs_get_reallocator_counter() == cs[cur], "fs_get_reallocator_counter returns another one");
        int n;
        switch (s.below(3)) {
            case 0:
                n = (int) s.range(-1, 1);
                break;
            case 1:
                n = s.flip() ? INT_MAX - (int) s.below(2) : INT_MIN + (int) s.below(2);
                break;
            default:
                n = (int) s.u64();
        }
        seen = seen_b = 0;
        seen_calls = seen_b_calls = 0;
        s.note("fs_reallocator_skew(%d)", n);
        fs_reallocator_skew(n);
        REQUIRE((cur ? seen_b : seen) == n && (cur ? seen_calls : seen_b_calls) == 0,
                "fs_reallocator_skew(%d) reports %lld", n, cur ? seen_b : seen);
        // allocation does not report skews
        seen_calls = seen_b_calls = 0;
        void *p = fsalloc(5);
        p = fsrealloc(p, 50);
        fsfree(p);
        REQUIRE(!seen_calls && !seen_b_calls, "allocation reports a skew");
        s.nontrivial();
    }
}

// C++ owners: released exactly once
void owners(Src &s)
{
    size_t live0 = talloc::live;
    {
        std::vector<fd::AllocPtr<char>> raws;
        std::vector<fd::ByteArrayPtr> arrays;
        std::vector<fd::CharstrUrlEncoderPtr> encs;
        size_t loose = 0;       // blocks owned by us
        std::vector<void *> held;
        struct Cleanup {
            std::vector<void *> &h;
            ~Cleanup()
            {
                for (void *p : h)
                    fsfree(p);
            }
        } cleanup{held};
        while (s.more(12)) {
            switch (s.below(9)) {
                case 0:
                    s.note("make_fsalloc_ptr");
                    raws.push_back(fd::make_fsalloc_ptr<char>(s.chance(1, 6) ? nullptr : fsalloc(1 + s.below(100))));
                    break;
                case 1: {
                    s.note("make_byte_array_ptr");
                    byte_array_t *a = s.chance(1, 6) ? nullptr : make_byte_array(100);
                    if (a)
                        byte_array_append(a, "hello", 5);
                    arrays.push_back(fd::make_byte_array_ptr(a));
                    REQUIRE(arrays.back().get() == a, "make_byte_array_ptr owns something else");
                    break;
                }
                case 2:
                    s.note("make_charstr_url_encoder_ptr");
                    encs.push_back(fd::make_charstr_url_encoder_ptr(charstr_create_url_encoder("a", "/")));
                    REQUIRE(encs.back() && !strcmp(charstr_url_custom_encode_byte(encs.back().get(), 'a'), "%61"),
                            "make_charstr_url_encoder_ptr: wrong encoder");
                    break;
                case 3:
                    if (!raws.empty()) {
                        s.note("reset");
                        raws[s.below(raws.size())].reset();
                    }
                    break;
                case 4:
                    if (raws.size() > 1) {
                        s.note("move");
                        size_t i = s.below(raws.size()), j = s.below(raws.size());
                        if (i != j)
                            raws[i] = std::move(raws[j]);
                    }
                    break;
                case 5:
                    if (!raws.empty()) {
                        s.note("release");
                        void *p = raws[s.below(raws.size())].release();
                        if (p) {
                            held.push_back(p);
                            loose++;
                        }
                    }
                    break;
                case 6:
                    if (arrays.size() > 1) {
                        s.note("swap and pop");
                        std::swap(arrays[s.below(arrays.size())], arrays.back());
                        arrays.pop_back();
                    }
                    break;
                case 7:
                    if (!encs.empty()) {
                        s.note("erase encoder");
                        encs.erase(encs.begin() + (ptrdiff_t) s.below(encs.size()));
                    }
                    break;
                default: // a shared byte array
                    if (!arrays.empty()) {
                        fd::ByteArrayPtr &a = arrays[s.below(arrays.size())];
                        if (a) {
                            s.note("copy");
                            arrays.push_back(fd::make_byte_array_ptr(share_byte_array(a.get())));
                        }
                    }
            }
            for (void *p : held)
                REQUIRE(talloc::owns(p), "a released block is gone");
            for (auto &r : raws)
                REQUIRE(!r || talloc::owns(r.get()), "an owned block is gone");
            for (auto &a : arrays)
                REQUIRE(!a || byte_array_size(a.get()) == 5, "an owned byte array is gone");
            if (raws.size() + arrays.size() + encs.size() > 1)
                s.nontrivial();
        }
    }
    REQUIRE(talloc::live == live0, "%ld blocks remain after all owners are gone",
            (long) talloc::live - (long) live0);
}

// the reallocator the library starts with
void builtin(Src &s)
{
    Installed in(initial);
    default_in_use = true;
    struct Off {
        ~Off() { default_in_use = false; }
    } off;
    std::vector<Block> blocks;
    unsigned char seed = 1;
    size_t before = mallinfo2().uordblks + mallinfo2().hblkhd;
    size_t most = 0, ops = 0;
    {
        blocks.reserve(64);
        before = mallinfo2().uordblks + mallinfo2().hblkhd;
        while (s.more(20) && blocks.size() < 60) {
            ops++;
            if (blocks.empty() || s.chance(2, 5)) {
                size_t n = 200000 + s.size(100000);
                char *p = (char *) (s.flip() ? fsalloc(n) : fsrealloc(nullptr, n));
                REQUIRE(p, "the initial reallocator gives NULL");
                blocks.push_back({p, n, seed++});
                fill(blocks.back());
            } else if (s.flip()) {
                Block &b = blocks[s.below(blocks.size())];
                size_t n = 1000 + s.size(300000);
                char *p = (char *) fsrealloc(b.p, n);
                REQUIRE(p, "the initial reallocator gives NULL");
                b.p = p;
                REQUIRE(filled(b, std::min(b.n, n)), "the content is lost in fsrealloc");
                b.n = n;
                fill(b);
            } else {
                size_t i = s.below(blocks.size());
                if (s.flip())
                    fsfree(blocks[i].p);
                else
                    REQUIRE(!fsrealloc(blocks[i].p, 0), "fsrealloc(.., 0) is not NULL");
                blocks.erase(blocks.begin() + (ptrdiff_t) i);
            }
            most = std::max(most, blocks.size());
        }
        s.note("%zu operations on the initial reallocator", ops);
        for (Block &b : blocks) {
            REQUIRE(filled(b, b.n), "a block was changed");
            fsfree(b.p);
        }
        fsfree(nullptr);
    }
#ifndef __clang__               // the sanitizers have an allocator of their own
    size_t after = mallinfo2().uordblks + mallinfo2().hblkhd;
    REQUIRE(after < before + 100000, "%zu bytes remain allocated by the initial reallocator", after - before);
#endif
    if (most > 1)
        s.nontrivial();
}

PROPERTY(C24,
         "A case is a case of another property's generator (any history, string or failing call) run under one "
         "of two tracking reallocators with the balance checked at the end, or a history of the allocation "
         "functions, products around SIZE_MAX, skew reports, or C++ owners; non-trivial if the library "
         "allocates memory (or more than one block or owner exists).",
         {{"operations", operations, F_PROD | F_ASAN | F_FUZZ, 400000, 20000000, 8, 40000},
          {"raw", raw, F_PROD | F_ASAN | F_FUZZ, 100000, 5000000, 5, 20000},
          {"products", products, F_PROD | F_ASAN, 60000, 2000000, 4, 0},
          {"skews", skews, F_PROD | F_ASAN, 60000, 1000000, 6, 0},
          {"owners", owners, F_PROD | F_ASAN | F_FUZZ | F_LEAK, 100000, 5000000, 5, 15000},
          {"builtin", builtin, F_PROD | F_ASAN, 2000, 40000, 4, 0}});
} // namespace
