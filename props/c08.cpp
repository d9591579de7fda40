#include "pbt.hpp"
#include <fsdyn/intset.h>
#include <limits.h>
#include <algorithm>
using namespace pbt;

namespace {

struct Set {
    intset_t *t;
    size_t n;
    std::vector<char> m;
    int next(unsigned e, char want) const
    {
        for (size_t i = e; i < n; i++)
            if (m[i] == want)
                return (int) i;
        return -1;
    }
    void check(unsigned e)
    {
        bool has = e < n && m[e];
        REQUIRE(intset_has(t, e) == has, "has(%u) is %d (size %zu)", e, !has, n);
        int hit = intset_find_next_hit(t, e), miss = intset_find_next_miss(t, e);
        int h = e < n ? next(e, 1) : -1, mi = e < n ? next(e, 0) : -1;
        REQUIRE(hit == h, "find_next_hit(%u) is %d, expected %d (size %zu)", e, hit, h, n);
        REQUIRE(miss == mi, "find_next_miss(%u) is %d, expected %d (size %zu)", e, miss, mi, n);
    }
    void check_empty()
    {
        bool want = next(0, 1) < 0;
        REQUIRE(intset_empty(t) == want, "empty is %d (size %zu)", !want, n);
    }
};

unsigned element(Src &s, size_t n)
{
    static const unsigned odd[] = {UINT_MAX, UINT_MAX - 1, INT_MAX, (unsigned) INT_MAX + 1u, 0x80000001u,
                                   UINT_MAX - 63, UINT_MAX - 64};
    switch (s.below(8)) {
        case 0:
            return s.pick(odd);
        case 1:
            return (unsigned) (n + s.below(130));
        case 2:
            return (unsigned) (s.below(n / 64 + 2) * 64 + s.below(3)) - 1;
        case 3:
            return (unsigned) n - (unsigned) s.below(4);
        case 4: // beyond the range by a multiple of the word sizes
            return (unsigned) (s.below(n + 1) + (1ull << (5 + s.below(27))));
        default:
            return (unsigned) s.below(n + 2);
    }
}

void history(Src &s)
{
    static const std::vector<uint64_t> pts = {32, 64, 128, 192, 256, 8, 16};
    Set x;
    x.n = s.size_near(400, pts);
    s.note("make_intset(%zu)", x.n);
    x.t = make_intset(x.n);
    x.m.assign(x.n, 0);
    REQUIRE(x.t, "make_intset returned NULL");
    x.check_empty();
    bool filled = false, changed = false;
    std::vector<unsigned> w;
    for (int i = 0; i < 6; i++)
        w.push_back(s.chance(3, 4) ? 1 + s.below(6) : 0);
    w[0] += 2;
    while (s.more(30)) {
        switch (s.weighted(w)) {
            case 0: {
                unsigned e = element(s, x.n);
                s.note("add %u", e);
                intset_add(x.t, e);
                if (e < x.n)
                    x.m[e] = changed = 1;
                x.check(e);
                break;
            }
            case 1: {
                unsigned e = element(s, x.n);
                s.note("remove %u", e);
                intset_remove(x.t, e);
                if (e < x.n)
                    x.m[e] = 0;
                x.check(e);
                break;
            }
            case 2:
                s.note("fill");
                intset_fill(x.t);
                std::fill(x.m.begin(), x.m.end(), 1);
                filled = changed = true;
                break;
            case 3: {
                unsigned a = element(s, x.n), c = (unsigned) s.below(140);
                s.note("remove %u elements from %u", c, a);
                for (unsigned k = 0; k < c; k++) {
                    intset_remove(x.t, a + k);
                    if (a + k < x.n)
                        x.m[a + k] = 0;
                }
                break;
            }
            case 4: {
                unsigned a = element(s, x.n), c = (unsigned) s.below(140);
                s.note("add %u elements from %u", c, a);
                for (unsigned k = 0; k < c; k++) {
                    intset_add(x.t, a + k);
                    if (a + k < x.n)
                        x.m[a + k] = 1;
                }
                break;
            }
            case 5: {
                unsigned e = element(s, x.n);
                s.note("queries of %u", e);
                x.check(e);
                break;
            }
        }
        x.check_empty();
        if (s.chance(1, 6))
            for (unsigned e = 0; e < x.n + 2; e++)
                x.check(e);
    }
    for (unsigned e = 0; e < x.n + 3; e++)
        x.check(e);
    x.check(UINT_MAX);
    x.check(INT_MAX);
    if (x.n && changed)
        s.nontrivial();
    if (filled)
        s.label("filled");
    if (x.n == 0)
        s.label("empty range");
    if (x.n % 64 == 0)
        s.label("size a multiple of the word");
    destroy_intset(x.t);
}

// big ranges, sparse model
void big(Src &s)
{
    static const std::vector<uint64_t> pts = {1ull << 24, 1ull << 27, 1ull << 30, INT_MAX - 70};
    size_t n = 1000 + s.size_near(INT_MAX - 1000, pts);
    s.note("make_intset(%zu)", n);
    intset_t *t = make_intset(n);
    bool fill = s.flip();
    if (fill)
        intset_fill(t);
    std::vector<unsigned> marks; // exceptions to the fill state
    for (int i = 0; i < 4; i++) {
        unsigned e = s.flip() ? (unsigned) s.below(n) : (unsigned) (n - 1 - s.below(130));
        marks.push_back(e);
        if (fill)
            intset_remove(t, e);
        else
            intset_add(t, e);
    }
    // out of range ones change nothing
    unsigned beyond[] = {(unsigned) n, (unsigned) n + 1, UINT_MAX, (unsigned) n + 64};
    for (unsigned e : beyond) {
        if (fill)
            intset_remove(t, e);
        else
            intset_add(t, e);
        REQUIRE(!intset_has(t, e), "has(%u) though the size is %zu", e, n);
        REQUIRE(intset_find_next_hit(t, e) == -1 && intset_find_next_miss(t, e) == -1,
                "find_next(%u) finds something though the size is %zu", e, n);
    }
    std::sort(marks.begin(), marks.end());
    marks.erase(std::unique(marks.begin(), marks.end()), marks.end());
    unsigned from = 0;
    for (unsigned e : marks) {
        REQUIRE(intset_has(t, e) == !fill, "has(%u) is wrong (size %zu)", e, n);
        int got = fill ? intset_find_next_miss(t, from) : intset_find_next_hit(t, from);
        REQUIRE(got == (int) e, "find_next(%u) is %d, expected %u (size %zu)", from, got, e, n);
        from = e + 1;
    }
    int got = fill ? intset_find_next_miss(t, from) : intset_find_next_hit(t, from);
    REQUIRE(got == -1, "find_next(%u) is %d, expected -1 (size %zu)", from, got, n);
    unsigned last = (unsigned) n - 1;
    bool in = std::find(marks.begin(), marks.end(), last) != marks.end() ? !fill : fill;
    REQUIRE(intset_has(t, last) == in, "has(%u) is wrong (size %zu)", last, n);
    REQUIRE((intset_find_next_hit(t, last) >= 0) == in, "find_next_hit(%u) is wrong (size %zu)", last, n);
    REQUIRE((intset_find_next_miss(t, last) >= 0) == !in, "find_next_miss(%u) is wrong (size %zu)", last, n);
    s.nontrivial();
    destroy_intset(t);
}

// ranges beyond INT_MAX: membership, and the answers an int can hold
void vast(Src &s)
{
    static const std::vector<uint64_t> pts = {0, 1, 2, 64, 1ull << 30, (1ull << 31) - 64, (1ull << 31) - 1, 1ull << 31};
    size_t n = s.chance(1, 4) ? (1ull << 32) - 130 + s.below(s.flip() ? 260 : 1ull << 30)
                              : (1ull << 31) + s.size_near(1ull << 31, pts);
    s.note("make_intset(%zu)", n);
    intset_t *t = make_intset(n);
    bool fill = s.flip();
    if (fill)
        intset_fill(t);
    std::vector<unsigned> marks;
    for (int i = 0; i < 12; i++) {
        unsigned e = s.chance(1, 3)  ? (unsigned) s.below(1ull << 31)
                     : s.flip() ? (unsigned) (s.below(std::min<size_t>(n, UINT_MAX)))
                                : (unsigned) (std::min<size_t>(n, 1ull << 32) - 1 - s.below(200));
        marks.push_back(e);
        fill ? intset_remove(t, e) : intset_add(t, e);
    }
    std::sort(marks.begin(), marks.end());
    marks.erase(std::unique(marks.begin(), marks.end()), marks.end());
    if (fill || !marks.empty())
        REQUIRE(!intset_empty(t), "empty (size %zu)", n);
    unsigned from = 0;
    for (unsigned e : marks) {
        REQUIRE(intset_has(t, e) == !fill, "has(%u) is wrong (size %zu)", e, n);
        for (unsigned d = 1; d <= 64; d += 21) {
            unsigned others[] = {e + d, e - d};
            for (unsigned o : others)
                if (o < n && !std::binary_search(marks.begin(), marks.end(), o))
                    REQUIRE(intset_has(t, o) == fill, "has(%u) is wrong (size %zu)", o, n);
        }
        if (e <= INT_MAX) {
            int got = fill ? intset_find_next_miss(t, from) : intset_find_next_hit(t, from);
            REQUIRE(got == (int) e, "find_next(%u) is %d, expected %u (size %zu)", from, got, e, n);
        }
        from = e + 1;
    }
    // once more the other way
    for (unsigned e : marks) {
        fill ? intset_add(t, e) : intset_remove(t, e);
        REQUIRE(intset_has(t, e) == fill, "has(%u) is wrong (size %zu)", e, n);
    }
    if (n <= UINT_MAX) {
        unsigned e = (unsigned) n + (unsigned) s.below(UINT_MAX - n + 1);
        intset_add(t, e);
        REQUIRE(!intset_has(t, e), "has(%u) though the size is %zu", e, n);
    }
    unsigned at[] = {0, from, (unsigned) s.below(UINT_MAX), (unsigned) (std::min<size_t>(n, 1ull << 32) - 1)};
    for (unsigned e : at) {
        int got = fill ? intset_find_next_miss(t, e) : intset_find_next_hit(t, e);
        REQUIRE(got == -1, "find_next_%s(%u) is %d, expected none (size %zu)", fill ? "miss" : "hit", e, got, n);
    }
    REQUIRE(intset_empty(t) == !fill, "empty is %d (size %zu)", intset_empty(t), n);
    if (marks.size() > 1)
        s.nontrivial();
    destroy_intset(t);
}

PROPERTY(C08,
         "A case is a history of add/remove/fill operations on an integer set of a size near the word "
         "boundaries, with numbers in, at and far beyond the range, checked against a plain set; "
         "non-trivial if the range is not empty and some number was added.",
         {{"history", history, F_PROD | F_ASAN | F_FUZZ | F_ALLOC, 360000, 2500000, 5, 90000},
          {"big", big, F_PROD, 576, 4000, 1, 0},
          {"vast", vast, F_PROD, 48, 400, 1, 0}});
} // namespace
