#pragma once
// Now and then makes a text long: behind, before or among thousands of elements of
// filler, or repeated, with total sizes around powers of two.
#include "pbt.hpp"
#include <algorithm>

namespace {
template <class Seq> void inflate(pbt::Src &s, Seq &t, const Seq &unit, unsigned every = 250,
                                  uint64_t max = 70000)
{
    if (!s.chance(1, every))
        return;
    static const std::vector<uint64_t> points{127,  128,  255,  256,  511,   512,   1000,  1023,  1024,  2047,
                                              2048, 4095, 4096, 8191, 8192,  10000, 16384, 32767, 32768, 65535,
                                              65536};
    static const std::vector<uint64_t> far{65536,  98304,  131071, 131072, 196608,  262143, 262144,
                                           393216, 524287, 524288, 786432, 1048575, 1048576};
    if (max >= 20000 && s.mode != pbt::Src::BYTES && s.chance(1, 40)) {
        // repeated from the start: cheap whatever the kind of text
        size_t n = s.size_near(max >= 70000 ? 1200000 : 300000, far);
        Seq f;
        while (f.size() < n)
            f.insert(f.end(), unit.begin(), unit.end());
        f.resize(n);
        if (s.flip())
            f.insert(f.begin(), t.begin(), t.end());
        else
            f.insert(f.end(), t.begin(), t.end());
        t = f;
        s.label("very long text");
        return;
    }
    // moderate sizes under libFuzzer, which would otherwise grow slow on them
    size_t n = s.size_near(s.mode == pbt::Src::BYTES && max > 600 ? 600 : max, points);
    Seq f;
    unsigned kind = (unsigned) s.below(6);
    const Seq &u = kind == 3 && !t.empty() ? t : unit;
    while (f.size() < n)
        f.insert(f.end(), u.begin(), u.end());
    switch (kind) {
        case 0:     // exactly n elements in all, the text at the end
            f.resize(n > t.size() ? n - t.size() : 0);
            f.insert(f.end(), t.begin(), t.end());
            break;
        case 1:
            f.resize(n);
            f.insert(f.end(), t.begin(), t.end());
            break;
        case 2:
            f.resize(n);
            f.insert(f.begin(), t.begin(), t.end());
            break;
        case 3:     // repeated
            break;
        case 4:     // a long run within it
            f.resize(n);
            f.insert(f.end(), t.begin(), t.end());
            std::rotate(f.begin(), f.begin() + (ptrdiff_t) n, f.begin() + (ptrdiff_t) (n + s.below(t.size() + 1)));
            break;
        default: {
            f.resize(n);
            size_t at = s.below(n + 1);
            f.insert(f.begin() + (ptrdiff_t) at, t.begin(), t.end());
        }
    }
    t = f;
    s.label("long text");
}
} // namespace
