#include "pbt.hpp"
#include <fsdyn/float.h>
#include <math.h>
#include <limits.h>
using namespace pbt;

namespace {

// The exact value of a pattern: an integer below 2^65 in magnitude, or not.
bool exact(uint64_t v, bool *neg, unsigned __int128 *mag)
{
    *neg = v >> 63;
    unsigned e = (unsigned) (v >> 52) & 0x7ff;
    uint64_t f = v & 0xfffffffffffffull;
    if (e == 0x7ff)
        return false;
    unsigned __int128 m = e ? f + ((uint64_t) 1 << 52) : f;
    int sh = (e ? (int) e : 1) - 1023 - 52; // value = m * 2^sh
    while (sh < 0) {
        if (m == 0)
            break;
        if (m & 1)
            return false;
        m >>= 1;
        sh++;
    }
    if (m == 0) {
        *mag = 0;
        return true;
    }
    while (sh > 0) {
        if (m >> 65)
            return false; // out of range of every type
        m <<= 1;
        sh--;
    }
    *mag = m;
    return true;
}

void check_pattern(uint64_t v)
{
    bool neg;
    unsigned __int128 mag = 0;
    bool is_int = exact(v, &neg, &mag);
    unsigned __int128 one = 1;
    bool want_s = is_int && (neg ? mag <= (one << 63) : mag < (one << 63));
    bool want_u = is_int && (mag == 0 || !neg) && mag < (one << 64);
    double d;
    memcpy(&d, &v, 8);
    for (unsigned long long init : {0ull, 0x123456789abcdefull}) {
        long long n = (long long) init;
        bool r = binary64_to_integer(v, &n);
        REQUIRE(r == want_s, "binary64_to_integer(%016llx = %a) %s", (unsigned long long) v, d,
                r ? "succeeds" : "fails");
        if (r) {
            __int128 w = neg ? -(__int128) mag : (__int128) mag;
            REQUIRE((__int128) n == w, "binary64_to_integer(%016llx = %a) gives %lld", (unsigned long long) v,
                    d, n);
            REQUIRE((double) n == d, "binary64_to_integer(%016llx = %a) gives %lld", (unsigned long long) v,
                    d, n);
        }
        unsigned long long u = init;
        r = binary64_to_unsigned(v, &u);
        REQUIRE(r == want_u, "binary64_to_unsigned(%016llx = %a) %s", (unsigned long long) v, d,
                r ? "succeeds" : "fails");
        if (r)
            REQUIRE((unsigned __int128) u == mag, "binary64_to_unsigned(%016llx = %a) gives %llu",
                    (unsigned long long) v, d, u);
    }
}

// every sign and exponent with every one- and two-bit fraction, its complement
// and every run of low or high fraction bits
void exponents(Src &s)
{
    uint64_t i = s.upto(4095);
    uint64_t top = i << 52;
    s.note("sign and exponent %03llx", (unsigned long long) i);
    const uint64_t F = 0xfffffffffffffull;
    for (int a = 0; a < 52; a++) {
        check_pattern(top | (F >> a));
        check_pattern(top | (F & ~(F >> a)));
        for (int b = 0; b <= a; b++) {
            uint64_t f = (uint64_t) 1 << a | (uint64_t) 1 << b;
            check_pattern(top | f);
            check_pattern(top | (F & ~f));
            // a run of bits b..a
            check_pattern(top | (((uint64_t) 2 << a) - ((uint64_t) 1 << b)));
        }
    }
    check_pattern(top);
    s.nontrivial();
}

void patterns(Src &s)
{
    uint64_t v;
    switch (s.below(7)) {
        case 0: { // an integer
            long long n = (long long) s.u64();
            double d = (double) n;
            memcpy(&v, &d, 8);
            break;
        }
        case 1: { // an unsigned one
            double d = (double) s.u64();
            memcpy(&v, &d, 8);
            break;
        }
        case 2: // the exponents where things happen
        {
            uint64_t e = 1023 + (uint64_t) s.range(-3, 70);
            int sig = (int) s.below(53);
            uint64_t f = sig ? s.upto(((uint64_t) 1 << sig) - 1) << (52 - sig) : 0;
            v = s.upto(1) << 63 | e << 52 | f;
            break;
        }
        case 3: { // small numbers and halves
            double d = (double) s.range(-100000, 100000) / (double) (1 << s.below(5));
            memcpy(&v, &d, 8);
            break;
        }
        case 4: { // near the powers of two
            double d = ldexp(1.0, (int) s.below(70));
            memcpy(&v, &d, 8);
            v += (uint64_t) s.range(-4, 4);
            if (s.flip())
                v ^= (uint64_t) 1 << 63;
            break;
        }
        case 5: // zero, subnormal, infinite, NaN
            v = s.upto(1) << 63 | (s.flip() ? (uint64_t) 0x7ff << 52 : 0) |
                (s.flip() ? s.upto(0xfffffffffffffull) : s.upto(3));
            break;
        default:
            v = s.upto(UINT64_MAX);
    }
    s.note("pattern %016llx", (unsigned long long) v);
    check_pattern(v);
    check_pattern(v ^ (uint64_t) 1 << 63);
    check_pattern(v + 1);
    check_pattern(v - 1);
    bool neg;
    unsigned __int128 mag;
    if (exact(v, &neg, &mag)) {
        s.label("integer");
        if (mag > (unsigned __int128) 1 << 53)
            s.label("integer beyond 2^53");
    }
    s.nontrivial();
}

PROPERTY(C23,
         "A case is a sign and exponent with all one-, two- and run-of-bits fractions and their complements, "
         "or a pattern biased to integers, exponents around the type limits, halves, zeros, subnormals, "
         "infinities and NaNs, with its neighbours and its negation; all are non-trivial.",
         {{"exponents", exponents, F_PROD | F_ENUM, 4096, 4096, 1, 0},
          {"patterns", patterns, F_PROD | F_ASAN | F_FUZZ, 32000000, 400000000, 40, 240000}});
} // namespace
