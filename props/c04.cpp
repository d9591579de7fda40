#include "pbt.hpp"
#include "vast.hpp"
#include <fsdyn/integer.h>
#include <fsdyn/hashtable.h>
using namespace pbt;

namespace {
int sign(int x) { return (x > 0) - (x < 0); }

void integers(Src &s)
{
    uint64_t a = s.u64(), b;
    switch (s.below(4)) {
        case 0:
            b = s.u64();
            break;
        case 1:
            b = a + s.below(4);
            break;
        case 2:
            b = a - s.below(4);
            break;
        default:
            b = a ^ (1ull << s.below(64));
            break;
    }
    s.note("a = %llx, b = %llx", (unsigned long long) a, (unsigned long long) b);
    intptr_t sa = (intptr_t) a, sb = (intptr_t) b;
    uintptr_t ua = a, ub = b;
    REQUIRE(as_intptr(as_integer(sa)) == sa, "as_intptr(as_integer(%lld)) is %lld", (long long) sa,
            (long long) as_intptr(as_integer(sa)));
    REQUIRE(as_uintptr(as_unsigned(ua)) == ua, "as_uintptr(as_unsigned(%llu)) is %llu",
            (unsigned long long) ua, (unsigned long long) as_uintptr(as_unsigned(ua)));
    REQUIRE((as_integer(sa) == as_integer(sb)) == (sa == sb), "boxed integers are not interned");
    int want = (sa > sb) - (sa < sb);
    int got = integer_cmp(as_integer(sa), as_integer(sb));
    REQUIRE(sign(got) == want, "integer_cmp(%lld, %lld) = %d", (long long) sa, (long long) sb, got);
    got = integer_cmp(as_integer(sb), as_integer(sa));
    REQUIRE(sign(got) == -want, "integer_cmp(%lld, %lld) = %d", (long long) sb, (long long) sa, got);
    want = (ua > ub) - (ua < ub);
    got = unsigned_cmp(as_unsigned(ua), as_unsigned(ub));
    REQUIRE(sign(got) == want, "unsigned_cmp(%llu, %llu) = %d", (unsigned long long) ua,
            (unsigned long long) ub, got);
    got = unsigned_cmp(as_unsigned(ub), as_unsigned(ua));
    REQUIRE(sign(got) == -want, "unsigned_cmp(%llu, %llu) = %d", (unsigned long long) ub,
            (unsigned long long) ua, got);
    REQUIRE((hash_integer(as_integer(sa)) == hash_integer(as_integer(sb))) == (sa == sb),
            "hash_integer: equal hashes of %lld and %lld or unequal ones of equal numbers",
            (long long) sa, (long long) sb);
    REQUIRE((hash_unsigned(as_unsigned(ua)) == hash_unsigned(as_unsigned(ub))) == (ua == ub),
            "hash_unsigned: equal hashes of %llu and %llu or unequal ones of equal numbers",
            (unsigned long long) ua, (unsigned long long) ub);
    if (a != b)
        s.nontrivial();
    if ((int64_t) (a ^ b) < 0)
        s.label("pair with different top bits");
    if (a != b && (uint32_t) a == (uint32_t) b)
        s.label("pair differing only in the upper half");
}

void hashes(Src &s)
{
    static const std::vector<uint64_t> points{255, 256, 1023, 1024, 4096, 16384, 32768, 65535, 65536};
    size_t n = s.chance(1, 60) ? s.size_near(100000, points) : s.size(300);
    std::string x;
    Rng g = s.bulk();
    int kind = (int) s.below(3);
    for (size_t i = 0; i < n; i++) {
        int c = kind == 0 ? 'a' + (int) g.upto(3) : kind == 1 ? (int) g.upto(255) : 0x7e + (int) g.upto(4);
        x += (char) c;
    }
    s.note("blob %s", show(x).c_str());
    // same content at another address and alignment, with other neighbours
    std::string other = std::string(1 + s.below(17), (char) s.byte()) + x + (char) s.byte();
    size_t off = other.size() - 1 - n;
    Guarded exact(x.data(), n);
    uint64_t h = hash_blob(exact.p, n);
    REQUIRE(h == hash_blob(exact.p, n), "hash_blob is not a function");
    REQUIRE(h == hash_blob(other.data() + off, n),
            "hash_blob depends on more than the content of %s", show(x).c_str());
    if (n) {
        size_t i = s.below(n);
        uint8_t d = (uint8_t) (1 + s.below(255));
        std::string y = x;
        y[i] = (char) ((uint8_t) y[i] ^ d);
        REQUIRE(hash_blob(y.data(), n) != h, "hash_blob: changing byte %zu of %s by %02x keeps the hash",
                i, show(x).c_str(), d);
        s.nontrivial();
    }
    // strings: no NUL inside
    std::string t = x;
    for (char &c : t)
        if (!c)
            c = 1;
    Guarded z(t.c_str(), n + 1);
    uint64_t hs = hash_string(z.p);
    std::string pad = std::string(off, 'q') + t;
    REQUIRE(hs == hash_string(pad.c_str() + off), "hash_string depends on more than the content of %s",
            show(t).c_str());
    std::string tail = t + '\0' + "tail" + (char) s.byte();
    REQUIRE(hs == hash_string(tail.c_str()), "hash_string looks beyond the NUL of %s", show(t).c_str());
    if (n) {
        size_t i = s.below(n);
        std::string y = t;
        uint8_t c = (uint8_t) (1 + s.below(255));
        if (c == (uint8_t) y[i])
            c = (uint8_t) (c == 255 ? 1 : c + 1);
        y[i] = (char) c;
        REQUIRE(hash_string(y.c_str()) != hs,
                "hash_string: changing byte %zu of %s to %02x keeps the hash", i, show(t).c_str(), c);
    }
    if (kind)
        s.label("content with non-ASCII bytes");
}

// beyond 2^31 and 2^32 bytes: the last ones count, too
void vast(Src &s)
{
    std::string pat(4096 * 256, 0);
    Rng g = s.bulk();
    for (char &c : pat)
        c = (char) (1 + g.upto(254));
    size_t n = vast_size(s);
    Vast b(pat, n, false);
    if (!b.ok)
        return;
    bool str = s.flip();
    size_t i = s.chance(1, 4) ? s.below(100) : n - 2 - s.below(7);
    if (str)
        b.p[n - 1] = 0;
    s.note("%s of %zu bytes, a change at %zu", str ? "string" : "blob", n, i);
    uint64_t h = str ? hash_string(b.p) : hash_blob(b.p, n);
    char old = b.p[i];
    b.p[i] = (char) (old == 'x' ? 'y' : 'x');
    uint64_t h2 = str ? hash_string(b.p) : hash_blob(b.p, n);
    REQUIRE(h != h2, "%s of %zu bytes: changing byte %zu keeps the hash", str ? "hash_string" : "hash_blob", n, i);
    s.nontrivial();
}

PROPERTY(C04,
         "A case is a pair of 64-bit numbers (special values, neighbours, single-bit differences) or a "
         "blob/string with a one-byte change, hashed at several addresses; non-trivial if the numbers "
         "differ or the content is not empty.",
         {{"integers", integers, F_PROD | F_ASAN | F_FUZZ, 3000000, 200000000, 50, 40000},
          {"hashes", hashes, F_PROD | F_ASAN | F_FUZZ | F_ALLOC, 600000, 30000000, 20, 40000},
          {"vast", vast, F_PROD | F_SLOW, 20, 200, 1, 0}});
} // namespace
