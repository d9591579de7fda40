#include "b64_common.hpp"
#include "vast.hpp"
#include <fsdyn/fsalloc.h>

namespace {

void encode(Src &s)
{
    size_t n = s.size(200);
    if (s.chance(1, 50))
        n = s.size(9000);
    if (s.mode != Src::BYTES && s.chance(1, 8000)) {
        static const std::vector<uint64_t> points{65535, 65536, 98304, 131071, 131072, 196605, 196608,
                                                  262143, 262144, 393216, 524288, 786432, 1 << 20};
        n = s.size_near(1300000, points);
        s.label("long source");
    }
    std::string d(n, 0);
    Rng g = s.bulk();
    int kind = (int) s.below(3);
    for (char &c : d)
        c = (char) (kind == 0 ? g.upto(255) : kind == 1 ? 0xfb + g.upto(4) : 0);
    char c62, c63;
    b64_specials(s, &c62, &c63);
    std::string want = b64_encode(d, b64_alphabet(c62, c63));
    size_t ds;
    switch (s.below(4)) {
        case 0:
            ds = want.size() + 1;
            break;
        case 1:
            ds = want.size() + 2 - std::min<size_t>(s.below(8), want.size() + 2);
            break;
        case 2:
            ds = s.below(6);
            break;
        default:
            ds = s.below(want.size() + 10);
            break;
    }
    s.note("encode %zu bytes %s into %zu, chars %d %d", n, show(d).c_str(), ds, c62, c63);
    Guarded src(d.data(), n), dst(ds);
    size_t r = base64_encode_buffer(src.p, n, dst.p, ds, c62, c63);
    REQUIRE(r == want.size(), "encoding %zu bytes into %zu returned %zu, expected %zu", n, ds, r, want.size());
    dst.check_before();
    REQUIRE(!memcmp(src.p, d.data(), n), "the source was modified");
    if (ds) {
        size_t len = std::min(ds - 1, want.size());
        REQUIRE(!memcmp(dst.p, want.data(), len), "encoding of %s is %s, expected %s", show(d).c_str(),
                show(dst.p, len).c_str(), show(want.data(), len).c_str());
        REQUIRE(dst.p[len] == 0, "no NUL at %zu of a destination of %zu bytes (encoding of %zu)", len, ds,
                want.size());
    }
    REQUIRE(base64_encoding_size(n) == want.size(), "encoding_size(%zu) is %zu, expected %zu", n,
            base64_encoding_size(n), want.size());
    char *x = base64_encode_simple(src.p, n);
    std::string std_ = b64_encode(d, b64_alphabet(-1, -1));
    REQUIRE(x && !strcmp(x, std_.c_str()), "encode_simple of %s is %s, expected %s", show(d).c_str(),
            show(x).c_str(), std_.c_str());
    fsfree(x);
    if (n)
        s.nontrivial();
    if (ds <= want.size())
        s.label("destination too small");
    if (c62 != -1 || c63 != -1)
        s.label("own characters for 62/63");
}

void sizes(Src &s)
{
    size_t n;
    const size_t limit = SIZE_MAX / 4 * 3; // 3 * (2^62 - 1): the largest encodable size
    switch (s.below(4)) {
        case 0:
            n = s.u64();
            break;
        case 1:
            n = limit + s.below(20) - 10;
            break;
        case 2:
            n = SIZE_MAX - s.below(20);
            break;
        default:
            n = s.size(1 << 20);
            break;
    }
    s.note("encoding_size(%zu)", n);
    unsigned __int128 want = ((unsigned __int128) n + 2) / 3 * 4;
    size_t got = base64_encoding_size(n);
    if (want > SIZE_MAX) {
        REQUIRE(got == (size_t) -1, "encoding_size(%zu) is %zu though it overflows", n, got);
        s.label("overflow");
    } else
        REQUIRE(got == (size_t) want, "encoding_size(%zu) is %zu, expected %zu", n, got, (size_t) want);
    s.nontrivial();
}

// sources and destinations beyond 2^31 and 2^32 bytes
void vast(Src &s)
{
    char c62, c63;
    b64_specials(s, &c62, &c63);
    std::string alpha = b64_alphabet(c62, c63);
    const size_t unit = 4096 * 128;
    std::string pat(3 * unit, 0);
    Rng g = s.bulk();
    for (char &c : pat)
        c = (char) g.upto(255);
    if (s.chance(2, 5)) { // a short source with a long way to the end of the destination
        std::string d = pat.substr(0, s.below(40));
        std::string want = b64_encode(d, alpha);
        size_t ds = vast_room(s);
        s.note("encode %zu bytes into %zu", d.size(), ds);
        Range dst(ds);
        if (!dst.ok)
            return;
        memset(dst.p, 0x55, want.size() + 8);
        size_t r = base64_encode_buffer(d.data(), d.size(), dst.p, ds, c62, c63);
        REQUIRE(r == want.size(), "encoding %zu bytes into %zu returned %zu", d.size(), ds, r);
        REQUIRE(!memcmp(dst.p, want.c_str(), want.size() + 1), "encoding of %s into %zu bytes is %s, expected %s",
                show(d).c_str(), ds, show(dst.p, want.size() + 1).c_str(), show(want).c_str());
        for (size_t k = want.size() + 1; k < want.size() + 8; k++)
            REQUIRE(dst.p[k] == 0x55, "encoding %s into %zu bytes writes beyond the NUL", show(d).c_str(), ds);
        s.label("large destination");
        s.nontrivial();
        return;
    }
    size_t n = vast_size(s);
    Vast src(pat, n, false);
    if (!src.ok)
        return;
    size_t full = (n + 2) / 3 * 4;
    // the period as the encoder sees it
    std::string seen = pat.substr(src.phase()) + pat.substr(0, src.phase());
    std::string enc = b64_encode(seen, alpha);
    std::string tail = b64_encode(seen.substr(n / 3 * 3 % seen.size(), n % 3), alpha);
    if (s.chance(2, 5)) { // allocated
        s.note("encode %zu bytes", n);
        alpha = b64_alphabet(-1, -1);
        enc = b64_encode(seen, alpha);
        tail = b64_encode(seen.substr(n / 3 * 3 % seen.size(), n % 3), alpha);
        BigBlocks big;
        char *r = base64_encode_simple(src.p, n);
        big.check(r, full, enc, tail, "base64_encode_simple");
        fsfree(r);
        s.label("allocated encoding beyond 2^30");
        s.nontrivial();
        return;
    }
    bool fit = s.flip();
    size_t ds = fit ? full + 1 - (size_t) s.below(2) : s.below(300);
    s.note("encode %zu bytes into %zu", n, ds);
    if (fit) {
        Vast dst(std::string(4 * unit, 0), ds, true);
        if (!dst.ok)
            return;
        size_t r = base64_encode_buffer(src.p, n, dst.p, ds, c62, c63);
        REQUIRE(r == full, "encoding %zu bytes returned %zu, expected %zu", n, r, full);
        dst.check_repeats(enc, 8);
        std::string last = ((enc + enc).substr((n / 3 * 4 - 8) % enc.size(), 8) + tail).substr(0, ds - 1 - (n / 3 * 4 - 8));
        REQUIRE(!memcmp(dst.end() - last.size() - 1, last.c_str(), last.size() + 1),
                "encoding %zu bytes into %zu ends in %s, expected %s", n, ds,
                show(dst.end() - last.size() - 1, last.size() + 1).c_str(), show(last).c_str());
        s.label("destination beyond 2^30");
    } else {
        Guarded dst(ds);
        size_t r = base64_encode_buffer(src.p, n, dst.p, ds, c62, c63);
        REQUIRE(r == full, "encoding %zu bytes into %zu returned %zu, expected %zu", n, ds, r, full);
        dst.check_before();
        if (ds)
            REQUIRE(!memcmp(dst.p, enc.data(), ds - 1) && !dst.p[ds - 1], "encoding %zu bytes into %zu gives %s", n,
                    ds, show(dst.p, ds).c_str());
    }
    s.nontrivial();
}

// every content of 0, 1 and 2 bytes and a grid of 3 byte ones
void exhaustive(Src &s)
{
    uint64_t i = s.upto(UINT32_MAX);
    std::string d;
    if (i == 0)
        ;
    else if (i <= 256)
        d = std::string(1, (char) (i - 1));
    else if (i <= 256 + 65536)
        d = std::string(1, (char) ((i - 257) >> 8)) + (char) (i - 257);
    else {
        uint64_t k = (i - 257 - 65536) * 8191 & 0xffffff;
        d = std::string(1, (char) (k >> 16)) + (char) (k >> 8) + (char) k;
    }
    s.note("encode %s", show(d).c_str());
    std::string want = b64_encode(d, b64_alphabet(-1, -1));
    char buf[16];
    memset(buf, 0x55, sizeof buf);
    size_t r = base64_encode_buffer(d.data(), d.size(), buf, sizeof buf, -1, -1);
    REQUIRE(r == want.size() && !memcmp(buf, want.c_str(), r + 1), "encoding of %s is %s, expected %s",
            show(d).c_str(), show(buf, 5).c_str(), want.c_str());
    for (size_t k = r + 1; k < sizeof buf; k++)
        REQUIRE(buf[k] == 0x55, "wrote beyond the NUL");
    s.nontrivial();
}

PROPERTY(C11,
         "A case is a byte string encoded into a destination of any size (page- or ASan-guarded), an "
         "encoding size, or one of all short byte strings, compared with an independent RFC 4648 "
         "encoder; non-trivial if the input is not empty.",
         {{"encode", encode, F_PROD | F_ASAN | F_FUZZ | F_ALLOC, 1800000, 30000000, 8, 90000},
          {"sizes", sizes, F_PROD | F_ASAN, 600000, 10000000, 20, 0},
          {"vast", vast, F_PROD | F_SLOW, 24, 240, 1, 0},
          {"exhaustive", exhaustive, F_PROD | F_ENUM, 256 + 65536 + 1 + 100000, 256 + 65536 + 1 + 8000000, 1, 0}});
} // namespace
