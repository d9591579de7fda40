#include "pbt.hpp"
#include "utf8ref.hpp"
#include <fsdyn/charstr.h>
#include <fsdyn/fsalloc.h>
using namespace pbt;

#include "long.hpp"
#include "vast.hpp"

namespace {

// decode the sequence at p with the given bound and compare
void check_decode(const char *p, size_t bound, bool with_null_end)
{
    uint32_t want = 0;
    size_t len = u8_len((const unsigned char *) p, bound, &want);
    for (int variant = 0; variant < 2; variant++) {
        int cp = -77;
        const char *end = with_null_end ? nullptr : p + bound;
        const char *r = charstr_decode_utf8_codepoint(p, end, variant ? nullptr : &cp);
        if (!len) {
            REQUIRE(!r, "decoding %s (%s) succeeds with U+%04X", show(p, bound).c_str(),
                    with_null_end ? "no bound" : "bounded", cp);
            continue;
        }
        REQUIRE(r, "decoding %s (%s) fails, expected U+%04X", show(p, bound).c_str(),
                with_null_end ? "no bound" : "bounded", want);
        REQUIRE(r == p + len, "decoding %s ends after %td bytes, expected %zu", show(p, bound).c_str(), r - p,
                len);
        if (!variant)
            REQUIRE(cp == (int) want, "decoding %s gives U+%04X, expected U+%04X", show(p, bound).c_str(), cp,
                    want);
    }
}

// all first two bytes x all third bytes x telling fourth bytes x all bounds
void sequences(Src &s)
{
    unsigned i = (unsigned) s.upto(65535);
    unsigned char b[4] = {(unsigned char) (i >> 8), (unsigned char) i, 0, 0};
    static const unsigned char fourth[] = {0x80, 0xBF, 0x00, 0x41, 0x7F, 0xC0, 0xFF, 0x9F};
    static char *buf;
    static Guarded *g;
    if (!g)
        g = new Guarded(4);
    buf = g->p;
    s.note("sequences starting with %02x %02x", b[0], b[1]);
    // the shorter bounds: end of the buffer right behind
    g->p[3] = (char) b[0];
    check_decode(g->p + 3, 1, false);
    g->p[2] = (char) b[0];
    g->p[3] = (char) b[1];
    check_decode(g->p + 2, 2, false);
    for (unsigned c = 0; c < 256; c++) {
        buf[1] = (char) b[0];
        buf[2] = (char) b[1];
        buf[3] = (char) c;
        check_decode(buf + 1, 3, false);
        if (c == 0)
            check_decode(buf + 1, 3, true); // NUL stops it
        if (b[0] < 0xE0 && c)
            continue;
        for (unsigned char d : fourth) {
            buf[0] = (char) b[0];
            buf[1] = (char) b[1];
            buf[2] = (char) c;
            buf[3] = (char) d;
            check_decode(buf, 4, false);
            check_decode(buf, 1, false);
            check_decode(buf, 2, false);
            check_decode(buf, 3, false);
            if (d == 0)
                check_decode(buf, 4, true);
        }
    }
    // the general functions on the same bytes
    for (unsigned c = 0; c < 256; c += 5) {
        char t[4] = {(char) b[0], (char) b[1], (char) c, 0};
        std::vector<uint32_t> v;
        bool ok = u8_dec(std::string(t, 3), &v);
        REQUIRE(charstr_valid_utf8_bounded(t, t + 3) == ok, "valid_utf8_bounded(%s) is %d", show(t, 3).c_str(),
                !ok);
        ok = u8_dec(std::string(t), &v);
        REQUIRE(charstr_valid_utf8(t) == ok, "valid_utf8(%s) is %d", show(t).c_str(), !ok);
    }
    s.nontrivial();
}

// every code point, every room
void codepoints(Src &s)
{
    unsigned block = (unsigned) s.upto(0x10ff);
    s.note("code points U+%04X..U+%04X", block << 8, (block << 8) + 255);
    static Guarded *g;
    if (!g)
        g = new Guarded(6);
    for (unsigned c = block << 8; c < (block + 1) << 8; c++) {
        if (c >= 0xD800 && c <= 0xDFFF)
            continue;
        std::string want = u8_enc(c);
        for (size_t room = 0; room <= 5; room++) {
            char *p = g->end() - room;
            memset(g->p, 0x3c, 6);
            char *r = charstr_encode_utf8_codepoint((int) c, p, g->end());
            for (char *q = g->p; q < p; q++)
                REQUIRE(*q == 0x3c, "encoding U+%04X writes before its buffer", c);
            if (want.size() > room) {
                REQUIRE(!r, "encoding U+%04X into %zu bytes succeeds", c, room);
                continue;
            }
            REQUIRE(r, "encoding U+%04X into %zu bytes fails", c, room);
            REQUIRE(r == p + want.size() && !memcmp(p, want.data(), want.size()),
                    "encoding U+%04X gives %s, expected %s", c, show(p, r - p).c_str(), show(want).c_str());
            for (char *q = r; q < g->end(); q++)
                REQUIRE(*q == 0x3c, "encoding U+%04X writes beyond its encoding", c);
        }
        char *r = charstr_encode_utf8_codepoint((int) c, g->p, nullptr);
        REQUIRE(r == g->p + want.size() && !memcmp(g->p, want.data(), want.size()),
                "unbounded encoding of U+%04X is wrong", c);
        check_decode(g->p, want.size(), false);
        REQUIRE(charstr_valid_utf8_bounded(g->p, r), "the encoding of U+%04X is not valid", c);
    }
    REQUIRE(!charstr_encode_utf8_codepoint('a', nullptr, nullptr), "encoding to NULL succeeds");
    REQUIRE(!charstr_decode_utf8_codepoint(nullptr, nullptr, nullptr), "decoding NULL succeeds");
    s.nontrivial();
}

std::string piece(Src &s)
{
    switch (s.below(10)) {
        case 0:
            return std::string(1, (char) s.byte());
        case 1:
            return u8_enc((uint32_t) s.below(0x80));
        case 2:
            return u8_enc(0x80 + (uint32_t) s.below(0x780));
        case 3:
            return u8_enc(0xE000 + (uint32_t) s.below(0x2000));
        case 4:
            return u8_enc(0x10000 + (uint32_t) s.below(0x100000));
        case 5: // truncated
        {
            std::string x = u8_enc(0x800 + (uint32_t) s.below(0xC000));
            return x.substr(0, 1 + s.below(2));
        }
        case 6: {
            std::string x = u8_enc(0x10000 + (uint32_t) s.below(0x100000));
            return x.substr(0, 1 + s.below(3));
        }
        case 7: // overlong, surrogate, too big
        {
            static const char *const bad[] = {"\xC0\x80",         "\xC1\xBF",         "\xE0\x80\x80",
                                              "\xE0\x9F\xBF",     "\xED\xA0\x80",     "\xED\xBF\xBF",
                                              "\xF0\x80\x80\x80", "\xF0\x8F\xBF\xBF", "\xF4\x90\x80\x80",
                                              "\xF5\x80\x80\x80", "\xF8\x88\x80\x80\x80", "\xFF", "\xFE"};
            return s.pick(bad);
        }
        case 8:
            return std::string(1, (char) (0x80 + s.below(0x40)));
        default: {
            static const uint32_t edge[] = {0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000,
                                            0x10FFFF, 0xFEFF, 1};
            return u8_enc(s.pick(edge));
        }
    }
}

void strings(Src &s)
{
    std::string t;
    bool clean = s.flip();
    while (s.more(6)) {
        std::string p = piece(s);
        std::vector<uint32_t> v;
        if (clean && !u8_dec(p, &v))
            continue;
        t += p;
    }
    inflate(s, t, std::string(s.flip() ? "filler" : s.flip() ? "\xE2\x82\xAC" : s.flip() ? "\xFF" : "\xED\xA0\x80\xF0\x9F"), 300);
    bool nuls = s.chance(1, 4);
    if (!nuls)
        for (char &c : t)
            if (!c)
                c = 'n';
    s.note("string %s", show(t).c_str());
    std::vector<uint32_t> v;
    bool ok = u8_dec(t, &v);
    Guarded b(t.data(), t.size());
    REQUIRE(charstr_valid_utf8_bounded(b.p, b.end()) == ok, "valid_utf8_bounded(%s) is %d", show(t).c_str(),
            !ok);
    // any bound inside
    size_t k = s.below(t.size() + 1);
    Guarded bb(t.data(), k);
    bool okk = u8_dec(t.substr(0, k), &v);
    REQUIRE(charstr_valid_utf8_bounded(bb.p, bb.end()) == okk, "valid_utf8_bounded(%s) is %d",
            show(t.substr(0, k)).c_str(), !okk);
    for (size_t i = 0; i < t.size(); i++)
        check_decode(b.p + i, t.size() - i, false);
    // NUL-terminated
    std::string z(t.c_str());
    ok = u8_dec(z, &v);
    Guarded zb(z.c_str(), z.size() + 1);
    REQUIRE(charstr_valid_utf8(zb.p) == ok, "valid_utf8(%s) is %d", show(z).c_str(), !ok);
    for (size_t i = 0; i < z.size(); i++)
        check_decode(zb.p + i, z.size() - i + 1, true);
    std::string want;
    size_t bad = 0;
    for (size_t i = 0; i < z.size();) {
        size_t n = u8_len((const unsigned char *) z.data() + i, z.size() - i);
        if (n)
            want += z.substr(i, n);
        else {
            want += "\xEF\xBF\xBD";
            n = 1;
            bad++;
        }
        i += n;
    }
    char *r = charstr_sanitize_utf8(zb.p);
    REQUIRE(r && want == r, "sanitizing %s gives %s, expected %s", show(z).c_str(), show(r).c_str(),
            show(want).c_str());
    fsfree(r);
    if (!z.empty())
        s.nontrivial();
    if (bad)
        s.label("string with invalid bytes");
    else if (z.size() != v.size())
        s.label("valid string with multibyte sequences");
}

// strings beyond 2^31 and 2^32 bytes, and bounds as far away
void vast(Src &s)
{
    std::string pat;
    Rng g = s.bulk();
    const size_t period = 4096 * 300;
    unsigned kind = (unsigned) s.below(3);
    while (pat.size() + 4 <= period) {
        uint32_t c = kind == 0 ? 'a' + (uint32_t) g.upto(25) : (uint32_t) g.upto(kind == 1 ? 0x7ff : 0xd7fe) + 1;
        pat += u8_enc(c);
    }
    pat.resize(period, 'p');
    static const char *const tails[] = {"", "\xE2\x82\xAC", "\xE2\x82", "\x80", "\xC0\x80", "\xED\xA0\x80",
                                        "\xF0\x9F\x98\x80", "\xF0\x9F\x98", "\xF4\x90\x80\x80", "\xFFok"};
    std::string tail = s.pick(tails);
    std::vector<uint32_t> v;
    bool good = u8_dec(tail, &v);
    if (s.chance(3, 5)) { // short strings, the bound far away
        Range r(vast_room(s));
        if (!r.ok)
            return;
        std::string t = u8_enc((uint32_t) s.below(0xd7ff) + 1) + tail;
        memcpy(r.p, t.c_str(), t.size());
        s.note("string %s, bound %zu bytes on", show(t).c_str(), r.n);
        for (size_t i = 0; i < t.size(); i++) {
            uint32_t want = 0;
            size_t len = u8_len((const unsigned char *) t.c_str() + i, t.size() - i, &want);
            int cp = -1;
            const char *q = charstr_decode_utf8_codepoint(r.p + i, r.end(), &cp);
            REQUIRE(q == (len ? r.p + i + len : nullptr) && (!len || cp == (int) want),
                    "decoding %s with a bound %zu bytes away is wrong", show(t.substr(i)).c_str(), r.n - i);
        }
        uint32_t c = s.flip() ? (uint32_t) s.below(0xd7ff) + 1 : 0x10000 + (uint32_t) s.below(0x100000);
        std::string want = u8_enc(c);
        memset(r.p, 0x3c, 8);
        char *q = charstr_encode_utf8_codepoint((int) c, r.p, r.end());
        REQUIRE(q == r.p + want.size() && !memcmp(r.p, (want + "<").data(), want.size() + 1),
                "encoding U+%04X with a bound %zu bytes away gives %s", c, r.n, show(r.p, 8).c_str());
        s.label("far bound");
        s.nontrivial();
        return;
    }
    if (s.flip()) { // sanitizing
        // units of 4 bytes, of which some are bad
        static const struct {
            const char *unit, *sane;
        } units[] = {{"\xE2\x82\xAC=", "\xE2\x82\xAC="},
                     {"\x80\xFF\xC3\xF4", "\xEF\xBF\xBD\xEF\xBF\xBD\xEF\xBF\xBD\xEF\xBF\xBD"},
                     {"\xE2\x82\xAC\xE2", "\xE2\x82\xAC\xEF\xBF\xBD"},
                     {"\xE2\x82=#", "\xEF\xBF\xBD\xEF\xBF\xBD=#"}};
        auto &u = units[s.below(4)];
        size_t ratio = strlen(u.sane);
        std::string p4, sane;
        for (int i = 0; i < 1024; i++)
            p4 += u.unit, sane += u.sane;
        for (int i = 0; i < 8; i++)
            p4 += p4, sane += sane;
        size_t out = s.chance(1, 4) ? 1ull << 31 : 1ull << 32;
        size_t n = (out / ratio + s.below(10000)) * 4;
        Vast t(p4, n + tail.size() + 1, false);
        if (!t.ok)
            return;
        size_t cut = (4 - t.phase() % 4) % 4; // begin with a whole unit
        char *p = t.p + cut;
        n = (n - cut) / 4 * 4;
        memcpy(p + n, tail.c_str(), tail.size() + 1);
        std::string end;
        for (size_t i = 0; i < tail.size();) {
            size_t l = u8_len((const unsigned char *) tail.c_str() + i, tail.size() - i);
            end += l ? tail.substr(i, l) : "\xEF\xBF\xBD";
            i += l ? l : 1;
        }
        s.note("sanitize %s %zu times, then %s", show(u.unit).c_str(), n / 4, show(tail).c_str());
        BigBlocks big;
        char *r = charstr_sanitize_utf8(p);
        big.check(r, n / 4 * ratio + end.size(), sane, end, "sanitize_utf8");
        fsfree(r);
        s.label("sanitized text beyond 2^31");
        s.nontrivial();
        return;
    }
    size_t n = vast_size(s);
    // a whole number of sequences before the tail
    Vast t(pat, n, false);
    if (!t.ok)
        return;
    size_t skip = (period - t.phase()) % period;
    char *begin = t.p + skip, *at = t.end() - tail.size() - 1;
    memset(begin + (size_t) (at - begin) / period * period, 'q', (size_t) (at - begin) % period);
    memcpy(at, tail.c_str(), tail.size() + 1);
    s.note("%zu bytes of sequences, then %s", (size_t) (at - begin), show(tail).c_str());
    REQUIRE(charstr_valid_utf8_bounded(begin, at + tail.size()) == good, "valid_utf8_bounded of %zu bytes and %s is %d",
            (size_t) (at - begin), show(tail).c_str(), !good);
    REQUIRE(charstr_valid_utf8(begin) == good, "valid_utf8 of %zu bytes and %s is %d", (size_t) (at - begin),
            show(tail).c_str(), !good);
    s.nontrivial();
}

PROPERTY(C13,
         "A case is all sequences of up to 3 bytes with a given first two (with telling fourth bytes and "
         "every bound), all code points of a block of 256 with every room, or a mixed string of valid, "
         "truncated, overlong, surrogate and stray sequences; non-trivial if it is not empty.",
         {{"sequences", sequences, F_PROD | F_ENUM, 65536, 65536, 1, 0},
          {"sequences_asan", sequences, F_ASAN | F_ENUM, 65536, 65536, 16, 0},
          {"codepoints", codepoints, F_PROD | F_ENUM, 0x1100, 0x1100, 1, 0},
          {"vast", vast, F_PROD | F_SLOW, 16, 240, 1, 0},
          {"strings", strings, F_PROD | F_ASAN | F_FUZZ | F_ALLOC, 2400000, 30000000, 8, 200000}});
} // namespace
