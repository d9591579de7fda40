#include "b64_common.hpp"
#include <fsdyn/fsalloc.h>
#include "long.hpp"
#include "vast.hpp"

namespace {

bool is_wsp(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\f' || c == '\r'; }

// reference decoder: the text must be exactly the encoding of what it decodes to
bool ref_decode(std::string text, const std::string &alpha, bool wsp, std::string *out)
{
    size_t nul = text.find('\0');
    if (nul != std::string::npos)
        text.erase(nul);
    if (wsp)
        text.erase(std::remove_if(text.begin(), text.end(), is_wsp), text.end());
    out->clear();
    unsigned acc = 0, bits = 0;
    for (char c : text) {
        if (c == '=')
            break;
        size_t v = alpha.find(c);
        if (v == std::string::npos)
            return false;
        acc = (acc << 6 | (unsigned) v) & 0xffff;
        bits += 6;
        if (bits >= 8) {
            bits -= 8;
            *out += (char) (acc >> bits);
        }
    }
    return b64_encode(*out, alpha) == text;
}

void compare(Src &s, const std::string &text, bool by_nul, size_t ds, char c62, char c63, bool wsp)
{
    std::string want;
    bool good = ref_decode(text, b64_alphabet(c62, c63), wsp, &want);
    Guarded src(text.c_str(), text.size() + by_nul), dst(ds);
    errno = 0;
    ssize_t r = base64_decode_buffer(src.p, by_nul ? (size_t) -1 : text.size(), dst.p, ds, c62, c63, wsp);
    int err = errno;
    dst.check_before();
    if (!good) {
        REQUIRE(r < 0, "decoding %s (whitespace %s) returned %zd though it is not a canonical encoding",
                show(text).c_str(), wsp ? "ignored" : "not ignored", r);
        REQUIRE(err == EILSEQ, "decoding %s failed with errno %d, expected EILSEQ", show(text).c_str(), err);
        s.label("rejected");
    } else {
        REQUIRE(r == (ssize_t) want.size(), "decoding %s (whitespace %s) returned %zd, expected %zu",
                show(text).c_str(), wsp ? "ignored" : "not ignored", r, want.size());
        size_t len = std::min(ds, want.size());
        REQUIRE(!memcmp(dst.p, want.data(), len), "decoding %s gives %s, expected %s", show(text).c_str(),
                show(dst.p, len).c_str(), show(want.data(), len).c_str());
        s.label("accepted");
    }
    if (by_nul && c62 == -1 && c63 == -1 && wsp) {
        size_t n = 0xdeadbeef;
        errno = 0;
        char *x = (char *) base64_decode_simple(src.p, &n);
        err = errno;
        REQUIRE(!!x == good, "decode_simple of %s %s", show(text).c_str(), x ? "succeeded" : "failed");
        if (x) {
            REQUIRE(n == want.size(), "decode_simple of %s gives size %zu, expected %zu", show(text).c_str(), n,
                    want.size());
            REQUIRE(!memcmp(x, want.data(), n), "decode_simple of %s gives %s", show(text).c_str(),
                    show(x, n).c_str());
            REQUIRE(x[n] == 0, "decode_simple: no complimentary NUL");
            fsfree(x);
        } else
            REQUIRE(err == EILSEQ, "decode_simple of %s failed with errno %d", show(text).c_str(), err);
    }
}

size_t dest_size(Src &s, size_t len)
{
    switch (s.below(4)) {
        case 0:
            return len / 4 * 3 + 3;
        case 1:
            return s.below(4);
        case 2: {
            size_t n = len / 4 * 3;
            return n + 1 - std::min<size_t>(s.below(6), n + 1);
        }
        default:
            return s.below(len + 4);
    }
}

void mutated(Src &s)
{
    size_t n = s.size(60);
    if (s.chance(1, 60))
        n = s.size(5000);
    std::string d(n, 0);
    Rng g = s.bulk();
    int kind = (int) s.below(3);
    for (char &c : d)
        c = (char) (kind == 0 ? g.upto(255) : kind == 1 ? 0xfb + g.upto(4) : 0);
    char c62, c63;
    b64_specials(s, &c62, &c63);
    std::string alpha = b64_alphabet(c62, c63);
    std::string text = b64_encode(d, alpha);
    bool wsp = s.flip();
    static const char ws[] = " \t\n\f\r";
    static const char odd[] = "\v\b\x7f\x1f!=-_+/\xff\x80\xa0\x85";
    unsigned muts = (unsigned) s.weighted({4, 3, 2, 1});
    if (s.flip()) { // sprinkle whitespace
        unsigned k = 1 + (unsigned) s.below(6);
        while (k--)
            text.insert(s.flip() ? s.below(text.size() + 1)
                                 : text.size() - std::min<size_t>(s.below(4), text.size()),
                        1, ws[s.below(5)]);
    }
    for (unsigned k = 0; k < muts; k++) {
        size_t at = s.flip() ? s.below(text.size() + 1)
                             : text.size() - std::min<size_t>(s.below(5), text.size());
        switch (s.below(9)) {
            case 0:
                if (at < text.size())
                    text.erase(at, 1);
                break;
            case 1:
                text.insert(at, 1, '=');
                break;
            case 2:
                text.insert(at, 1, odd[s.below(sizeof odd - 1)]);
                break;
            case 3:
                text.insert(at, 1, alpha[s.below(64)]);
                break;
            case 4:
                if (at < text.size())
                    text[at] = alpha[s.below(64)];
                break;
            case 5:
                if (at < text.size())
                    text[at] = (char) s.byte();
                break;
            case 6:
                text.insert(at, 1, '\0');
                break;
            case 7:
                text.resize(at);
                break;
            case 8: // another encoding behind it
                text += b64_encode(d.substr(0, s.below(5)), alpha);
                break;
        }
    }
    static const char *runs[] = {" ", "\r\n", "AAAA", "\t \n", "=", "QUJD QUJD\n", "_"};
    inflate(s, text, std::string(s.pick(runs)), 250);
    bool by_nul = s.flip();
    size_t ds = dest_size(s, text.size());
    s.note("decode %s (%s) into %zu, chars %d %d, whitespace %s", show(text).c_str(),
           by_nul ? "NUL-terminated" : "by size", ds, c62, c63, wsp ? "ignored" : "not ignored");
    compare(s, text, by_nul, ds, c62, c63, wsp);
    if (n)
        s.nontrivial();
}

void garbage(Src &s)
{
    static const char pool[] = "AAQgBw/+-_== \n\t\r\f\v9z~\0\x7f\xff\x80";
    std::string text;
    char c62, c63;
    b64_specials(s, &c62, &c63);
    std::string alpha = b64_alphabet(c62, c63);
    while (s.more(9))
        text += s.chance(1, 5) ? (char) s.byte() : s.chance(1, 4) ? alpha[s.below(64)] : pool[s.below(sizeof pool - 1)];
    bool wsp = s.flip(), by_nul = s.flip();
    size_t ds = dest_size(s, text.size());
    s.note("decode %s (%s) into %zu, chars %d %d, whitespace %s", show(text).c_str(),
           by_nul ? "NUL-terminated" : "by size", ds, c62, c63, wsp ? "ignored" : "not ignored");
    compare(s, text, by_nul, ds, c62, c63, wsp);
    if (text.size() >= 2)
        s.nontrivial();
}

// all strings of up to 6 characters over a telling alphabet
void exhaustive(Src &s)
{
    static const char pool[] = {'A', 'Q', 'g', '/', '=', ' ', '*', '\0'};
    uint64_t i = s.upto(UINT32_MAX);
    bool wsp = i & 1;
    i >>= 1;
    size_t len = 0;
    uint64_t count = 1;
    while (i >= count) {
        i -= count;
        count *= 8;
        len++;
    }
    std::string text;
    for (size_t k = 0; k < len; k++, i /= 8)
        text += pool[i % 8];
    s.note("decode %s, whitespace %s", show(text).c_str(), wsp ? "ignored" : "not ignored");
    compare(s, text, false, 8, -1, -1, wsp);
    compare(s, text, true, 8, -1, -1, wsp);
    s.nontrivial();
}

// the published tables, character by character, and each of them in context
void table(Src &s)
{
    unsigned c = (unsigned) s.upto(255);
    s.note("character %u", c);
    std::string alpha = b64_alphabet(-1, -1);
    int v = base64_bitfield_decoding[c];
    size_t at = alpha.find((char) c);
    if (at != std::string::npos) {
        REQUIRE(v == (int) at, "decoding table maps character %u to %d, expected %zu", c, v, at);
        REQUIRE(base64_bitfield_encoding[at] == (char) c, "encoding table entry %zu is wrong", at);
    } else if (c == 0)
        REQUIRE(v == BASE64_ILLEGAL_NUL, "decoding table maps NUL to %d", v);
    else if (c == '=')
        REQUIRE(v == BASE64_ILLEGAL_TRAILER, "decoding table maps '=' to %d", v);
    else if (is_wsp((char) c))
        REQUIRE(v == BASE64_ILLEGAL_WHITESPACE, "decoding table maps whitespace %u to %d", c, v);
    else
        REQUIRE(v == BASE64_ILLEGAL_OTHER, "decoding table maps character %u to %d, expected -1", c, v);
    for (int wsp = 0; wsp < 2; wsp++)
        for (size_t k = 0; k <= 8; k++) {
            std::string text = "QUJDREU=";
            text.insert(k, 1, (char) c);
            compare(s, text, false, 8, -1, -1, wsp);
            text = "QUJDREU=";
            if (k < 8)
                text[k] = (char) c;
            compare(s, text, true, 8, -1, -1, wsp);
        }
    s.nontrivial();
}

// sources and destinations beyond 2^31 and 2^32 bytes
void vast(Src &s)
{
    char c62, c63;
    b64_specials(s, &c62, &c63);
    std::string alpha = b64_alphabet(c62, c63);
    bool wsp = s.flip(), by_nul = s.flip();
    const size_t unit = 4096 * 128;
    std::string pat(4 * unit, 0);
    Rng g = s.bulk();
    for (char &c : pat)
        c = alpha[g.upto(63)];
    // whole groups, then this
    static const char *const tails[] = {"", "QQ==", "QUI=", "QQ=", "Q", "Q===", "QR==", "QUJD====", "QUI=QUJD", " QUJD\n",
                                        "QQ\n=\t=\n", "QUJD\r\n", "!", "QU!D", "\x80", "QQ==x"};
    std::string tail = s.pick(tails);
    if (s.chance(2, 5)) { // a short source, the end of the destination far away
        std::string text = pat.substr(0, 4 * s.below(10)) + tail, want;
        bool good = ref_decode(text, alpha, wsp, &want);
        size_t ds = vast_room(s);
        s.note("decode %s into %zu", show(text).c_str(), ds);
        Range dst(ds);
        if (!dst.ok)
            return;
        memset(dst.p, 0x55, text.size() + 8);
        ssize_t r = base64_decode_buffer(text.c_str(), by_nul ? (size_t) -1 : text.size(), dst.p, ds, c62, c63, wsp);
        if (good)
            REQUIRE(r == (ssize_t) want.size() && !memcmp(dst.p, want.data(), want.size()),
                    "decoding %s into %zu bytes returns %zd and %s", show(text).c_str(), ds, r,
                    show(dst.p, want.size()).c_str());
        else
            REQUIRE(r < 0, "decoding %s into %zu bytes returns %zd", show(text).c_str(), ds, r);
        s.label("large destination");
        s.nontrivial();
        return;
    }
    size_t head = vast_size(s) / 4 * 4;
    size_t n = head + tail.size() + by_nul;
    Vast src(pat, n, false);
    if (!src.ok)
        return;
    std::string seen = pat.substr(src.phase()) + pat.substr(0, src.phase());
    memcpy(src.p + head, tail.c_str(), tail.size() + by_nul);
    // the last group may be changed by the tail (a bad one as well), so look at it together
    std::string last;
    bool good = ref_decode(tail, alpha, wsp, &last);
    size_t full = head / 4 * 3 + last.size();
    std::string dec;
    if (!ref_decode(seen, alpha, false, &dec))
        abort();
    bool fit = s.chance(1, 3);
    size_t ds = fit ? full : s.below(300);
    s.note("decode %zu characters and %s (%s) into %zu, whitespace %s", head, show(tail).c_str(),
           by_nul ? "NUL-terminated" : "by size", ds, wsp ? "ignored" : "not ignored");
    ssize_t r;
    int err;
    if (fit) {
        Vast dst(std::string(3 * unit, 0), ds, true);
        if (!dst.ok)
            return;
        errno = 0;
        r = base64_decode_buffer(src.p, by_nul ? (size_t) -1 : n, dst.p, ds, c62, c63, wsp);
        err = errno;
        if (good) {
            dst.check_repeats(dec, last.size());
            REQUIRE(!memcmp(dst.end() - last.size(), last.data(), last.size()),
                    "decoding %zu characters and %s ends in %s", head, show(tail).c_str(),
                    show(dst.end() - last.size(), last.size()).c_str());
        }
    } else {
        Guarded dst(ds);
        errno = 0;
        r = base64_decode_buffer(src.p, by_nul ? (size_t) -1 : n, dst.p, ds, c62, c63, wsp);
        err = errno;
        dst.check_before();
        if (good)
            REQUIRE(!memcmp(dst.p, dec.data(), ds), "decoding %zu characters into %zu gives %s", head, ds,
                    show(dst.p, ds).c_str());
    }
    if (good)
        REQUIRE(r == (ssize_t) full, "decoding %zu characters and %s returns %zd, expected %zu", head,
                show(tail).c_str(), r, full);
    else
        REQUIRE(r < 0 && err == EILSEQ, "decoding %zu characters and %s returns %zd (errno %d), expected EILSEQ",
                head, show(tail).c_str(), r, err);
    s.nontrivial();
}

// base64_decode_simple with results of 2^31 and 2^32 bytes
void vast_simple(Src &s)
{
    std::string alpha = b64_alphabet(-1, -1), pat(4096 * 512, 0), dec;
    Rng g = s.bulk();
    for (char &c : pat)
        c = alpha[g.upto(63)];
    static const char *const tails[] = {"", "QQ==", "QUI=", " QUJD\n", "QQ\n=\t=\n", "QUJD\r\n", "QR==", "QU!D"};
    std::string tail = s.pick(tails), last;
    bool good = ref_decode(tail, alpha, true, &last);
    size_t head = ((s.chance(1, 3) ? 1ull << 31 : 1ull << 32) / 3 + s.below(1000)) * 4;
    Vast src(pat, head + tail.size() + 1, false);
    if (!src.ok)
        return;
    memcpy(src.p + head, tail.c_str(), tail.size() + 1);
    std::string seen = pat.substr(src.phase()) + pat.substr(0, src.phase());
    if (!ref_decode(seen, alpha, false, &dec))
        abort();
    size_t full = head / 4 * 3 + last.size(), k = 77;
    s.note("decode %zu characters and %s", head, show(tail).c_str());
    BigBlocks big;
    char *r = (char *) base64_decode_simple(src.p, &k);
    if (good) {
        big.check(r, full, dec, last, "base64_decode_simple");
        REQUIRE(k == full, "base64_decode_simple tells a size of %zu, expected %zu", k, full);
        fsfree(r);
        s.nontrivial();
    } else
        REQUIRE(!r, "decoding %zu characters and %s succeeds", head, show(tail).c_str());
}

PROPERTY(C12,
         "A case is a text: an encoding with whitespace and mutations, a random string over Base64-like "
         "characters, or one of all short strings over a telling alphabet, decoded by size or NUL into a "
         "guarded destination of any size and compared with a reference decoder that re-encodes; "
         "non-trivial if it has at least 2 characters or comes from nonempty data.",
         {{"mutated", mutated, F_PROD | F_ASAN | F_FUZZ | F_ALLOC, 1800000, 30000000, 8, 150000},
          {"garbage", garbage, F_PROD | F_ASAN | F_FUZZ | F_ALLOC, 1800000, 30000000, 8, 150000},
          {"simple", vast_simple, F_PROD | F_SLOW, 8, 60, 1, 0},
          {"vast", vast, F_PROD | F_SLOW, 16, 240, 1, 0},
          {"exhaustive", exhaustive, F_PROD | F_ENUM, 2 * 299593, 2 * 19173961, 1, 0},
          {"table", table, F_PROD | F_ASAN | F_ENUM, 256, 256, 1, 0}});
} // namespace
