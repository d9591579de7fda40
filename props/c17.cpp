#include "pbt.hpp"
#include <fsdyn/charstr.h>
#include <fsdyn/fsalloc.h>
#include <set>
using namespace pbt;

#include "long.hpp"
#include "vast.hpp"

namespace {

bool alnum(unsigned c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
bool hex(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int hexval(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }

std::string pct(unsigned c) { return fmt("%%%02X", c); }

// the documented default encoding
bool ok_default(unsigned c, const std::string &e)
{
    if (c == ' ')
        return e == "+";
    if (alnum(c) || (c && strchr("\"-./<>\\^_`{|}~", (int) c)))
        return e == std::string(1, (char) c);
    return e == pct(c);
}

void each_byte(Src &s)
{
    unsigned c = (unsigned) s.upto(255);
    const char *e = charstr_url_encode_byte((uint8_t) c);
    s.note("byte %u", c);
    REQUIRE(e && ok_default(c, e), "encoding of byte %02x is %s", c, show(e).c_str());
    s.nontrivial();
    if (c) {
        char t[2] = {(char) c, 0};
        char *x = charstr_url_encode(t);
        REQUIRE(x && !strcmp(x, e), "url_encode of byte %02x is %s, encode_byte gives %s", c, show(x).c_str(), e);
        fsfree(x);
    }
    // custom encoders naming just this byte
    if (c) {
        char t[2] = {(char) c, 0};
        charstr_url_encoder_t *r = charstr_create_url_encoder(t, "");
        charstr_url_encoder_t *u = charstr_create_url_encoder("", t);
        for (unsigned d = 0; d < 256; d++) {
            std::string er = charstr_url_custom_encode_byte(r, (uint8_t) d);
            std::string eu = charstr_url_custom_encode_byte(u, (uint8_t) d);
            std::string def = charstr_url_encode_byte((uint8_t) d);
            REQUIRE(er == (d == c ? pct(c) : def), "reserving %02x: byte %02x is encoded as %s", c, d, er.c_str());
            REQUIRE(eu == (d == c ? std::string(t) : def), "unreserving %02x: byte %02x is encoded as %s", c, d,
                    show(eu).c_str());
        }
        charstr_destroy_url_encoder(r);
        charstr_destroy_url_encoder(u);
    }
}

std::string text(Src &s, unsigned avg)
{
    static const char pool[] = " +%&=/?#-._~\"]}{|\\^`<>:;,'()*!$@[aZ09fF";
    std::string t;
    while (s.more(avg))
        t += s.chance(1, 3) ? (char) (1 + s.below(255)) : pool[s.below(sizeof pool - 1)];
    return t;
}

// the reference decoder
bool ref_decode(const std::string &e, bool plus, std::string *out)
{
    out->clear();
    for (size_t i = 0; i < e.size(); i++) {
        if (e[i] == '%') {
            if (i + 2 >= e.size() || !hex(e[i + 1]) || !hex(e[i + 2]))
                return false;
            *out += (char) (hexval(e[i + 1]) * 16 + hexval(e[i + 2]));
            i += 2;
        } else if (e[i] == '+' && plus)
            *out += ' ';
        else
            *out += e[i];
    }
    return true;
}

void check_decode(const std::string &e, bool plus)
{
    std::string want;
    bool ok = ref_decode(e, plus, &want);
    Guarded g(e.c_str(), e.size() + 1);
    for (int with_size = 0; with_size < 2; with_size++) {
        size_t n = 0xabcdef;
        errno = 0;
        char *r = charstr_url_decode(g.p, plus, with_size ? &n : nullptr);
        int err = errno;
        REQUIRE(!!r == ok, "decoding %s %s", show(e).c_str(),
                r ? "succeeds though it is malformed" : "fails though it is well-formed");
        if (!r) {
            REQUIRE(err == EILSEQ, "decoding %s fails with errno %d, expected EILSEQ", show(e).c_str(), err);
            continue;
        }
        if (with_size)
            REQUIRE(n == want.size(), "decoding %s reports length %zu, expected %zu", show(e).c_str(), n,
                    want.size());
        REQUIRE(!memcmp(r, want.c_str(), want.size() + 1), "decoding %s gives %s, expected %s", show(e).c_str(),
                show(r, want.size()).c_str(), show(want).c_str());
        fsfree(r);
    }
}

void roundtrip(Src &s)
{
    std::string t = text(s, 10);
    inflate(s, t, std::string(s.flip() ? "a" : "a %/"), 250);
    s.note("encode %s", show(t).c_str());
    Guarded g(t.c_str(), t.size() + 1);
    char *e = charstr_url_encode(g.p);
    REQUIRE(e, "url_encode returned NULL");
    std::string want;
    for (unsigned char c : t)
        want += charstr_url_encode_byte(c);
    REQUIRE(want == e, "url_encode of %s is %s, expected %s", show(t).c_str(), show(e).c_str(),
            show(want).c_str());
    size_t n = 0;
    char *d = charstr_url_decode(e, true, &n);
    REQUIRE(d && n == t.size() && !memcmp(d, t.c_str(), n + 1), "%s encoded as %s is decoded as %s",
            show(t).c_str(), show(e).c_str(), show(d).c_str());
    check_decode(e, true);
    check_decode(e, false);
    fsfree(d);
    fsfree(e);
    if (!t.empty())
        s.nontrivial();
}

void custom(Src &s)
{
    std::string reserve = text(s, 5), unreserve;
    // a byte both reserved and unreserved is not specified
    for (char c : text(s, 5))
        if (reserve.find(c) == std::string::npos)
            unreserve += c;
    s.note("reserve %s, unreserve %s", show(reserve).c_str(), show(unreserve).c_str());
    Guarded gr(reserve.c_str(), reserve.size() + 1), gu(unreserve.c_str(), unreserve.size() + 1);
    charstr_url_encoder_t *enc = charstr_create_url_encoder(gr.p, gu.p);
    REQUIRE(enc, "create_url_encoder returned NULL");
    std::string per_byte[256];
    for (unsigned c = 0; c < 256; c++) {
        per_byte[c] = charstr_url_custom_encode_byte(enc, (uint8_t) c);
        std::string want = charstr_url_encode_byte((uint8_t) c);
        if (c && reserve.find((char) c) != std::string::npos)
            want = pct(c);
        else if (c && unreserve.find((char) c) != std::string::npos)
            want = std::string(1, (char) c);
        REQUIRE(per_byte[c] == want, "byte %02x is encoded as %s, expected %s", c, show(per_byte[c]).c_str(),
                show(want).c_str());
    }
    for (int k = 0; k < 2; k++) {
        std::string t = text(s, 8);
        if (s.flip()) // use the named bytes
            t += reserve + unreserve;
        s.note("encode %s", show(t).c_str());
        Guarded g(t.c_str(), t.size() + 1);
        char *e = charstr_url_custom_encode(enc, g.p);
        std::string want;
        bool literal_pct = false, literal_plus = false;
        for (unsigned char c : t) {
            want += per_byte[c];
            literal_pct |= c == '%' && per_byte[c] == "%";
            literal_plus |= c == '+' && per_byte[c] == "+";
        }
        REQUIRE(e && want == e, "custom encoding of %s is %s, expected %s", show(t).c_str(), show(e).c_str(),
                show(want).c_str());
        if (!literal_pct && !literal_plus) {
            size_t n = 0;
            char *d = charstr_url_decode(e, true, &n);
            REQUIRE(d && n == t.size() && !memcmp(d, t.c_str(), n + 1), "%s encoded as %s is decoded as %s",
                    show(t).c_str(), show(e).c_str(), show(d).c_str());
            fsfree(d);
        }
        fsfree(e);
    }
    charstr_destroy_url_encoder(enc);
    // the default encoder is not affected
    for (unsigned char c : reserve + unreserve) {
        const char *e = charstr_url_encode_byte(c);
        REQUIRE(ok_default(c, e), "after making a custom encoder the default encoding of %02x is %s", c, e);
    }
    if (!reserve.empty() || !unreserve.empty())
        s.nontrivial();
}

void decode(Src &s)
{
    static const char *const pieces[] = {"%", "%4", "%41", "%zz", "%4g", "%g4", "%00", "%2B", "%2b", "%25", "+",
                                         "%%", "%fF", "%FF", "a", "%+1", "% 1", "%1", "%C3%a4", "%:0", "%/9", "%@A",
                                         "%G0", "%`a", "%0:", "%0G", "%0@"};
    std::string e;
    while (s.more(6)) {
        if (s.chance(1, 6))
            e += (char) (1 + s.below(255));
        else if (s.chance(1, 5))
            e += std::string("%") + (char) (1 + s.below(255)) + (char) (1 + s.below(255));
        else if (s.flip())
            e += fmt("%%%02x", (unsigned) s.byte());
        else
            e += s.pick(pieces);
    }
    inflate(s, e, std::string(s.flip() ? "a" : s.flip() ? "%41" : s.flip() ? "%" : "+%f"), 250);
    bool plus = s.flip();
    s.note("decode %s, plus %s", show(e).c_str(), plus ? "as space" : "literal");
    std::string x;
    s.label(ref_decode(e, plus, &x) ? "well-formed" : "malformed");
    if (x.find('\0') != std::string::npos)
        s.label("decoding contains a NUL");
    check_decode(e, plus);
    if (!e.empty())
        s.nontrivial();
}

// every pair of characters behind a '%'
void pairs(Src &s)
{
    unsigned i = (unsigned) s.upto(65535);
    std::string e = "a%";
    if (i >> 8)
        e += (char) (i >> 8);
    if ((i >> 8) && (i & 255))
        e += (char) i;
    s.note("decode %s", show(e).c_str());
    check_decode(e, true);
    check_decode(e + "b", false);
    s.nontrivial();
}

// encodings and decodings beyond 2^31 and 2^32 bytes
void vast(Src &s)
{
    static const struct {
        const char *plain, *enc;
    } units[] = {{"abcd", "abcd"}, {"%%&%", "%25%25%26%25"}, {"a b=", "a+b%3D"}, {"\x80ok~", "%80ok~"}};
    auto &u = units[s.below(4)];
    bool dec = s.flip();
    std::string from = dec ? u.enc : u.plain, to = dec ? u.plain : u.enc;
    static const char *const tails[] = {"", "end.", "\xFF", "a=b&c=d"};
    std::string tail = s.pick(tails), end;
    if (dec && s.chance(1, 4))
        tail += s.flip() ? "%" : "%4";
    for (char c : dec ? "" : tail)
        end += charstr_url_encode_byte((uint8_t) c);
    if (dec)
        end = tail;
    bool bad = dec && tail.find('%') != tail.npos;
    // the pattern is a whole number of units and of pages
    std::string pat, want;
    size_t period = from.size() % 3 ? 1 << 20 : 3 << 20;
    while (pat.size() < period) {
        pat += from;
        want += to;
    }
    uint64_t points[] = {1ull << 31, 1ull << 32, 1ull << 32};
    uint64_t big_size = points[s.below(3)] + s.below(100000);
    size_t units_n = big_size / std::max(from.size(), to.size());
    size_t n = units_n * from.size();
    Vast t(pat, n + from.size() + tail.size() + 1, false);
    if (!t.ok)
        return;
    size_t cut = (from.size() - t.phase() % from.size()) % from.size(); // begin with a whole unit
    char *p = t.p + cut;
    memcpy(p + n, tail.c_str(), tail.size() + 1);
    s.note("%s %s %zu times, then %s", dec ? "decode" : "encode", show(from).c_str(), units_n, show(tail).c_str());
    BigBlocks big;
    if (dec) {
        size_t k = 77;
        bool with_size = s.flip();
        errno = 0;
        char *r = charstr_url_decode(p, true, with_size ? &k : nullptr);
        if (bad)
            REQUIRE(!r && errno == EILSEQ, "a bad encoding of %zu bytes is decoded (errno %d)", n, errno);
        else {
            size_t full = units_n * to.size() + end.size();
            big.check(r, full, want, end, "url_decode");
            REQUIRE(!with_size || k == full, "url_decode tells a size of %zu, expected %zu", k, full);
            fsfree(r);
        }
    } else {
        char *r = charstr_url_encode(p);
        big.check(r, units_n * to.size() + end.size(), want, end, "url_encode");
        fsfree(r);
    }
    s.nontrivial();
}

PROPERTY(C17,
         "A case is each byte, a text encoded by default or with a custom encoder and decoded back, an "
         "encoding assembled from well-formed and malformed pieces, or one of all pairs behind a '%'; "
         "non-trivial if the text or the encoder's sets are not empty.",
         {{"each_byte", each_byte, F_PROD | F_ASAN | F_ENUM, 256, 256, 1, 0},
          {"roundtrip", roundtrip, F_PROD | F_ASAN | F_FUZZ | F_ALLOC, 2000000, 20000000, 8, 200000},
          {"custom", custom, F_PROD | F_ASAN | F_FUZZ | F_ALLOC, 300000, 2000000, 8, 50000},
          {"decode", decode, F_PROD | F_ASAN | F_FUZZ | F_ALLOC, 2500000, 20000000, 8, 200000},
          {"vast", vast, F_PROD | F_SLOW, 16, 160, 1, 0},
          {"pairs", pairs, F_PROD | F_ENUM, 65536, 65536, 1, 0}});
} // namespace
