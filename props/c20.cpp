#include "uni_common.hpp"
#include <algorithm>
#include <fsdyn/fsalloc.h>

namespace {

bool many_marks(const uni::Text &t)
{
    size_t run = 0;
    for (uint32_t c : uni::nfd(t)) {
        run = uni::ccc(c) ? run + 1 : 0;
        if (run > 100)
            return true;
    }
    return false;
}

uni::Idna::Verdict check_host(Src &s, const std::string &h)
{
    Guarded in(h.c_str(), h.size() + 1);
    char *r = charstr_idna_encode(in.p);
    std::string got = r ? r : "";
    bool is_null = !r;
    if (r) {
        REQUIRE(talloc::owns(r), "the result is not from the reallocator");
        fsfree(r);
    }
    REQUIRE(!memcmp(in.p, h.c_str(), h.size() + 1), "the hostname was changed");
    if (std::all_of(h.begin(), h.end(), [](char c) { return !(c & 0x80); })) {
        std::string want = h;
        for (char &c : want)
            if (c >= 'A' && c <= 'Z')
                c += 32;
        REQUIRE(!is_null && got == want, "all-ASCII %s gives %s", show(h).c_str(),
                is_null ? "NULL" : show(got).c_str());
        s.label("all ASCII");
        return uni::Idna::MAY;
    }
    uni::Text t;
    if (!u8_dec(h, &t)) {
        REQUIRE(is_null, "%s (not UTF-8) gives %s", show(h).c_str(), show(got).c_str());
        s.label("not UTF-8");
        return uni::Idna::MUST_REJECT;
    }
    uni::Idna e = uni::idna_encode(t);
    if (is_null) {
        REQUIRE(e.verdict != uni::Idna::MUST_ENCODE || many_marks(t), "valid %s gives NULL, expected %s",
                show(h).c_str(), e.a.c_str());
    } else {
        REQUIRE(e.verdict != uni::Idna::MUST_REJECT, "%s gives %s, expected NULL (%s)", show(h).c_str(),
                show(got).c_str(), *e.why ? e.why : "too long");
        REQUIRE((e.has_a && got == e.a) || (e.has_b && got == e.b), "%s gives %s, expected %s", show(h).c_str(),
                show(got).c_str(), e.has_a ? e.a.c_str() : e.b.c_str());
    }
    return e.verdict;
}

uint32_t host_cp(Src &s, int script)
{
    if (s.chance(1, 6))
        script = (int) s.below(16);
    switch (script) {
        case 0:
        case 1:
            return 'a' + (uint32_t) s.below(26);
        case 2:
            return s.chance(1, 3) ? '0' + (uint32_t) s.below(10) : s.chance(1, 8) ? '-' : 'A' + (uint32_t) s.below(26);
        case 3:
            return 0xE0 + (uint32_t) s.below(0x20);
        case 4:
            return 0xC0 + (uint32_t) s.below(0x1C0);
        case 5:
            return 0x370 + (uint32_t) s.below(0x90);
        case 6:
            return 0x410 + (uint32_t) s.below(0x40);
        case 7:
            return 0x4E00 + (uint32_t) s.below(0x5000);
        case 8:
            return s.flip() ? 0xAC00 + (uint32_t) s.below(11172) : 0x1100 + (uint32_t) s.below(0x13);
        case 9:
            return s.flip() ? 0x5D0 + (uint32_t) s.below(0x1A) : 0x620 + (uint32_t) s.below(0x2A);
        case 10: {
            static const uint32_t sp[] = {0xDF, 0x3C2, 0x1E9E, 0xAD, 0x200B, 0xFE0F, 0x2060, 0x34F, 0x200C, 0x200D,
                                          0x3002, 0xFF0E, 0xFF61, 0x130, 0x149, 0x345, 0x3B1, 0xFB00, 0x2126,
                                          0x212B, 0x1D160, 0x660, 0x6F0, 0x2488, 0x3000, 0xFF0D, 0x2010, 0xB7};
            return s.pick(sp);
        }
        case 11:
            return s.pick(uni::idna_of(uni::MAPPED));
        case 12:
            return s.pick(uni::idna_of(uni::VALID));
        case 13:
            return s.pick(uni::seconds());
        case 14:
            return norm_cp(s);
        default:
            return any_cp(s);
    }
}

uint32_t any_status(Src &s)
{
    return s.chance(1, 20) ? s.pick(uni::idna_of((uni::Status) s.below(7))) : 0;
}

void hosts(Src &s)
{
    std::string h;
    size_t n = 1 + s.size(5);
    bool many = s.chance(1, 20);
    if (many)
        n = 3 + s.below(40);
    for (size_t i = 0; i < n; i++) {
        if (i) {
            static const char *const dot[] = {".", "\xE3\x80\x82", "\xEF\xBC\x8E", "\xEF\xBD\xA1"};
            h += dot[s.chance(1, 5) ? s.below(4) : 0];
        }
        int script = (int) s.below(15);
        unsigned avg = s.pick(std::vector<unsigned>{2, 5, 10, 20, 40});
        uint32_t c = host_cp(s, script);
        h += u8_enc(c ? c : 'q');
        while (s.more(avg)) {
            c = host_cp(s, script);
            uint32_t o = any_status(s);
            if (o)
                c = o;
            h += u8_enc(c ? c : 'q');
            if (s.chance(1, 60))
                for (size_t k = s.size(120); k; k--)
                    h += u8_enc(c ? c : 'q');
        }
    }
    if (s.chance(1, 8))
        h += ".";
    if (s.chance(1, 300) && s.mode != Src::BYTES) {
        // a long run of ignored characters, which leaves the encoding as it is
        static const std::vector<uint64_t> points{62, 63, 64, 126, 127, 128, 252, 253, 254, 255, 256, 1023, 1024,
                                                  4095, 4096, 16383, 16384, 21845, 32767, 32768, 65535, 65536};
        size_t k = s.size_near(70000, points), at = s.below(h.size() + 1);
        while (at < h.size() && ((uint8_t) h[at] & 0xC0) == 0x80)
            at++;
        std::string ign = u8_enc(s.pick(uni::idna_of(uni::IGNORED))), run;
        while (k--)
            run += ign;
        h.insert(at, run);
        s.label("thousands of ignored characters");
    }
    if (s.chance(1, 30))
        h = spoil(s, h);
    h = h.c_str();
    s.note("hostname %s", show(h).c_str());
    auto v = check_host(s, h);
    s.label(v == uni::Idna::MUST_ENCODE ? "valid hostname" : v == uni::Idna::MUST_REJECT ? "rejected hostname"
                                                                                       : "either");
    uni::Text t;
    if (u8_dec(h, &t)) {
        // canonically equivalent and case-variant spellings
        if (s.flip())
            check_host(s, uni::enc(uni::nfd(t)));
        if (s.flip())
            check_host(s, uni::enc(uni::nfc(t)));
        if (s.flip()) {
            uni::Text w = t;
            for (uint32_t &c : w)
                if (s.flip())
                    c = uni::upper(c);
            check_host(s, uni::enc(w));
        }
        if (v == uni::Idna::MUST_ENCODE)
            s.nontrivial();
    }
}

// lengths around the limits: labels whose encoding has a given length
void limits(Src &s)
{
    uni::Text host;
    size_t used = 0;            // characters of the encoding so far
    size_t total = s.flip() ? 245 + s.below(14) : s.below(260);
    bool first = true;
    bool label_edge = s.chance(1, 3);
    while (used < total && !s.exhausted()) {
        size_t room = total - used - (first ? 0 : 1);
        if (used + 1 >= total && !first)
            break;
        size_t want = std::min<size_t>(room, 1 + s.below(63));
        if (s.chance(1, 3))
            want = std::min<size_t>(room, 63);
        if (label_edge && s.chance(1, 4))
            want = 62 + s.below(4);
        uni::Text l;
        bool ascii = want < 8 || s.chance(1, 4);
        if (!ascii) {
            int script = 3 + (int) s.below(7);
            size_t k = 1 + s.below(want / 3);
            for (size_t i = 0; i < k; i++) {
                uint32_t c = host_cp(s, script);
                if (c < 128 || (uni::idna(c) != uni::VALID && uni::idna(c) != uni::DEVIATION) || uni::ccc(c))
                    c = 0xE4;
                l.push_back(c);
            }
            while (l.size() > 1 && 4 + uni::puny(l).size() > want)
                l.pop_back();
        }
        auto len = [&] {
            bool a = std::all_of(l.begin(), l.end(), [](uint32_t c) { return c < 128; });
            return a ? l.size() : 4 + uni::puny(l).size();
        };
        int guard = 0;
        size_t at = l.empty() ? 0 : s.below(l.size() + 1);
        while (len() < want && guard++ < 80)
            l.insert(l.begin() + (ptrdiff_t) at, 'a' + (uint32_t) s.below(26));
        if (!first)
            host.push_back('.'), used++;
        host.insert(host.end(), l.begin(), l.end());
        used += len();
        first = false;
    }
    if (s.chance(1, 3))
        host.push_back('.');
    bool nonascii = std::any_of(host.begin(), host.end(), [](uint32_t c) { return c > 127; });
    if (!nonascii && !host.empty()) {
        // an ignored character makes it a mixed hostname
        host.insert(host.begin() + (ptrdiff_t) s.below(host.size() + 1), s.flip() ? 0xAD : 0x200B);
    }
    if (s.chance(1, 4))         // forms that take more bytes
        for (uint32_t &c : host)
            if (c >= 'a' && c <= 'z' && s.flip())
                c = 0xFF41 + (c - 'a');
    if (s.chance(1, 8))
        host = uni::nfd(host);
    std::string h = uni::enc(host);
    s.note("hostname %s, encoding of %zu characters", show(h).c_str(), used);
    auto v = check_host(s, h);
    s.label(v == uni::Idna::MUST_ENCODE ? "valid hostname" : v == uni::Idna::MUST_REJECT ? "rejected hostname"
                                                                                       : "either");
    if (used >= 250 && used <= 256)
        s.label("encoding of 250..256 characters");
    s.nontrivial();
}

// every code point inside a label, in two positions
void codepoints(Src &s)
{
    uint32_t block = (uint32_t) s.upto(0x10ff);
    s.note("code points U+%04X..U+%04X", block << 8, (block << 8) + 255);
    for (uint32_t c = block << 8; c < (block + 1) << 8; c++) {
        if (c == 0 || (c >= 0xD800 && c < 0xE000))
            continue;
        std::string u = u8_enc(c);
        check_host(s, "a" + u + "b.c");
        check_host(s, u);
        check_host(s, "x\xC3\xA4." + u + "\xD7\x90");
    }
    s.nontrivial();
}

// arbitrary bytes: terminates, and the same verdict
void bytes(Src &s)
{
    std::string h;
    size_t n = s.size(s.mode != Src::BYTES && s.chance(1, 2000) ? 300000 : s.chance(1, 30) ? 6000 : 80);
    if (n > 200) {
        Rng g = s.bulk();
        int kind = (int) s.below(4);
        uint32_t base = any_cp(s);
        while (h.size() < n)
            switch (kind) {
                case 0:
                    h += (char) (1 + g.upto(254));
                    break;
                case 1:
                    h += u8_enc((base & ~0x3fu) + (uint32_t) g.upto(63));
                    break;
                case 2:
                    h += g.p(1, 20) ? u8_enc(0x10FFFF - (uint32_t) g.upto(40000)) : std::string(1, (char) ('a' + g.upto(25)));
                    break;
                default:
                    h += g.p(1, 30) ? "." : u8_enc(0xC0 + (uint32_t) g.upto(0x200));
            }
        uni::Text t;
        if (kind == 1 && !u8_dec(h, &t))
            h = "\xC3\xA4" + std::string(n, 'x');
    } else
        while (h.size() < n)
            h += (char) (1 + s.upto(254));
    h = std::string(h.c_str());
    s.note("hostname %s", show(h).c_str());
    check_host(s, h);
    if (!h.empty())
        s.nontrivial();
}

PROPERTY(C20,
         "A case is a block of 256 code points (each in several hostnames), a hostname of labels in mixed "
         "scripts with mapped, ignored, deviation, disallowed and combining characters and its NFC, NFD and "
         "upper-case variants, a hostname built to have label and total lengths around 63 and 253, or "
         "arbitrary bytes; non-trivial if it is a valid hostname (first kind) or not empty.",
         {{"codepoints", codepoints, F_PROD | F_ENUM, 0x1100, 0x1100, 1, 0},
          {"codepoints_asan", codepoints, F_ASAN | F_ENUM, 0x1100, 0x1100, 32, 0},
          {"hosts", hosts, F_PROD | F_ASAN | F_FUZZ | F_ALLOC, 300000, 12000000, 12, 20000},
          {"limits", limits, F_PROD | F_ASAN | F_ALLOC, 80000, 3000000, 12, 0},
          {"bytes", bytes, F_PROD | F_ASAN | F_FUZZ, 80000, 3000000, 8, 20000}});
} // namespace
