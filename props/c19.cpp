#include "loc_common.hpp"
#include <fsdyn/charstr.h>
#include <algorithm>
using namespace pbt;

#include "long.hpp"
#include "vast.hpp"

namespace {

bool in(int c, int a, int b) { return c >= a && c <= b; }
unsigned char lower(unsigned char c) { return in(c, 'A', 'Z') ? c + 32 : c; }
unsigned char upper(unsigned char c) { return in(c, 'a', 'z') ? c - 32 : c; }

void bytes(Src &s)
{
    unsigned i = (unsigned) s.upto(1279); // 256 bytes in five locales
    int c = i & 255;
    static const char *const names[] = {"C", "tr_TR.ISO-8859-9", "en_US.ISO-8859-1", "ru_RU.KOI8-R", "C.UTF-8"};
    struct Back {
        ~Back() { setlocale(LC_ALL, "C"); }
    } back;
    if (!setlocale(LC_ALL, names[i >> 8]))
        setlocale(LC_ALL, "C");
    else if (strchr(names[i >> 8], '_'))
        s.label("8-bit locale");
    s.note("byte %02x in locale %s", c, names[i >> 8]);
    uint64_t want = 0;
    if (in(c, 0, 31) || c == 127)
        want |= CHARSTR_CONTROL;
    if (in(c, '0', '9'))
        want |= CHARSTR_DIGIT;
    if (in(c, 'a', 'z'))
        want |= CHARSTR_LOWER;
    if (in(c, 'A', 'Z'))
        want |= CHARSTR_UPPER;
    if (c == '\t')
        want |= CHARSTR_HT;
    if (c == '\n')
        want |= CHARSTR_LF;
    if (c == '\f')
        want |= CHARSTR_FF;
    if (c == '\r')
        want |= CHARSTR_CR;
    if (c == ' ')
        want |= CHARSTR_SPACE;
    if (in(c, '0', '7'))
        want |= CHARSTR_OCTAL;
    if (in(c, '0', '9') || in(c, 'a', 'f') || in(c, 'A', 'F'))
        want |= CHARSTR_HEX;
    if (c == '_')
        want |= CHARSTR_UNDER;
    if (in(c, ' ', '~'))
        want |= CHARSTR_PRINT;
    uint64_t got = charstr_char_class((char) c);
    REQUIRE(got == want, "class of byte %02x is %llx, expected %llx", c, (unsigned long long) got,
            (unsigned long long) want);
    REQUIRE((unsigned char) charstr_lcase_char((char) c) == lower(c), "lower case of byte %02x is %02x", c,
            (unsigned char) charstr_lcase_char((char) c));
    REQUIRE((unsigned char) charstr_ucase_char((char) c) == upper(c), "upper case of byte %02x is %02x", c,
            (unsigned char) charstr_ucase_char((char) c));
    if (want & CHARSTR_HEX) {
        unsigned v = c <= '9' ? c - '0' : (c | 32) - 'a' + 10;
        REQUIRE(charstr_digit_value((char) c) == v, "digit value of '%c' is %u", c, charstr_digit_value((char) c));
    }
    // caseless comparison of all pairs with this byte
    if (c)
        for (int d = 1; d < 256; d++) {
            char a[3] = {'x', (char) c, 0}, b[3] = {'X', (char) d, 0};
            int w = lower(c) - lower(d), r = charstr_case_cmp(a, b), n = charstr_ncase_cmp(a, b, 2);
            REQUIRE((w > 0) - (w < 0) == (r > 0) - (r < 0), "case_cmp of bytes %02x and %02x is %d", c, d, r);
            REQUIRE((w > 0) - (w < 0) == (n > 0) - (n < 0), "ncase_cmp of bytes %02x and %02x is %d", c, d, n);
        }
    s.nontrivial();
}

std::string text(Src &s, unsigned avg)
{
    static const char pool[] = "aAbBzZ@[`{iI\xc0\xe0\xfd\xdd_09\x7f\x80\xff\x01";
    std::string t;
    while (s.more(avg))
        t += s.chance(1, 5) ? (char) (1 + s.below(255)) : pool[s.below(sizeof pool - 1)];
    return t;
}

void convert(Src &s)
{
    InLocale loc(s);
    std::string t = text(s, 10);
    inflate(s, t, std::string("filLer"), 250);
    s.note("convert %s", show(t).c_str());
    for (int up = 0; up < 2; up++) {
        std::string want = t;
        for (char &c : want)
            c = (char) (up ? upper(c) : lower(c));
        Guarded g(t.c_str(), t.size() + 1);
        g.writable();
        char *r = up ? charstr_ucase_str(g.p) : charstr_lcase_str(g.p);
        REQUIRE(r == g.p, "%scase_str does not return its argument", up ? "u" : "l");
        REQUIRE(!memcmp(g.p, want.c_str(), want.size() + 1), "%scase_str of %s gives %s", up ? "u" : "l",
                show(t).c_str(), show(g.p, t.size()).c_str());
        g.check_before();
        // a part of it
        size_t a = s.below(t.size() + 1), b = a + s.below(t.size() - a + 1);
        std::string base = t;
        if (s.chance(1, 4) && b > a)
            base[a + s.below(b - a)] = 0; // a NUL does not end a substring
        want = base;
        for (size_t i = a; i < b; i++)
            want[i] = (char) (up ? upper(want[i]) : lower(want[i]));
        Guarded h(base.data(), base.size());
        h.writable();
        r = up ? charstr_ucase_substr(h.p + a, h.p + b) : charstr_lcase_substr(h.p + a, h.p + b);
        REQUIRE(r == h.p + a, "%scase_substr does not return its argument", up ? "u" : "l");
        REQUIRE(!memcmp(h.p, want.data(), want.size()), "%scase_substr [%zu, %zu) of %s gives %s, expected %s",
                up ? "u" : "l", a, b, show(base).c_str(), show(h.p, h.n).c_str(), show(want).c_str());
        h.check_before();
    }
    if (!t.empty())
        s.nontrivial();
}

int sign(int x) { return (x > 0) - (x < 0); }

int ref_cmp(const std::string &a, const std::string &b, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        int x = i < a.size() ? lower(a[i]) : 0, y = i < b.size() ? lower(b[i]) : 0;
        if (x != y)
            return x < y ? -1 : 1;
        if (!x)
            return 0;
    }
    return 0;
}

void compare(Src &s)
{
    InLocale loc(s);
    std::string a = text(s, 5), b;
    inflate(s, a, std::string("filLer"), 400);
    switch (s.below(4)) {
        case 0:
            b = text(s, 5);
            break;
        case 1: // case changes and near misses
            b = a;
            for (char &c : b)
                if (s.chance(1, 3) && (c ^ 0x20))
                    c ^= 0x20;
            break;
        case 2:
            b = a.substr(0, s.below(a.size() + 1));
            break;
        default:
            b = a + text(s, 2);
            if (!b.empty())
                b[s.below(b.size())] = (char) (1 + s.below(255));
            break;
    }
    size_t n;
    switch (s.below(4)) {
        case 3: // narrower types lose it
            n = ((size_t) 1 + s.below(3) << (s.flip() ? 32 : s.flip() ? 16 : s.flip() ? 8 : 31 + s.below(32))) +
                s.below(3) - 1;
            break;
        case 0:
            n = s.below(s.flip() ? 8 : a.size() + 2);
            break;
        case 1:
            n = std::max(a.size(), b.size()) + s.below(3);
            break;
        default:
            n = SIZE_MAX - s.below(2);
            break;
    }
    s.note("compare %s and %s, n %zu", show(a).c_str(), show(b).c_str(), n);
    Guarded ga(a.c_str(), a.size() + 1), gb(b.c_str(), b.size() + 1);
    int w = ref_cmp(a, b, SIZE_MAX);
    int r = charstr_case_cmp(ga.p, gb.p);
    REQUIRE(sign(r) == w, "case_cmp(%s, %s) is %d", show(a).c_str(), show(b).c_str(), r);
    r = charstr_case_cmp(gb.p, ga.p);
    REQUIRE(sign(r) == -w, "case_cmp(%s, %s) is %d", show(b).c_str(), show(a).c_str(), r);
    w = ref_cmp(a, b, n);
    r = charstr_ncase_cmp(ga.p, gb.p, n);
    REQUIRE(sign(r) == w, "ncase_cmp(%s, %s, %zu) is %d", show(a).c_str(), show(b).c_str(), n, r);
    r = charstr_ncase_cmp(gb.p, ga.p, n);
    REQUIRE(sign(r) == -w, "ncase_cmp(%s, %s, %zu) is %d", show(b).c_str(), show(a).c_str(), n, r);
    // no NUL needed within n bytes, and what follows does not matter
    size_t m = std::min(a.size(), b.size());
    std::string fa = a.substr(0, m) + (char) s.byte(), fb = b.substr(0, m) + (char) s.byte();
    Guarded na(fa.data(), m + 1), nb(fb.data(), m + 1);
    w = ref_cmp(a, b, m);
    r = charstr_ncase_cmp(na.p, nb.p, m);
    REQUIRE(sign(r) == w, "ncase_cmp(%s, %s, %zu) is %d", show(a).c_str(), show(b).c_str(), m, r);
    if (!a.empty() && !b.empty())
        s.nontrivial();
    if (a != b && ref_cmp(a, b, SIZE_MAX) == 0)
        s.label("equal up to case only");
}

// strings beyond 2^31 and 2^32 bytes
void vast(Src &s)
{
    std::string pat(4096 * 256, 0);
    Rng g = s.bulk();
    for (char &c : pat)
        c = (char) (g.p(1, 2) ? 'a' + g.upto(25) : 'A' + g.upto(25));
    size_t n = vast_size(s);
    if (s.flip()) {
        bool up = s.flip();
        Vast t(pat, n, true);
        if (!t.ok)
            return;
        size_t cut = s.below(100);
        s.note("%s of %zu bytes", up ? "upper case" : "lower case", n - cut);
        std::string want = t.phase() ? pat.substr(t.phase()) + pat.substr(0, t.phase()) : pat;
        for (char &c : want)
            c = (char) (up ? upper(c) : lower(c));
        char *r = up ? charstr_ucase_substr(t.p, t.end() - cut) : charstr_lcase_substr(t.p, t.end() - cut);
        REQUIRE(r == t.p, "the result is not the argument");
        t.check_repeats(want, cut);
        for (size_t i = n - cut; i < n; i++)
            REQUIRE(t.p[i] == pat[(t.phase() + i) % pat.size()], "the character behind the end was changed");
        s.label("case change");
    } else {
        Vast t(pat, n, false), u(pat, n, false);
        if (!t.ok || !u.ok)
            return;
        size_t m = n - 1 - s.below(3);
        t.p[n - 1] = u.p[m] = 0;
        size_t at = m - 1 - s.below(50);
        int change = (int) s.below(3);
        int w = m < n - 1 ? 1 : 0;
        if (change) {
            char c = u.p[at];
            u.p[at] = change == 1 ? (char) (c ^ 0x20) : '~';
            if (change == 2)
                w = -1;
        }
        s.note("strings of %zu and %zu bytes, change %d at %zu", n - 1, m, change, at);
        int r = charstr_case_cmp(t.p, u.p);
        REQUIRE(sign(r) == w, "case_cmp is %d, expected %d", r, w);
        size_t k = at + s.below(3);
        int wk = change == 2 && k > at ? -1 : k > m ? w : 0;
        r = charstr_ncase_cmp(t.p, u.p, k);
        REQUIRE(sign(r) == wk, "ncase_cmp of %zu bytes is %d, expected %d", k, r, wk);
    }
    s.nontrivial();
}

PROPERTY(C19,
         "A case is each byte in five locales (class, case, digit value, comparison with all others), an "
         "in-place conversion of a string and a substring, or a caseless comparison of related strings, "
         "some in 8-bit locales; non-trivial if the strings are not empty.",
         {{"bytes", bytes, F_PROD | F_ASAN | F_ENUM, 1280, 1280, 1, 0},
          {"convert", convert, F_PROD | F_ASAN | F_FUZZ, 1500000, 15000000, 8, 150000},
          {"vast", vast, F_PROD | F_SLOW, 32, 320, 1, 0},
          {"compare", compare, F_PROD | F_ASAN | F_FUZZ, 2500000, 20000000, 8, 200000}});
} // namespace
