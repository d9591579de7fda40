#include "loc_common.hpp"
#include "pbt.hpp"
#include <fsdyn/charstr.h>
#include <fsdyn/fsalloc.h>
#include <limits.h>
#include <math.h>
#include <stdio.h>
#include <wchar.h>
#include <memory>
using namespace pbt;

namespace {

// In the System V x86-64 and AArch64 calling conventions, general arguments
// and doubles are fetched from separate sequences as long as at most one of
// the two kinds spills to the stack.  So a generated format can be called
// with "all general ones, then all doubles", up to 8 doubles.
enum { NG = 12, ND = 8 };
struct Args {
    unsigned long long g[NG];
    double d[ND];
    int ng = 0, nd = 0;
};

char *via_va(const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    char *r = charstr_vprintf(f, ap);
    va_end(ap);
    return r;
}

#define EXPAND(a)                                                                                              \
    a.g[0], a.g[1], a.g[2], a.g[3], a.g[4], a.g[5], a.g[6], a.g[7], a.g[8], a.g[9], a.g[10], a.g[11], a.d[0],  \
        a.d[1], a.d[2], a.d[3], a.d[4], a.d[5], a.d[6], a.d[7]

void compare(const std::string &f, const Args &a, Src &s)
{
    static thread_local char big[1 << 16];
    int n = snprintf(big, sizeof big, f.c_str(), EXPAND(a));
    std::string want;
    if (n >= 0) {
        if ((size_t) n < sizeof big)
            want.assign(big, (size_t) n + 1);
        else {
            std::unique_ptr<char[]> b(new char[(size_t) n + 1]);
            snprintf(b.get(), (size_t) n + 1, f.c_str(), EXPAND(a));
            want.assign(b.get(), (size_t) n + 1);
        }
    }
    Guarded gf(f.c_str(), f.size() + 1);
    for (int variant = 0; variant < 2; variant++) {
        errno = 0;
        char *r = variant ? via_va(gf.p, EXPAND(a)) : charstr_printf(gf.p, EXPAND(a));
        int err = errno;
        const char *name = variant ? "charstr_vprintf" : "charstr_printf";
        if (n < 0) {
            REQUIRE(!r, "%s(%s) succeeds on a format refused by the C library", name, show(f).c_str());
            REQUIRE(err == EILSEQ, "%s(%s): errno %d on refusal", name, show(f).c_str(), err);
            continue;
        }
        REQUIRE(r, "%s(%s) fails (errno %d)", name, show(f).c_str(), err);
        REQUIRE(talloc::owns(r), "%s(%s): the result is not from the reallocator", name, show(f).c_str());
        REQUIRE(talloc::block_size(r) >= want.size(), "%s(%s): the result is shorter than %zu bytes", name,
                show(f).c_str(), want.size());
        if (memcmp(r, want.data(), want.size())) {
            size_t k = 0;
            while (r[k] == want[k])
                k++;
            fail("%s(%s) differs from the C library at byte %zu of %d: %s, expected %s", name, show(f).c_str(),
                 k, n, show(r + k, std::min<size_t>(want.size() - k, 60)).c_str(),
                 show(want.data() + k, std::min<size_t>(want.size() - k, 60)).c_str());
        }
        fsfree(r);
    }
    if (n < 0)
        s.label("refused format");
    else {
        if (n > 4096)
            s.label("output longer than 4 KiB");
        if (memchr(want.data(), 0, want.size() - 1))
            s.label("output with NUL inside");
    }
}

struct Keep {                   // string arguments live until the call
    std::vector<std::unique_ptr<Guarded>> g;
    std::vector<std::unique_ptr<std::wstring>> w;
};

std::string literal(Src &s, size_t max)
{
    std::string t;
    size_t n = s.size(max);
    if (n > 64) {
        Rng b = s.bulk();
        for (size_t i = 0; i < n; i++) {
            char c = (char) (1 + b.upto(254));
            t += c == '%' ? '_' : c;
        }
        return t;
    }
    for (size_t i = 0; i < n; i++) {
        int c = (int) s.upto(255);
        t += c == 0 ? 'a' : c == '%' ? 'b' : (char) c;
    }
    // multibyte locales refuse formats with invalid sequences
    return t;
}

// one directive with its arguments; false if out of arguments
bool directive(Src &s, std::string *f, Args *a, Keep *k)
{
    if (a->ng > NG - 4 || a->nd > ND - 1)
        return false;
    std::string d = "%";
    int kind = (int) s.below(11);
    if (kind == 0) {
        *f += "%%";
        return true;
    }
    static const char flags[] = "-+ #0'";
    bool str = kind == 7 || kind == 8 || kind == 9;
    while (s.chance(1, 3)) {
        char c = flags[s.below(6)];
        if ((str || kind == 10) && c != '-')
            c = '-';            // the others are undefined for c, s and p
        if (c == '#' && (kind <= 2))
            c = '-';            // undefined for d, i, u
        if (c == '\'' && !(kind <= 2 || kind == 5 || kind == 6))
            c = '-';
        d += c;
    }
    switch (s.below(5)) {
        case 0:
            d += std::to_string(1 + s.size(60));
            break;
        case 1:
            d += "*";
            a->g[a->ng++] = (unsigned long long) (long long) (s.chance(1, 40)
                                                                  ? s.range(-30000, 30000)
                                                                  : s.range(-40, 40));
            break;
        case 2:
            if (s.chance(1, 50))
                d += std::to_string(s.size(40000));
            break;
        default:
            break;
    }
    int prec = -1;
    bool has_prec = kind != 9 && kind != 10 && s.chance(1, 3);
    if (has_prec) {
        switch (s.below(3)) {
            case 0:
                d += ".";
                prec = 0;
                break;
            case 1:
                prec = (int) s.size(s.chance(1, 50) ? 5000 : 40);
                d += "." + std::to_string(prec);
                break;
            default:
                prec = (int) s.range(-3, 40);
                d += ".*";
                a->g[a->ng++] = (unsigned long long) (long long) prec;
        }
    }
    static const char *const lens[] = {"", "hh", "h", "l", "ll", "j", "z", "t"};
    switch (kind) {
        case 1:
        case 2: {
            static const char conv[] = "di";
            d += s.pick(lens);
            d += conv[kind - 1];
            a->g[a->ng++] = s.u64();
            break;
        }
        case 3:
        case 4: {
            static const char conv[] = "ouxX";
            d += s.pick(lens);
            d += conv[s.below(4)];
            a->g[a->ng++] = s.u64();
            break;
        }
        case 5:
        case 6: {
            static const char conv[] = "fFeEgGaA";
            char c = conv[s.below(8)];
            d += c;
            double v;
            switch (s.below(4)) {
                case 0:
                    v = (double) s.range(-1000000, 1000000) / (double) (1 << s.below(10));
                    break;
                case 1: {
                    static const double sp[] = {0.0, -0.0, 1.0, 0.5, 1e300, -1e-300, INFINITY, NAN, 9.9999995, 1e15};
                    v = s.pick(sp);
                    break;
                }
                default: {
                    uint64_t u = s.upto(UINT64_MAX);
                    memcpy(&v, &u, 8);
                    if ((c == 'f' || c == 'F') && fabs(v) > 1e40 && !s.chance(1, 4))
                        v = 3.25;
                }
            }
            a->d[a->nd++] = v;
            break;
        }
        case 7: { // string, not NUL-terminated if the precision covers it
            d += "s";
            size_t n = s.size(s.chance(1, 60) ? 200000 : 200);
            std::string t = literal(s, n);
            std::string bytes = t + '\0';
            if (prec >= 0 && (size_t) prec <= t.size())
                bytes = t.substr(0, (size_t) prec);
            k->g.emplace_back(new Guarded(bytes.data(), bytes.size()));
            a->g[a->ng++] = (unsigned long long) (uintptr_t) k->g.back()->p;
            break;
        }
        case 8: { // wide string; refused when the locale cannot encode it
            d += "ls";
            std::wstring w;
            size_t n = s.size(40);
            bool ascii = !s.chance(1, 5);
            for (size_t i = 0; i < n; i++)
                w += ascii ? (wchar_t) (1 + s.below(126)) : (wchar_t) (1 + s.below(0x10ffff));
            k->w.emplace_back(new std::wstring(w));
            a->g[a->ng++] = (unsigned long long) (uintptr_t) k->w.back()->c_str();
            break;
        }
        case 9:
            if (s.chance(1, 8)) {
                d += "lc";
                a->g[a->ng++] = 1 + s.below(s.chance(1, 3) ? 0x110000 : 0x7e);
            } else {
                d += "c";
                a->g[a->ng++] = s.chance(1, 6) ? 0 : s.byte();
            }
            break;
        default:
            d += "p";
            a->g[a->ng++] = s.u64();
    }
    *f += d;
    return true;
}

void formats(Src &s)
{
    InLocale loc(s);
    std::string f;
    Args a = {};
    for (auto &g : a.g)
        g = 0x5151515151515151ull;
    for (auto &d : a.d)
        d = 1.5;
    Keep k;
    int n = 0;
    if (s.flip())
        f = literal(s, 100);
    while (s.more(4)) {
        if (!directive(s, &f, &a, &k))
            break;
        n++;
        if (s.flip())
            f += literal(s, s.chance(1, 60) ? 20000 : 30);
    }
    if (s.chance(1, 40)) {
        static const char *const bad[] = {"%2147483648d", "%.2147483648d", "%99999999999s", "%2147483647000x"};
        f.insert(s.below(2) ? 0 : f.size(), s.pick(bad));
        // (refused before it takes its argument, or there are enough of them
        // to be read as integers)
        if (f[0] == '%' && k.g.empty() && k.w.empty())
            ;
        else if (f.find("99999999999s") == 0)
            f = "x" + std::string("%2147483648d");
    }
    s.note("format %s, %d general and %d double arguments", show(f).c_str(), a.ng, a.nd);
    if (n)
        s.nontrivial();
    compare(f, a, s);
}

// refusals that take the C library a while
void refusals(Src &s)
{
    static const struct {
        const char *f;
        bool slow;
    } t[] = {{"%2147483648d", false},      {"%.2147483648d", false},     {"%2147483647dxx", true},
             {"abc%2147483647d", true},    {"%s%2147483647s", true},     {"%lc", false},
             {"some text %d %lc", false},  {"%ls", false},               {"%*d", false},
             {"a%99999999999999999999d", false}};
    size_t i = s.upto(9);
    Args a = {};
    static const wchar_t wide[] = {0x20ac, 0};
    switch (i) {
        case 4:
            a.g[0] = a.g[1] = (uintptr_t) "xyz";
            break;
        case 5:
            a.g[0] = 0x20ac;
            break;
        case 6:
            a.g[1] = 0xd800;
            break;
        case 7:
            a.g[0] = (uintptr_t) wide;
            break;
        case 8:
            a.g[0] = (unsigned) INT_MIN;
            break;
    }
    s.note("refused format %s", t[i].f);
    errno = 0;
    REQUIRE(snprintf(nullptr, 0, t[i].f, EXPAND(a)) < 0, "the C library accepts %s", t[i].f);
    compare(t[i].f, a, s);
    s.nontrivial();
}

// every output length around the interesting ones
void lengths(Src &s)
{
    uint64_t i = s.upto(5000);
    std::string t;
    for (uint64_t k = 0; k < i; k++)
        t += (char) ('a' + k % 26);
    Args a = {};
    a.g[0] = (uintptr_t) t.c_str();
    a.g[1] = i;
    s.note("output of %llu characters", (unsigned long long) i);
    compare("%s", a, s);
    compare(t, a, s);
    a.g[0] = i;
    a.g[1] = 7;
    compare("%*d", a, s);
    a.g[0] = 1;
    compare(t + "%d", a, s);
    s.nontrivial();
}

PROPERTY(C25,
         "A case is a printf format of literal text and directives with generated flags, widths, precisions, "
         "length modifiers and arguments in a generated locale, formatted by both variants and by "
         "snprintf, or all output lengths up to 5000, or a refused format; non-trivial if it has a "
         "directive.",
         {{"lengths", lengths, F_PROD | F_ASAN | F_ENUM, 5001, 5001, 4, 0},
          {"refusals", refusals, F_PROD | F_ENUM, 10, 10, 1, 0},
          {"formats", formats, F_PROD | F_ASAN | F_FUZZ | F_ALLOC, 2400000, 30000000, 10, 160000}});
} // namespace
