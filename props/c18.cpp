#include <memory>
#include <sys/mman.h>
#include "loc_common.hpp"
#include <fsdyn/charstr.h>
#include <fsdyn/fsalloc.h>
#include <algorithm>
#include "long.hpp"
#include "vast.hpp"
using namespace pbt;

namespace {

bool wsp(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\f' || c == '\r'; }

std::vector<std::string> take(list_t *l)
{
    std::vector<std::string> r;
    REQUIRE(l, "the list is NULL");
    while (!list_empty(l)) {
        char *x = (char *) list_pop_first(l);
        REQUIRE(x, "a piece is NULL");
        r.push_back(x);
        fsfree(x);
    }
    destroy_list(l);
    return r;
}

std::string sh(const std::vector<std::string> &v)
{
    std::string r = "[";
    for (size_t i = 0; i < v.size(); i++)
        r += (i ? ", " : "") + show(v[i]);
    return r + "]";
}

std::vector<std::string> ref_split(const std::string &t, const std::string &d, unsigned limit)
{
    std::vector<std::string> r;
    size_t at = 0;
    for (;;) {
        size_t p = limit && limit-- ? t.find(d, at) : std::string::npos;
        if (p == std::string::npos) {
            r.push_back(t.substr(at));
            return r;
        }
        r.push_back(t.substr(at, p - at));
        at = p + d.size();
    }
}

std::string text(Src &s, const std::string &pool, unsigned avg)
{
    std::string t;
    while (s.more(avg))
        t += pool.empty() || s.chance(1, 8) ? (char) (1 + s.below(255)) : pool[s.below(pool.size())];
    return t;
}

unsigned limit_of(Src &s)
{
    switch (s.below(4)) {
        case 0:
            return (unsigned) -1;
        case 1:
            return 0;
        case 2:
            return (unsigned) (UINT32_MAX - s.below(3));
        default:
            return (unsigned) s.below(6);
    }
}

void split(Src &s)
{
    char d = s.flip() ? ',' : (char) (1 + s.below(255));
    std::string t = text(s, std::string(2, d) + "ab ", 10);
    inflate(s, t, std::string(s.flip() ? "filler" : s.flip() ? "a,b" : std::string(1, d)), 250);
    unsigned lim = limit_of(s);
    s.note("split %s at %s, limit %u", show(t).c_str(), show(&d, 1).c_str(), lim);
    Guarded g(t.c_str(), t.size() + 1);
    auto want = ref_split(t, std::string(1, d), lim);
    auto got = take(charstr_split(g.p, d, lim));
    REQUIRE(got == want, "splitting %s at %02x with limit %u gives %s, expected %s", show(t).c_str(),
            (unsigned char) d, lim, sh(got).c_str(), sh(want).c_str());
    char dz[2] = {d, 0};
    got = take(charstr_split_str(g.p, dz, lim));
    REQUIRE(got == want, "split_str of %s at %02x with limit %u gives %s", show(t).c_str(), (unsigned char) d, lim,
            sh(got).c_str());
    // the array must have room for limit + 1 pieces; for huge limits it is an
    // address range of that size, of which hardly any page is ever touched
    static char **const shared_huge = [] {
        void *p = mmap(nullptr, ((size_t) 1 << 32) * sizeof(char *), PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        return p == MAP_FAILED ? nullptr : (char **) p;
    }();
    char **huge = shared_process ? nullptr : shared_huge;
    if (lim < 1000 || huge) {
        std::unique_ptr<Guarded> arr(lim < 1000 ? new Guarded((lim + 1) * sizeof(char *)) : nullptr);
        char **a = arr ? (char **) arr->p : huge;
        unsigned n = charstr_split_into_array(g.p, d, a, lim);
        REQUIRE(n + 1 == want.size(), "split_into_array of %s with limit %u returns %u, expected %zu",
                show(t).c_str(), lim, n, want.size() - 1);
        if (arr)
            arr->check_before();
        for (unsigned i = 0; i <= n; i++) {
            REQUIRE(a[i] && want[i] == a[i], "split_into_array of %s: piece %u is %s, expected %s",
                    show(t).c_str(), i, show(a[i]).c_str(), show(want[i]).c_str());
            fsfree(a[i]);
        }
        if (!arr)
            s.label("array without a limit");
    }
    if (want.size() > 1)
        s.nontrivial();
    if (lim && lim + 1 == want.size())
        s.label("split limit reached");
}

void split_str(Src &s)
{
    static const char *const ds[] = {"ab", "aa", "aba", "aab", "a", "::", "\r\n", "abab"};
    std::string d = s.chance(3, 4) ? std::string(s.pick(ds)) : text(s, "ab", 2) + (char) (1 + s.below(255));
    std::string t;
    while (s.more(6))
        t += s.chance(1, 2) ? d : s.chance(1, 2) ? d.substr(0, s.below(d.size() + 1)) : text(s, "ab", 2);
    inflate(s, t, std::string(s.flip() ? "filler" : s.flip() ? "aba" : d), 250);
    unsigned lim = limit_of(s);
    s.note("split %s at %s, limit %u", show(t).c_str(), show(d).c_str(), lim);
    Guarded g(t.c_str(), t.size() + 1), gd(d.c_str(), d.size() + 1);
    auto want = ref_split(t, d, lim);
    auto got = take(charstr_split_str(g.p, gd.p, lim));
    REQUIRE(got == want, "splitting %s at %s with limit %u gives %s, expected %s", show(t).c_str(),
            show(d).c_str(), lim, sh(got).c_str(), sh(want).c_str());
    if (want.size() > 1)
        s.nontrivial();
}

void atoms(Src &s)
{
    InLocale loc(s);
    std::string t = text(s, " \t\n\f\rab\v\x85\xa0", 10);
    inflate(s, t, std::string(s.flip() ? "x" : s.flip() ? " " : s.flip() ? "x " : "\t\n"), 250);
    s.note("atoms of %s", show(t).c_str());
    Guarded g(t.c_str(), t.size() + 1);
    std::vector<std::string> want;
    bool in = false;
    for (char c : t) {
        if (wsp(c))
            in = false;
        else {
            if (!in)
                want.push_back("");
            want.back() += c;
            in = true;
        }
    }
    auto got = take(charstr_split_atoms(g.p));
    REQUIRE(got == want, "atoms of %s are %s, expected %s", show(t).c_str(), sh(got).c_str(), sh(want).c_str());
    size_t a = 0, b = t.size();
    while (a < b && wsp(t[a]))
        a++;
    while (b > a && wsp(t[b - 1]))
        b--;
    char *r = charstr_strip(g.p);
    REQUIRE(r && t.substr(a, b - a) == r, "stripping %s gives %s, expected %s", show(t).c_str(), show(r).c_str(),
            show(t.substr(a, b - a)).c_str());
    fsfree(r);
    REQUIRE(!charstr_strip(nullptr), "strip(NULL) is not NULL");
    if (want.size() > 1 || a || b < t.size())
        s.nontrivial();
    if (want.empty() && !t.empty())
        s.label("only whitespace");
}

void copies(Src &s)
{
    std::string t = text(s, "", 12);
    inflate(s, t, std::string("filler"), 250);
    Guarded g(t.c_str(), t.size() + 1);
    s.note("copy %s", show(t).c_str());
    char *r = charstr_dupstr(g.p);
    REQUIRE(r && t == r && r != g.p, "dupstr of %s is %s", show(t).c_str(), show(r).c_str());
    fsfree(r);
    size_t a = s.below(t.size() + 1), b = a + s.below(t.size() - a + 1);
    if (s.chance(1, 4) && b > a) // embedded NUL
        g.writable().p[a + s.below(b - a)] = 0;
    std::string part(g.p + a, b - a);
    Guarded exact(part.data(), part.size());
    r = charstr_dupsubstr(exact.p, exact.end());
    REQUIRE(r && !memcmp(r, part.c_str(), part.size() + 1), "dupsubstr of %s is %s", show(part).c_str(),
            show(r).c_str());
    fsfree(r);
    if (b > a)
        s.nontrivial();
}

char lower(char c) { return c >= 'A' && c <= 'Z' ? (char) (c + 32) : c; }

void affixes(Src &s)
{
    InLocale loc(s);
    std::string pool = "aAbBiI\xc0\xe0\xfd\xdd";
    std::string p = text(s, pool, 3), t;
    switch (s.below(4)) {
        case 0:
            t = p + text(s, pool, 3);
            break;
        case 1:
            t = text(s, pool, 3) + p;
            break;
        case 2:
            t = p.substr(0, s.below(p.size() + 1));
            break;
        default:
            t = text(s, pool, 4);
            break;
    }
    if (!t.empty() && s.flip())
        for (int k = 0; k < 2; k++) { // case and near-case changes
            size_t i = s.below(t.size());
            char c = (char) (t[i] ^ 0x20);
            if (c)
                t[i] = c;
        }
    if (s.chance(1, 300)) {
        std::string f;
        inflate(s, f, std::string("filler"), 1);
        if (s.flip())
            t += f, p = s.flip() ? p + f : p;
        else
            t = f + t, p = s.flip() ? f + p : p;
    }
    s.note("string %s, affix %s", show(t).c_str(), show(p).c_str());
    Guarded gt(t.c_str(), t.size() + 1), gp(p.c_str(), p.size() + 1);
    bool pre = t.compare(0, p.size(), p) == 0 && t.size() >= p.size();
    bool suf = t.size() >= p.size() && t.compare(t.size() - p.size(), p.size(), p) == 0;
    bool cpre = t.size() >= p.size();
    for (size_t i = 0; cpre && i < p.size(); i++)
        cpre = lower(t[i]) == lower(p[i]);
    const char *w = pre ? gt.p + p.size() : nullptr, *wc = cpre ? gt.p + p.size() : nullptr;
    REQUIRE(charstr_skip_prefix(gt.p, gp.p) == w, "skip_prefix(%s, %s) is wrong", show(t).c_str(),
            show(p).c_str());
    REQUIRE(charstr_case_starts_with(gt.p, gp.p) == w, "case_starts_with(%s, %s) is wrong", show(t).c_str(),
            show(p).c_str());
    REQUIRE(charstr_case_skip_prefix(gt.p, gp.p) == wc, "case_skip_prefix(%s, %s) is wrong", show(t).c_str(),
            show(p).c_str());
    REQUIRE(charstr_ncase_starts_with(gt.p, gp.p) == wc, "ncase_starts_with(%s, %s) is wrong", show(t).c_str(),
            show(p).c_str());
    REQUIRE(charstr_ends_with(gt.p, gp.p) == suf, "ends_with(%s, %s) is %d", show(t).c_str(), show(p).c_str(),
            !suf);
    if (!p.empty())
        s.nontrivial();
    if (cpre && !pre)
        s.label("prefix up to case only");
}

// gigabytes of whitespace or of a common affix
void vast(Src &s)
{
    size_t n = vast_size(s);
    if (s.flip()) {
        Vast t(std::string(4096 * 256, s.pick(std::vector<char>{' ', '\t', '\n'})), n, false);
        if (!t.ok)
            return;
        size_t a = s.flip() ? s.below(100) : n - 2 - s.below(100);
        size_t b = s.flip() ? s.below(100) : n - 2 - s.below(100);
        t.p[a] = 'x';
        t.p[b] = a == b ? 'x' : 'y';
        t.p[n - 1] = 0;
        s.note("%zu blanks but for %zu and %zu", n - 1, a, b);
        std::vector<std::string> want{a <= b ? "x" : "y"};
        if (a + 1 == b)
            want[0] = "xy";
        else if (b + 1 == a)
            want[0] = "yx";
        else if (a != b)
            want.push_back(a < b ? "y" : "x");
        auto got = take(charstr_split_atoms(t.p));
        REQUIRE(got == want, "atoms of %zu blanks but for %zu and %zu are %s", n - 1, a, b, sh(got).c_str());
        size_t lo = std::min(a, b), hi = std::max(a, b);
        if (hi - lo < 4096) {
            char *r = charstr_strip(t.p);
            std::string w(t.p + lo, t.p + hi + 1);
            REQUIRE(r && w == r, "stripping %zu blanks but for %zu and %zu gives %s", n - 1, a, b, show(r).c_str());
            fsfree(r);
        }
    } else {
        std::string pat(4096 * 256, 0);
        Rng g = s.bulk();
        for (char &c : pat)
            c = (char) ('a' + g.upto(25));
        Vast t(pat, n, false), u(pat, n, false);
        if (!t.ok || !u.ok)
            return;
        size_t m = n - 1 - s.below(3), shift = s.below(3) * pat.size();
        t.p[n - 1] = u.p[m] = 0;
        // u + shift: the affix, t: the text; one character may differ by case or more
        size_t at = m - 1 - s.below(50);
        int change = (int) s.below(3);
        if (change)
            u.p[at] = change == 1 ? (char) (u.p[at] ^ 0x20) : '~';
        s.note("text of %zu bytes, prefix of %zu, change %d at %zu", n - 1, m, change, at);
        REQUIRE(charstr_skip_prefix(t.p, u.p) == (change ? nullptr : t.p + m), "skip_prefix is wrong");
        REQUIRE(charstr_case_skip_prefix(t.p, u.p) == (change == 2 ? nullptr : t.p + m), "case_skip_prefix is wrong");
        // as suffixes: the same ends if the texts have the same length
        bool want = m == n - 1 && !change;
        REQUIRE(charstr_ends_with(t.p, u.p + shift) == want, "ends_with is wrong (shift %zu)", shift);
        REQUIRE(charstr_ends_with(t.p, t.p + n - 1 - s.below(40)), "ends_with a short suffix is wrong");
    }
    s.nontrivial();
}

// pieces and copies of gigabytes
void giant(Src &s)
{
    size_t n = vast_size(s);
    std::string pat(4096 * 256, 0);
    Rng g = s.bulk();
    for (char &c : pat)
        c = (char) ('a' + g.upto(25));
    Vast t(pat, n, false);
    if (!t.ok)
        return;
    std::string unit = pat.substr(t.phase()) + pat.substr(0, t.phase());
    std::string tail = std::string(s.below(3), 'T');
    BigBlocks big;
    size_t head = n - 1 - tail.size() - (size_t) s.below(40);
    memcpy(t.p + head, tail.c_str(), tail.size() + 1);
    size_t len = head + tail.size();
    switch (s.below(5)) {
        case 0: {
            s.note("dupstr of %zu bytes", len);
            char *r = charstr_dupstr(t.p);
            big.check(r, len, unit, tail, "dupstr");
            fsfree(r);
            break;
        }
        case 1: {
            s.note("dupsubstr of %zu bytes", len);
            char *r = charstr_dupsubstr(t.p, t.p + len);
            big.check(r, len, unit, tail, "dupsubstr");
            fsfree(r);
            break;
        }
        case 2: {
            size_t a = s.below(60), b = s.below(20);
            memset(t.p, '\n', a);
            memset(t.p + head, 'z', n - 1 - head);
            memset(t.p + n - 1 - b, ' ', b);
            t.p[n - 1] = 0;
            s.note("strip %zu and %zu blanks off %zu bytes", a, b, n - 1);
            std::string u = unit.substr(a % unit.size()) + unit.substr(0, a);
            char *r = charstr_strip(t.p);
            big.check(r, n - 1 - a - b, u, std::string(t.p + n - 1 - b - 60, 60), "strip");
            fsfree(r);
            break;
        }
        default: { // a delimiter before and after
            std::string d = s.flip() ? "," : "<>";
            size_t a = s.below(40);
            t.p[n - 1] = 0;
            memset(t.p, '-', a);
            memcpy(t.p + a, d.data(), d.size());
            size_t from = a + d.size(), to = n - 1 - d.size() - s.below(40);
            for (size_t i = head; i < n - 1; i++)
                t.p[i] = 'z';
            std::string before(t.p + to - 50, 50);
            memcpy(t.p + to, d.data(), d.size());
            std::string first(a, '-'), last(t.p + to + d.size());
            s.note("split %zu bytes at %zu and %zu", n - 1, a, to);
            std::string u = unit.substr(from) + unit.substr(0, from);
            if (d.size() == 1 && s.flip()) {
                char *r[4] = {};
                unsigned k = charstr_split_into_array(t.p, d[0], r, 2 + (unsigned) s.below(2));
                REQUIRE(k == 2 && r[0] == first && r[2] == last && !r[3], "split_into_array is wrong");
                big.check(r[1], to - from, u, before, "split_into_array");
                fsfree(r[0]);
                fsfree(r[1]);
                fsfree(r[2]);
            } else {
                list_t *l = d.size() == 1 ? charstr_split(t.p, d[0], 2 + (unsigned) s.below(2))
                                          : charstr_split_str(t.p, d.c_str(), 2 + (unsigned) s.below(2));
                REQUIRE(l && list_size(l) == 3, "%zu pieces instead of 3", l ? list_size(l) : 0);
                char *x = (char *) list_pop_first(l), *y = (char *) list_pop_first(l), *z = (char *) list_pop_first(l);
                REQUIRE(x == first && z == last, "the pieces are %s, ..., %s", show(x).c_str(), show(z).c_str());
                big.check(y, to - from, u, before, "split");
                fsfree(x);
                fsfree(y);
                fsfree(z);
                destroy_list(l);
            }
        }
    }
    s.nontrivial();
}

PROPERTY(C18,
         "A case is a text rich in delimiters, partial delimiters or whitespace split with every kind of "
         "limit, stripped or copied, or a string/affix pair differing by nothing, case or a bit, compared "
         "with the plain definition, some in 8-bit locales; non-trivial if there is something to split, "
         "strip, copy or match.",
         {{"split", split, F_PROD | F_ASAN | F_FUZZ | F_ALLOC, 1200000, 15000000, 8, 120000},
          {"split_str", split_str, F_PROD | F_ASAN | F_FUZZ | F_ALLOC, 1200000, 15000000, 8, 120000},
          {"atoms", atoms, F_PROD | F_ASAN | F_FUZZ | F_ALLOC, 1200000, 10000000, 8, 80000},
          {"copies", copies, F_PROD | F_ASAN | F_ALLOC, 800000, 5000000, 8, 0},
          {"vast", vast, F_PROD | F_SLOW, 16, 160, 1, 0},
          {"giant", giant, F_PROD | F_SLOW, 24, 160, 1, 0},
          {"affixes", affixes, F_PROD | F_ASAN | F_FUZZ, 1200000, 15000000, 8, 80000}});
} // namespace
