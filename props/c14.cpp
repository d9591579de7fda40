#include "pbt.hpp"
#include "uniref.hpp"
#include <fsdyn/charstr.h>
using namespace pbt;

namespace {

const char *category_name(int c)
{
    switch (c) {
#define X(n)                                                                                                   \
    case UNICODE_CATEGORY_##n:                                                                                 \
        return #n;
        X(Cn) X(Cc) X(Cf) X(Co) X(Cs) X(Ll) X(Lm) X(Lo) X(Lt) X(Lu) X(Mc) X(Me) X(Mn) X(Nd) X(Nl) X(No) X(Pc)
        X(Pd) X(Pe) X(Pf) X(Pi) X(Po) X(Ps) X(Sc) X(Sk) X(Sm) X(So) X(Zl) X(Zp) X(Zs)
#undef X
    }
    return "?";
}

void check_cp(uint32_t c)
{
    const char *g = category_name((int) charstr_unicode_category((int) c));
    REQUIRE(!strcmp(g, uni::gc(c)), "category of U+%04X is %s, expected %s", c, g, uni::gc(c));
    int k = charstr_unicode_canonical_combining_class((int) c);
    REQUIRE(k == uni::ccc(c), "combining class of U+%04X is %d, expected %d", c, k, uni::ccc(c));
    int q = charstr_allowed_unicode_normal_forms((int) c);
    REQUIRE(q == uni::qc(c), "quick-check flags of U+%04X are %02x, expected %02x", c, (unsigned) q,
            (unsigned) uni::qc(c));
    int l = charstr_naive_lcase_unicode((int) c);
    if (!strcmp(uni::gc(c), "Lu") || l != (int) c)
        REQUIRE(l == (int) uni::lower(c), "lower case of U+%04X is U+%04X, expected U+%04X", c, (unsigned) l,
                uni::lower(c));
    int u = charstr_naive_ucase_unicode((int) c);
    REQUIRE(u == (int) uni::upper(c), "upper case of U+%04X is U+%04X, expected U+%04X", c, (unsigned) u,
            uni::upper(c));
}

void codepoints(Src &s)
{
    uint32_t block = (uint32_t) s.upto(0x10ff);
    s.note("code points U+%04X..U+%04X", block << 8, (block << 8) + 255);
    bool some = false;
    for (uint32_t c = block << 8; c < (block + 1) << 8; c++) {
        check_cp(c);
        some |= strcmp(uni::gc(c), "Cn") != 0;
    }
    if (some)
        s.nontrivial();
}

// the answer must not depend on what was asked before
void mixed(Src &s)
{
    while (s.more(20)) {
        uint32_t c;
        switch (s.below(5)) {
            case 0:
                c = (uint32_t) s.below(0x3000);
                break;
            case 1:
                c = s.pick(uni::marks());
                break;
            case 2:
                c = s.pick(uni::decomposables());
                break;
            case 3:
                c = (uint32_t) s.below(0x20000);
                break;
            default:
                c = (uint32_t) s.below(0x110000);
        }
        if (s.chance(1, 4) && c)
            c--;
        s.note("U+%04X", c);
        check_cp(c);
        if (strcmp(uni::gc(c), "Cn"))
            s.nontrivial();
    }
}

PROPERTY(C14,
         "A case is a block of 256 code points (all of 0..10FFFF are covered) checked against the reference "
         "tables, or a random sequence of code points; non-trivial if some code point is assigned.",
         {{"codepoints", codepoints, F_PROD | F_ENUM, 0x1100, 0x1100, 1, 0},
          {"codepoints_asan", codepoints, F_ASAN | F_ENUM, 0x1100, 0x1100, 8, 0},
          {"mixed", mixed, F_PROD, 300000, 10000000, 1, 0}});
} // namespace
