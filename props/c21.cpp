#include "pbt.hpp"
#include "uniref.hpp"
#include <fsdyn/charstr.h>
using namespace pbt;

namespace {

void check_cp(uint32_t c)
{
    static bool (*const pred[])(int) = {
        charstr_idna_status_is_valid,      charstr_idna_status_is_mapped,
        charstr_idna_status_is_ignored,    charstr_idna_status_is_deviation,
        charstr_idna_status_is_disallowed, charstr_idna_status_is_disallowed_STD3_valid,
        charstr_idna_status_is_disallowed_STD3_mapped};
    uni::Status want = uni::idna(c);
    for (int i = 0; i < 7; i++) {
        bool r = pred[i]((int) c);
        REQUIRE(r == (i == (int) want), "U+%04X is %sreported %s, its status is %s", c, r ? "" : "not ",
                uni::idna_name((uni::Status) i), uni::idna_name(want));
    }
    const char *n = charstr_idna_status((int) c);
    REQUIRE(n && !strcmp(n, uni::idna_name(want)), "status of U+%04X is %s, expected %s", c, show(n).c_str(),
            uni::idna_name(want));
    const char *m = charstr_idna_mapping((int) c);
    const uni::Text &w = uni::idna_mapping(c);
    if (w.empty())
        REQUIRE(!m, "U+%04X is mapped to %s, the table has no mapping", c, show(m).c_str());
    else
        REQUIRE(m && uni::enc(w) == m, "U+%04X is mapped to %s, expected %s", c, show(m).c_str(),
                show(uni::enc(w)).c_str());
}

void codepoints(Src &s)
{
    uint32_t block = (uint32_t) s.upto(0x10ff);
    s.note("code points U+%04X..U+%04X", block << 8, (block << 8) + 255);
    for (uint32_t c = block << 8; c < (block + 1) << 8; c++)
        check_cp(c);
    s.nontrivial();
}

void mixed(Src &s)
{
    while (s.more(20)) {
        uint32_t c = s.flip() ? s.pick(uni::idna_of((uni::Status) s.below(7))) : (uint32_t) s.below(0x110000);
        int d = (int) s.range(-1, 1);
        if ((int) c + d >= 0 && (int) c + d < 0x110000)
            c += (uint32_t) d;
        s.note("U+%04X", c);
        check_cp(c);
        s.nontrivial();
    }
}

PROPERTY(C21,
         "A case is a block of 256 code points (all of 0..10FFFF are covered) checked against the reference "
         "table, or a random sequence of code points of every status and their neighbours; non-trivial if "
         "it is not empty.",
         {{"codepoints", codepoints, F_PROD | F_ENUM, 0x1100, 0x1100, 1, 0},
          {"codepoints_asan", codepoints, F_ASAN | F_ENUM, 0x1100, 0x1100, 8, 0},
          {"mixed", mixed, F_PROD | F_ASAN, 300000, 10000000, 10, 0}});
} // namespace
