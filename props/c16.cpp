#include "uni_common.hpp"
#include "long.hpp"

namespace {

// The library keeps at most 100 uncomposed marks after a starter (a known
// finding, see known_findings.txt): beyond that NULL is tolerated.
bool beyond_mark_limit(const uni::Text &t)
{
    uni::Text c = uni::nfc(t);
    size_t run = 0;
    for (size_t i = 0; i < c.size(); i++) {
        run = uni::ccc(c[i]) ? run + 1 : 0;
        if (run > 100)
            return true;
    }
    return false;
}

void check_room(Src &s, const std::string &u, bool valid, bool tolerate, const std::string &want, size_t room)
{
    Input in(s, u);
    // now and then all the room in the world
    std::unique_ptr<Range> range(s.chance(1, 500) ? new Range(vast_room(s) + want.size() + 8) : nullptr);
    if (range && !range->ok)
        range.reset();
    Guarded small(range ? 0 : room);
    struct {
        char *p, *e;
        char *end() { return e; }
    } out = {small.p, small.end()};
    if (range) {
        out = {range->p, range->end()};
        room = range->n;
        s.label("room for gigabytes");
    }
    errno = 0;
    char *r = charstr_unicode_recompose(in.p, in.end, out.p, out.end());
    int err = errno;
    if (!range)
        small.check_before();
    if (!valid) {
        REQUIRE(!r, "recomposing %s (not UTF-8) succeeds", show(u).c_str());
        REQUIRE(tolerate || err == EILSEQ || (err == EOVERFLOW && room < u.size() + 1),
                "recomposing %s (not UTF-8): errno %d", show(u).c_str(), err);
        return;
    }
    if (!r && tolerate)
        return;
    if (want.size() + 1 > room) {
        REQUIRE(!r, "recomposing %s (%zu bytes) into %zu bytes succeeds", show(u).c_str(), want.size(), room);
        REQUIRE(err == EOVERFLOW, "recomposing %s into %zu bytes: errno %d", show(u).c_str(), room, err);
        return;
    }
    REQUIRE(r, "recomposing %s into %zu bytes fails with errno %d, %zu are needed", show(u).c_str(), room, err,
            want.size() + 1);
    REQUIRE(r >= out.p && r < out.end() && !*r, "recomposing %s: the result is not NUL-terminated",
            show(u).c_str());
    std::string got(out.p, r);
    REQUIRE(got == want, "recomposing %s gives %s, expected %s", show(u).c_str(), show(got).c_str(),
            show(want).c_str());
}

void check_detectors(Src &s, const uni::Text &t, const std::string &u, bool valid, const uni::Text &prefix)
{
    static const struct {
        int no, maybe;
        const char *name;
    } form[] = {{UNICODE_NFC_DISALLOWED, UNICODE_NFC_MAYBE, "NFC"},
                {UNICODE_NFD_DISALLOWED, UNICODE_NFD_MAYBE, "NFD"},
                {UNICODE_NFKC_DISALLOWED, UNICODE_NFKC_MAYBE, "NFKC"},
                {UNICODE_NFKD_DISALLOWED, UNICODE_NFKD_MAYBE, "NFKD"}};
    for (auto &f : form) {
        Input in(s, u);
        int r = charstr_detect_unicode_normal_form(in.p, in.end, f.no, f.maybe);
        if (!valid) {
            // an earlier violation may be reported first
            bool earlier = uni::quick_check(prefix, f.no, f.maybe) == 1;
            REQUIRE(r == -1 || (earlier && r == f.no), "%s detection of %s (not UTF-8) gives %d", f.name,
                    show(u).c_str(), r);
            continue;
        }
        int q = uni::quick_check(t, f.no, f.maybe);
        int want = q == 0 ? 0 : q == 1 ? f.no : f.maybe;
        REQUIRE(r == want, "%s detection of %s gives %d, expected %d", f.name, show(u).c_str(), r, want);
    }
    Input in(s, u);
    bool c = charstr_unicode_canonically_composed(in.p, in.end);
    bool d = charstr_unicode_canonically_decomposed(in.p, in.end);
    if (!valid) {
        REQUIRE(!c && !d, "%s (not UTF-8) is reported %s", show(u).c_str(), c ? "composed" : "decomposed");
        return;
    }
    bool is_nfd = uni::nfd(t) == t, is_nfc = uni::nfc(t) == t;
    REQUIRE(!c || is_nfc, "%s is reported composed but is not NFC", show(u).c_str());
    REQUIRE(d == is_nfd, "%s is reported %sdecomposed", show(u).c_str(), d ? "" : "not ");
    if (c)
        s.label("composed");
    else if (is_nfc)
        s.label("NFC but not detected");
}

void strings(Src &s)
{
    uni::Text t = norm_text(s);
    inflate(s, t, uni::Text{s.flip() ? norm_cp(s) : (uint32_t) 'x', 0xE4}, 800, 20000);
    int form = (int) s.below(3);
    uni::Text in = form == 2 ? uni::nfc(t) : uni::nfd(t);
    uni::Text c = uni::nfc(in);
    std::string u = uni::enc(in), want = uni::enc(c);
    bool valid = !s.chance(1, 8);
    std::string x = valid ? u : spoil(s, u);
    s.note("string %s (%s)", show(x).c_str(), form == 2 ? "NFC" : "NFD");
    bool tol = beyond_mark_limit(in);
    size_t room;
    switch (s.below(5)) {
        case 0:
            room = want.size() + 1;
            break;
        case 1:
            room = want.size();
            break;
        case 2:
            room = u.size() + 1;
            break;
        case 3:
            room = want.size() + (size_t) s.below(5);
            break;
        default:
            room = s.below(want.size() + 3);
    }
    s.note("room %zu, NFC needs %zu", room, want.size() + 1);
    REQUIRE(want.size() <= u.size(), "reference: NFC of %s is too long", show(u).c_str());
    check_room(s, x, valid, tol, want, room);
    check_room(s, x, valid, tol, want, x.size() + 1);
    // idempotence
    if (valid)
        check_room(s, want, true, tol, want, want.size() + 1);
    // detectors, on the unnormalized text too
    check_detectors(s, in, u, true, in);
    std::string ut = uni::enc(t);
    check_detectors(s, t, ut, true, t);
    size_t at = s.below(t.size() + 1);
    uni::Text prefix(t.begin(), t.begin() + (ptrdiff_t) at);
    check_detectors(s, t, uni::enc(prefix) + (s.flip() ? "\xFF" : "\xE1\x84") + ut, false, prefix);
    if (c != in)
        s.nontrivial(), s.label("recomposition changes the string");
    if (tol)
        s.label("beyond the mark limit (known finding)");
    if (!valid)
        s.label("not UTF-8");
    if (room < want.size() + 1)
        s.label("too small a buffer");
}

// every code point decomposed, alone and between others; all composable pairs
void codepoints(Src &s)
{
    uint32_t block = (uint32_t) s.upto(0x10ff);
    s.note("code points U+%04X..U+%04X", block << 8, (block << 8) + 255);
    static Guarded *g;
    if (!g)
        g = new Guarded(64);
    for (uint32_t c = block << 8; c < (block + 1) << 8; c++) {
        if (c == 0 || (c >= 0xD800 && c < 0xE000))
            continue;
        static const uint32_t around[][2] = {{0, 0}, {'a', 0x301}, {0x1100, 0x11A8}, {0xAC00, 0x1161}, {0x5D0, 0}};
        for (auto &a : around) {
            uni::Text t;
            if (a[0])
                t.push_back(a[0]);
            t.push_back(c);
            if (a[1])
                t.push_back(a[1]);
            uni::Text d = uni::nfd(t), n = uni::nfc(t);
            std::string u = uni::enc(d), want = uni::enc(n);
            char *out = g->end() - want.size() - 1;
            char *r = charstr_unicode_recompose(u.data(), u.data() + u.size(), out, g->end());
            REQUIRE(r && r == out + want.size() && !*r && !memcmp(out, want.data(), want.size()),
                    "recomposing %s gives %s, expected %s", show(u).c_str(),
                    r ? show(out, r - out).c_str() : "NULL", show(want).c_str());
            errno = 0;
            r = charstr_unicode_recompose(u.data(), u.data() + u.size(), out + 1, g->end());
            REQUIRE(!r && errno == EOVERFLOW, "recomposing %s into %zu bytes: %s", show(u).c_str(), want.size(),
                    r ? "succeeds" : strerror(errno));
            std::string ut = uni::enc(t);
            REQUIRE(charstr_unicode_canonically_decomposed(ut.c_str(), nullptr) == (d == t),
                    "%s is reported %sdecomposed", show(ut).c_str(), d == t ? "not " : "");
            if (charstr_unicode_canonically_composed(ut.c_str(), nullptr))
                REQUIRE(n == t, "%s is reported composed but is not NFC", show(ut).c_str());
            int q = uni::quick_check(t, 1, 2);
            REQUIRE(charstr_detect_unicode_normal_form(ut.c_str(), nullptr, UNICODE_NFC_DISALLOWED,
                                                       UNICODE_NFC_MAYBE) == q,
                    "NFC detection of %s is not %d", show(ut).c_str(), q);
        }
    }
    s.nontrivial();
}

PROPERTY(C16,
         "A case is a block of 256 code points (decomposed, alone and next to others), or a string in NFD or "
         "NFC biased to composable sequences, blocked marks, Hangul and exclusions, valid or spoilt, with a "
         "buffer of any size, and the detectors on it and on its unnormalized origin; non-trivial if "
         "recomposition changes the string (or the block is not empty).",
         {{"codepoints", codepoints, F_PROD | F_ENUM, 0x1100, 0x1100, 1, 0},
          {"codepoints_asan", codepoints, F_ASAN | F_ENUM, 0x1100, 0x1100, 16, 0},
          {"strings", strings, F_PROD | F_ASAN | F_FUZZ, 1600000, 16000000, 10, 120000}});
} // namespace
