#include "uni_common.hpp"
#include "long.hpp"

namespace {

// decompose u (valid or not) into a buffer of the given room
void check_room(Src &s, const std::string &u, bool valid, const std::string &want, size_t room)
{
    Input in(s, u);
    // now and then all the room in the world
    std::unique_ptr<Range> range(s.chance(1, 500) ? new Range(vast_room(s) + want.size() + 8) : nullptr);
    if (range && !range->ok)
        range.reset();
    Guarded small(range ? 0 : room);
    struct {
        char *p, *e;
        char *end() { return e; }
    } out = {small.p, small.end()};
    if (range) {
        out = {range->p, range->end()};
        room = range->n;
        s.label("room for gigabytes");
    }
    errno = 0;
    char *r = charstr_unicode_decompose(in.p, in.end, out.p, out.end());
    int err = errno;
    if (!range)
        small.check_before();
    if (!valid) {
        REQUIRE(!r, "decomposing %s (not UTF-8) succeeds with %s", show(u).c_str(),
                show(out.p, r - out.p).c_str());
        REQUIRE(err == EILSEQ || (err == EOVERFLOW && room < 3 * u.size() + 1),
                "decomposing %s (not UTF-8): errno %d", show(u).c_str(), err);
        return;
    }
    if (want.size() + 1 > room) {
        REQUIRE(!r, "decomposing %s (%zu bytes) into %zu bytes succeeds", show(u).c_str(), want.size(), room);
        REQUIRE(err == EOVERFLOW, "decomposing %s into %zu bytes: errno %d", show(u).c_str(), room, err);
        return;
    }
    REQUIRE(r, "decomposing %s into %zu bytes fails with errno %d, %zu are needed", show(u).c_str(), room, err,
            want.size() + 1);
    REQUIRE(r >= out.p && r < out.end() && !*r, "decomposing %s: the result is not NUL-terminated",
            show(u).c_str());
    std::string got(out.p, r);
    REQUIRE(got == want, "decomposing %s gives %s, expected %s", show(u).c_str(), show(got).c_str(),
            show(want).c_str());
}

void strings(Src &s)
{
    uni::Text t = norm_text(s);
    inflate(s, t, uni::Text{s.flip() ? norm_cp(s) : (uint32_t) 'x', 0xE4}, 800, 20000);
    uni::Text d = uni::nfd(t);
    std::string u = uni::enc(t), want = uni::enc(d);
    bool valid = !s.chance(1, 8);
    if (!valid)
        u = spoil(s, u);
    s.note("string %s", show(u).c_str());
    size_t room;
    switch (s.below(5)) {
        case 0:
            room = want.size() + 1;
            break;
        case 1:
            room = want.size();
            break;
        case 2:
            room = 3 * u.size() + 1;
            break;
        case 3:
            room = want.size() + (size_t) s.below(5);
            break;
        default:
            room = s.below(want.size() + 3);
    }
    s.note("room %zu, NFD needs %zu", room, want.size() + 1);
    check_room(s, u, valid, want, room);
    check_room(s, u, valid, want, 3 * u.size() + 1);
    if (!valid) {
        s.label("not UTF-8");
        return;
    }
    REQUIRE(want.size() <= 3 * u.size(), "reference: NFD of %s is too long", show(u).c_str());
    // the result decomposes to itself
    check_room(s, want, true, want, want.size() + 1);
    if (d != t) {
        s.nontrivial();
        if (uni::nfd(t).size() == t.size())
            s.label("marks reordered (or singletons)");
    }
    if (room < want.size() + 1)
        s.label("too small a buffer");
    if (room == want.size() + 1)
        s.label("buffer just large enough");
}

// every code point, alone and between others, with a tight buffer
void codepoints(Src &s)
{
    uint32_t block = (uint32_t) s.upto(0x10ff);
    s.note("code points U+%04X..U+%04X", block << 8, (block << 8) + 255);
    static Guarded *g;
    if (!g)
        g = new Guarded(64);
    for (uint32_t c = block << 8; c < (block + 1) << 8; c++) {
        if (c == 0 || (c >= 0xD800 && c < 0xE000))
            continue;
        static const uint32_t around[][2] = {{0, 0}, {'a', 0}, {0x301, 0x323}, {0x1100, 0x11A8}};
        for (auto &a : around) {
            uni::Text t;
            if (a[0])
                t.push_back(a[0]);
            t.push_back(c);
            if (a[1])
                t.push_back(a[1]);
            std::string u = uni::enc(t), want = uni::enc(uni::nfd(t));
            char *out = g->end() - want.size() - 1;
            char *r = charstr_unicode_decompose(u.data(), u.data() + u.size(), out, g->end());
            REQUIRE(r && r == out + want.size() && !*r && !memcmp(out, want.data(), want.size()),
                    "decomposing %s gives %s, expected %s", show(u).c_str(),
                    r ? show(out, r - out).c_str() : "NULL", show(want).c_str());
            errno = 0;
            r = charstr_unicode_decompose(u.data(), u.data() + u.size(), out + 1, g->end());
            REQUIRE(!r && errno == EOVERFLOW, "decomposing %s into %zu bytes: %s", show(u).c_str(), want.size(),
                    r ? "succeeds" : strerror(errno));
        }
    }
    s.nontrivial();
}

PROPERTY(C15,
         "A case is a block of 256 code points (each alone and next to others), or a string biased to "
         "decomposable characters, combining marks, Hangul and exclusions, valid or spoilt, with a buffer of "
         "any size; non-trivial if the NFD form differs from the string (or the block is not empty).",
         {{"codepoints", codepoints, F_PROD | F_ENUM, 0x1100, 0x1100, 1, 0},
          {"codepoints_asan", codepoints, F_ASAN | F_ENUM, 0x1100, 0x1100, 16, 0},
          {"strings", strings, F_PROD | F_ASAN | F_FUZZ, 2000000, 20000000, 10, 120000}});
} // namespace
