#pragma once
#include "pbt.hpp"
#include "uniref.hpp"
#include <fsdyn/charstr.h>
#include <memory>
#include "vast.hpp"

namespace {
using namespace pbt;

inline uint32_t any_cp(Src &s)
{
    uint32_t c = (uint32_t) s.below(0x110000 - 0x800 - 1) + 1;
    return c >= 0xD800 ? c + 0x800 : c;
}

// a code point that matters to normalization
inline uint32_t norm_cp(Src &s)
{
    switch (s.below(16)) {
        case 0:
        case 1:
            return 'a' + (uint32_t) s.below(26);
        case 2:
            return s.pick(uni::starters_of_composites());
        case 3:
        case 4:
            return s.pick(uni::seconds());
        case 5:
        case 6:
            return s.pick(uni::decomposables());
        case 7:
            return s.pick(uni::marks());
        case 8: { // marks with many classes, most of them common
            static const uint32_t m[] = {0x300, 0x301, 0x302, 0x303, 0x304, 0x306, 0x307, 0x308, 0x30A, 0x30C,
                                         0x316, 0x323, 0x324, 0x325, 0x327, 0x328, 0x31B, 0x334, 0x338, 0x345,
                                         0x5B0, 0x5BC, 0x64B, 0x651, 0x94D, 0x93C, 0x3099, 0x309A, 0xE48, 0xF71,
                                         0xF72, 0xF74, 0x302A, 0x1D165, 0x1D16D, 0x35C, 0x361, 0x34F};
            return s.pick(m);
        }
        case 9:
            return s.pick(uni::odd());
        case 10:
            return 0xAC00 + (uint32_t) s.below(11172);
        case 11:
            return 0xAC00 + 28 * (uint32_t) s.below(399);
        case 12:
            return 0x1100 + (uint32_t) s.below(0x100);
        case 13: {
            static const uint32_t j[] = {0x1100, 0x1112, 0x1113, 0x1160, 0x1161, 0x1175, 0x1176, 0x11A7, 0x11A8,
                                         0x11C2, 0x11C3, 0xAC00, 0xAC01, 0xAC1B, 0xAC1C, 0xD788, 0xD7A3, 0xD7A4,
                                         0x10FF, 0xABFF, 0xD7B0, 0xD7CB};
            return s.pick(j);
        }
        case 14: {
            static const uint32_t o[] = {0x212B, 0x2126, 0x340, 0x341, 0x343, 0x344, 0x374, 0x37E, 0x387, 0xF73,
                                         0xF75, 0xF81, 0x958, 0x2ADC, 0xFB1D, 0x1D15E, 0x1D160, 0x1D164, 0x1D1C0,
                                         0x2000, 0x2001, 0x2329, 0xF900, 0x2F800, 0x2FA1D, 0x1E9B, 0x1FEE, 0x1109A,
                                         0x1109C, 0x110AB, 0x1112E, 0x114BB, 0x9C7, 0x9BE, 0x9D7, 0xDD9, 0xDCF,
                                         0xDDD, 0x1026, 0x1B06, 0x1B0E, 0x115BA};
            return s.pick(o);
        }
        default:
            return any_cp(s);
    }
}

inline uni::Text norm_text(Src &s)
{
    uni::Text t;
    unsigned avg = s.pick(std::vector<unsigned>{1, 3, 6, 12, 40});
    while (s.more(avg)) {
        uint32_t c = norm_cp(s);
        size_t n = 1;
        if (s.chance(1, 40))
            n = 1 + s.size(20);
        if (s.chance(1, 400) && uni::ccc(c))
            n = 80 + s.below(60);
        while (n--)
            t.push_back(c);
        if (s.chance(1, 1500)) {   // a long run of marks in several classes
            static const std::vector<uint64_t> points{15, 16, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129,
                                                      255, 256, 257, 511, 512};
            size_t k = s.size_near(s.mode == Src::BYTES ? 130 : 600, points);
            std::vector<uint32_t> set;
            for (size_t i = 2 + s.below(4); i; i--)
                set.push_back(s.pick(uni::marks()));
            Rng g = s.bulk();
            while (k--)
                t.push_back(set[g.upto(set.size() - 1)]);
            s.label("long run of marks");
        }
        if (s.chance(1, 8)) {   // a composite taken apart
            const uni::Text *d = uni::decomposition(c);
            if (d)
                t.insert(t.end(), d->begin(), d->end());
        }
    }
    return t;
}

// bytes that are not UTF-8, put somewhere
inline std::string spoil(Src &s, const std::string &u)
{
    static const char *const bad[] = {"\xC3", "\x80", "\xE1\x84", "\xED\xA0\x80", "\xF4\x90\x80\x80", "\xC0\x80",
                                      "\xFF", "\xF0\x9D\x85", "\xE0\x80\xAF"};
    size_t at = s.below(u.size() + 1);
    return u.substr(0, at) + s.pick(bad) + u.substr(at);
}

// A source string in one of the accepted presentations
struct Input {
    Guarded *g = nullptr;
    std::unique_ptr<Range> far;
    const char *p, *end;
    Input(Src &s, const std::string &u)
    {
        make(s, u);
        if (g)
            p = g->p;
    }
    void make(Src &s, const std::string &u)
    {
        if (s.chance(1, 500)) { // a NUL, and the end gigabytes behind it
            far.reset(new Range(vast_room(s) + u.size()));
            if (far->ok) {
                memcpy(far->p, u.c_str(), u.size() + 1);
                p = far->p;
                end = far->end();
                s.label("end far away");
                return;
            }
        }
        switch (s.below(3)) {
            case 0: // ended by the given end, nothing readable behind
                g = new Guarded(u.data(), u.size());
                end = g->end();
                break;
            case 1: // ended by a NUL, no end
                g = new Guarded(u.c_str(), u.size() + 1);
                end = nullptr;
                break;
            default: { // a NUL before the end
                std::string v = u + '\0' + "x\xCC\x81\xFFzz";
                g = new Guarded(v.data(), v.size());
                end = g->end();
            }
        }
    }
    ~Input() { delete g; }
    Input(const Input &) = delete;
};
} // namespace
