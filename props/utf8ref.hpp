// Reference UTF-8, after table 3-7 of the Unicode Standard.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <string>
#include <vector>

// length of the well-formed sequence at p (of n bytes), 0 if none
static inline size_t u8_len(const unsigned char *p, size_t n, uint32_t *cp = nullptr)
{
    struct Row {
        unsigned char lo1, hi1, lo2, hi2;
        size_t len;
    };
    static const Row rows[] = {
        {0x00, 0x7F, 0, 0, 1},          {0xC2, 0xDF, 0x80, 0xBF, 2}, {0xE0, 0xE0, 0xA0, 0xBF, 3},
        {0xE1, 0xEC, 0x80, 0xBF, 3},    {0xED, 0xED, 0x80, 0x9F, 3}, {0xEE, 0xEF, 0x80, 0xBF, 3},
        {0xF0, 0xF0, 0x90, 0xBF, 4},    {0xF1, 0xF3, 0x80, 0xBF, 4}, {0xF4, 0xF4, 0x80, 0x8F, 4}};
    if (!n)
        return 0;
    for (const Row &r : rows) {
        if (p[0] < r.lo1 || p[0] > r.hi1)
            continue;
        if (r.len > n)
            return 0;
        if (r.len > 1 && (p[1] < r.lo2 || p[1] > r.hi2))
            return 0;
        for (size_t i = 2; i < r.len; i++)
            if (p[i] < 0x80 || p[i] > 0xBF)
                return 0;
        if (cp) {
            static const unsigned char mask[] = {0, 0x7F, 0x1F, 0x0F, 0x07};
            uint32_t v = p[0] & mask[r.len];
            for (size_t i = 1; i < r.len; i++)
                v = v * 64 + (p[i] - 0x80);
            *cp = v;
        }
        return r.len;
    }
    return 0;
}

static inline std::string u8_enc(uint32_t c)
{
    std::string r;
    if (c < 0x80)
        r += (char) c;
    else if (c < 0x800) {
        r += (char) (0xC0 + c / 64);
        r += (char) (0x80 + c % 64);
    } else if (c < 0x10000) {
        r += (char) (0xE0 + c / 4096);
        r += (char) (0x80 + c / 64 % 64);
        r += (char) (0x80 + c % 64);
    } else {
        r += (char) (0xF0 + c / 262144);
        r += (char) (0x80 + c / 4096 % 64);
        r += (char) (0x80 + c / 64 % 64);
        r += (char) (0x80 + c % 64);
    }
    return r;
}

// false if the string is not well-formed
static inline bool u8_dec(const std::string &s, std::vector<uint32_t> *out)
{
    size_t i = 0;
    out->clear();
    while (i < s.size()) {
        uint32_t c;
        size_t n = u8_len((const unsigned char *) s.data() + i, s.size() - i, &c);
        if (!n)
            return false;
        out->push_back(c);
        i += n;
    }
    return true;
}

static inline std::string u8_enc(const std::vector<uint32_t> &v)
{
    std::string r;
    for (uint32_t c : v)
        r += u8_enc(c);
    return r;
}
