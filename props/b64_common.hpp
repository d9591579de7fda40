#pragma once
#include "pbt.hpp"
#include <fsdyn/base64.h>
#include <algorithm>
using namespace pbt;

namespace {
// reference: RFC 4648
inline std::string b64_alphabet(char c62, char c63)
{
    std::string a;
    for (char c = 'A'; c <= 'Z'; c++)
        a += c;
    for (char c = 'a'; c <= 'z'; c++)
        a += c;
    for (char c = '0'; c <= '9'; c++)
        a += c;
    a += c62 == (char) -1 ? '+' : c62;
    a += c63 == (char) -1 ? '/' : c63;
    return a;
}

inline std::string b64_encode(const std::string &d, const std::string &alpha)
{
    std::string r;
    unsigned acc = 0, bits = 0;
    for (unsigned char c : d) {
        acc = (acc << 8 | c) & 0xffffff;
        bits += 8;
        while (bits >= 6) {
            bits -= 6;
            r += alpha[acc >> bits & 63];
        }
    }
    if (bits)
        r += alpha[acc << (6 - bits) & 63];
    while (r.size() % 4)
        r += '=';
    return r;
}

// nonalphanumeric characters for 62 and 63; -1 stands for the default
inline char b64_special(Src &s)
{
    static const char c[] = "-_+/.,:;!$&()*#@~|\\\"'?<>[]{}^`%";
    switch (s.weighted({6, 4, 1})) {
        case 0:
            return -1;
        case 1:
            return c[s.below(sizeof c - 1)];
        default:
            return (char) (0x80 + s.below(0x7f));
    }
}

inline void b64_specials(Src &s, char *c62, char *c63)
{
    *c62 = b64_special(s);
    *c63 = b64_special(s);
    std::string a = b64_alphabet(*c62, *c63);
    if (a[62] == a[63])
        *c62 = *c63 = -1;
}
} // namespace
