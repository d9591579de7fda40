#include "uniref.hpp"
#include "../data/unidata.inc"
#include <algorithm>
#include <map>
#include <set>
#include <string.h>
#include <unordered_map>

namespace uni {
namespace {
enum { N = 0x110000 };
enum { SB = 0xAC00, LB = 0x1100, VB = 0x1161, TB = 0x11A7, LC = 19, VC = 21, TC = 28, SC = LC * VC * TC };

struct Tables {
    std::vector<uint8_t> gc, ccc, bidi, qc, status;
    std::vector<int> idna_row;
    std::unordered_map<uint32_t, uint32_t> lower, upper;
    std::unordered_map<uint32_t, Text> decomp, full;
    std::map<std::pair<uint32_t, uint32_t>, uint32_t> comp;
    std::vector<Text> maps;
    Text decomposables, marks, seconds, firsts, odd;
    Text by_status[7];

    void expand(uint32_t c, Text *out)
    {
        auto i = decomp.find(c);
        if (i == decomp.end())
            out->push_back(c);
        else
            for (uint32_t d : i->second)
                expand(d, out);
    }
    Tables()
        : gc(N, 0), ccc(N, 0), bidi(N, 255), qc(N, 0), status(N, 0), idna_row(N, 0)
    {
        for (auto &r : t_gc)
            std::fill(gc.begin() + r[0], gc.begin() + r[1] + 1, r[2]);
        for (auto &r : t_ccc)
            std::fill(ccc.begin() + r[0], ccc.begin() + r[1] + 1, r[2]);
        for (auto &r : t_bidi)
            std::fill(bidi.begin() + r[0], bidi.begin() + r[1] + 1, r[2]);
        for (auto &r : t_qc)
            std::fill(qc.begin() + r[0], qc.begin() + r[1] + 1, r[2]);
        for (auto &r : t_lower)
            lower[r[0]] = r[1];
        for (auto &r : t_upper)
            upper[r[0]] = r[1];
        std::set<uint32_t> excl;
        for (auto &r : t_excl)
            excl.insert(r[0]);
        for (auto &r : t_decomp) {
            Text d = {r[1]};
            if (r[2])
                d.push_back(r[2]);
            decomp[r[0]] = d;
            decomposables.push_back(r[0]);
            if (d.size() == 2 && !excl.count(r[0])) {
                comp[{d[0], d[1]}] = r[0];
                seconds.push_back(d[1]);
                firsts.push_back(d[0]);
            }
        }
        std::sort(seconds.begin(), seconds.end());
        seconds.erase(std::unique(seconds.begin(), seconds.end()), seconds.end());
        std::sort(firsts.begin(), firsts.end());
        firsts.erase(std::unique(firsts.begin(), firsts.end()), firsts.end());
        for (uint32_t c : decomposables)
            expand(c, &full[c]);
        for (uint32_t c = 0; c < N; c++) {
            if (ccc[c])
                marks.push_back(c);
            if ((qc[c] & 3) && !(c >= SB && c < SB + SC))
                odd.push_back(c);
        }
        int row = 0;
        for (auto &r : t_idna) {
            std::fill(status.begin() + r[0], status.begin() + r[1] + 1, r[2]);
            std::fill(idna_row.begin() + r[0], idna_row.begin() + r[1] + 1, row++);
            maps.push_back(Text(idna_pool + r[3], idna_pool + r[3] + r[4]));
        }
        size_t total[7] = {0};
        for (uint32_t c = 0; c < N; c++)
            total[status[c]]++;
        size_t seen[7] = {0};
        for (uint32_t c = 0; c < N; c++) {
            if (c >= 0xD800 && c < 0xE000)
                continue;
            int s = status[c];
            size_t step = total[s] / 4000 + 1;
            if (seen[s]++ % step == 0)
                by_status[s].push_back(c);
        }
    }
};

const Tables &T()
{
    static const Tables t;
    return t;
}

void decompose_one(uint32_t c, Text *out)
{
    if (c >= SB && c < SB + SC) {
        uint32_t i = c - SB;
        out->push_back(LB + i / (VC * TC));
        out->push_back(VB + i % (VC * TC) / TC);
        if (i % TC)
            out->push_back(TB + i % TC);
        return;
    }
    auto i = T().full.find(c);
    if (i == T().full.end())
        out->push_back(c);
    else
        out->insert(out->end(), i->second.begin(), i->second.end());
}

// -1 if the pair does not compose
int64_t compose_pair(uint32_t a, uint32_t b)
{
    if (a >= LB && a < LB + LC && b >= VB && b < VB + VC)
        return SB + ((a - LB) * VC + (b - VB)) * TC;
    if (a >= SB && a < SB + SC && (a - SB) % TC == 0 && b > TB && b < TB + TC)
        return a + (b - TB);
    auto i = T().comp.find({a, b});
    return i == T().comp.end() ? -1 : (int64_t) i->second;
}
} // namespace

const char *gc(uint32_t c) { return gc_names[T().gc[c]]; }
int ccc(uint32_t c) { return T().ccc[c]; }
const char *bidi(uint32_t c) { return T().bidi[c] == 255 ? nullptr : bidi_names[T().bidi[c]]; }
int qc(uint32_t c) { return T().qc[c]; }
uint32_t lower(uint32_t c)
{
    auto i = T().lower.find(c);
    return i == T().lower.end() ? c : i->second;
}
uint32_t upper(uint32_t c)
{
    auto i = T().upper.find(c);
    return i == T().upper.end() ? c : i->second;
}
const Text *decomposition(uint32_t c)
{
    auto i = T().decomp.find(c);
    return i == T().decomp.end() ? nullptr : &i->second;
}
Status idna(uint32_t c) { return (Status) T().status[c]; }
const char *idna_name(Status s)
{
    static const char *const n[] = {"valid", "mapped", "ignored", "deviation", "disallowed",
                                    "disallowed_STD3_valid", "disallowed_STD3_mapped"};
    return n[s];
}
const Text &idna_mapping(uint32_t c) { return T().maps[T().idna_row[c]]; }
const Text &decomposables() { return T().decomposables; }
const Text &marks() { return T().marks; }
const Text &seconds() { return T().seconds; }
const Text &starters_of_composites() { return T().firsts; }
const Text &odd() { return T().odd; }
const Text &idna_of(Status s) { return T().by_status[s]; }

// UAX #15: full decomposition, then canonical ordering (a stable sort of
// every maximal run of non-starters)
Text nfd(const Text &t)
{
    Text o;
    for (uint32_t c : t)
        decompose_one(c, &o);
    for (size_t i = 0; i < o.size();) {
        if (!ccc(o[i])) {
            i++;
            continue;
        }
        size_t j = i;
        while (j < o.size() && ccc(o[j]))
            j++;
        std::stable_sort(o.begin() + i, o.begin() + j,
                         [](uint32_t a, uint32_t b) { return ccc(a) < ccc(b); });
        i = j;
    }
    return o;
}

// UAX #15: from the second character on, a character C composes with the
// last starter L if no character between them has a class of 0 or one not
// below that of C (definition D115, blocking)
Text nfc(const Text &t)
{
    Text d = nfd(t), o;
    std::vector<size_t> dummy;
    size_t starter = (size_t) -1;
    for (uint32_t c : d) {
        if (starter != (size_t) -1) {
            bool blocked = false;
            for (size_t k = starter + 1; k < o.size(); k++)
                if (ccc(o[k]) == 0 || ccc(o[k]) >= ccc(c))
                    blocked = true;
            int64_t p = blocked ? -1 : compose_pair(o[starter], c);
            if (p >= 0) {
                o[starter] = (uint32_t) p;
                continue;
            }
        }
        o.push_back(c);
        if (!ccc(c))
            starter = o.size() - 1;
    }
    return o;
}

std::string enc(const Text &t)
{
    std::string s;
    for (uint32_t c : t)
        s += u8_enc(c);
    return s;
}

int quick_check(const Text &t, int no_bit, int maybe_bit)
{
    int last = 0, res = 0;
    for (uint32_t c : t) {
        int k = ccc(c);
        if (last > k && k)
            return 1;
        if (qc(c) & no_bit)
            return 1;
        if (qc(c) & maybe_bit)
            res = 2;
        last = k;
    }
    return res;
}

// RFC 3492, section 6.3
std::string puny(const Text &in)
{
    uint64_t n = 128, delta = 0, bias = 72;
    std::string out;
    for (uint32_t c : in)
        if (c < 128)
            out += (char) c;
    uint64_t b = out.size(), h = b;
    if (b)
        out += '-';
    while (h < in.size()) {
        uint64_t m = UINT64_MAX;
        for (uint32_t c : in)
            if (c >= n && c < m)
                m = c;
        delta += (m - n) * (h + 1);
        n = m;
        for (uint32_t c : in) {
            if (c < n)
                delta++;
            if (c == n) {
                uint64_t q = delta;
                for (uint64_t k = 36;; k += 36) {
                    uint64_t t = k <= bias ? 1 : k >= bias + 26 ? 26 : k - bias;
                    if (q < t)
                        break;
                    uint64_t digit = t + (q - t) % (36 - t);
                    out += (char) (digit < 26 ? 'a' + digit : '0' + digit - 26);
                    q = (q - t) / (36 - t);
                }
                out += (char) (q < 26 ? 'a' + q : '0' + q - 26);
                // adapt
                uint64_t d = h == b ? delta / 700 : delta / 2;
                d += d / (h + 1);
                uint64_t k = 0;
                while (d > 455) {
                    d /= 35;
                    k += 36;
                }
                bias = k + 36 * d / (d + 38);
                delta = 0;
                h++;
            }
        }
        delta++;
        n++;
    }
    return out;
}

namespace {
bool map_all(const Text &x, Text *out)
{
    for (uint32_t c : x)
        switch (idna(c)) {
            case VALID:
            case DEVIATION:
                out->push_back(c);
                break;
            case IGNORED:
                break;
            case MAPPED: {
                const Text &m = idna_mapping(c);
                out->insert(out->end(), m.begin(), m.end());
                break;
            }
            default:
                return false;
        }
    return true;
}

struct Result {
    bool disallowed = false;    // some code point is not allowed
    bool too_long = false;
    bool strict = true;         // valid under UTS #46 (conservatively)
    std::string text;
    const char *why = "";
};

bool one_of(const char *b, std::initializer_list<const char *> l)
{
    for (const char *x : l)
        if (b && !strcmp(b, x))
            return true;
    return false;
}

// RFC 5893, section 2
bool bidi_rule(const Text &l)
{
    if (l.empty())
        return true;
    const char *b0 = bidi(l[0]);
    size_t last = l.size();
    while (last && one_of(bidi(l[last - 1]), {"NSM"}))
        last--;
    if (!last)
        return false;
    const char *e = bidi(l[last - 1]);
    bool en = false, an = false;
    if (one_of(b0, {"R", "AL"})) {
        for (uint32_t c : l) {
            const char *b = bidi(c);
            if (!one_of(b, {"R", "AL", "AN", "EN", "ES", "CS", "ET", "ON", "BN", "NSM"}))
                return false;
            en |= one_of(b, {"EN"});
            an |= one_of(b, {"AN"});
        }
        return !(en && an) && one_of(e, {"R", "AL", "EN", "AN"});
    }
    if (one_of(b0, {"L"})) {
        for (uint32_t c : l)
            if (!one_of(bidi(c), {"L", "EN", "ES", "CS", "ET", "ON", "BN", "NSM"}))
                return false;
        return one_of(e, {"L", "EN"});
    }
    return false;
}

Result finish(const Text &y)
{
    Result r;
    std::vector<Text> labels(1);
    for (uint32_t c : y)
        if (c == '.')
            labels.emplace_back();
        else
            labels.back().push_back(c);
    bool bidi_domain = false;
    for (uint32_t c : y)
        if (one_of(bidi(c), {"R", "AL", "AN"}))
            bidi_domain = true;
    for (size_t i = 0; i < labels.size(); i++) {
        const Text &l = labels[i];
        if (i)
            r.text += '.';
        bool ascii = std::all_of(l.begin(), l.end(), [](uint32_t c) { return c < 128; });
        std::string e = ascii ? std::string(l.begin(), l.end()) : "xn--" + puny(l);
        if (e.size() > 63)
            r.too_long = true;
        r.text += e;
        if (l.empty()) {
            if (i + 1 < labels.size() || i == 0)
                r.strict = false, r.why = "empty label";
            continue;
        }
        if (l[0] == '-' || l.back() == '-' || (l.size() >= 4 && l[2] == '-' && l[3] == '-'))
            r.strict = false, r.why = "hyphens";
        if (gc(l[0])[0] == 'M')
            r.strict = false, r.why = "leading mark";
        for (uint32_t c : l) {
            if (c == 0x200C || c == 0x200D)
                r.strict = false, r.why = "joiner";
            if (idna(c) != VALID && idna(c) != DEVIATION)
                r.strict = false, r.why = "not valid after normalization";
        }
        if (bidi_domain && !bidi_rule(l))
            r.strict = false, r.why = "bidi";
    }
    size_t n = r.text.size();
    if (n && r.text.back() == '.')
        n--;
    if (n > 253)
        r.too_long = true;
    return r;
}

Result formula(const Text &x)
{
    Text m;
    if (!map_all(x, &m)) {
        Result r;
        r.disallowed = true;
        r.strict = false;
        r.why = "disallowed code point";
        return r;
    }
    return finish(nfc(m));
}
} // namespace

Idna idna_encode(const Text &x)
{
    Result a = formula(x), b = formula(nfc(x));
    Idna r;
    r.why = *a.why ? a.why : b.why;
    r.has_a = !a.disallowed && !a.too_long;
    r.has_b = !b.disallowed && !b.too_long;
    r.a = a.text;
    r.b = b.text;
    if (!r.has_a && !r.has_b)
        r.verdict = Idna::MUST_REJECT;
    else if (r.has_a && r.has_b && a.text == b.text && a.strict && b.strict)
        r.verdict = Idna::MUST_ENCODE;
    else
        r.verdict = Idna::MAY;
    return r;
}
} // namespace uni
