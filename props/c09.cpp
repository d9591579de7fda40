#include "ba_common.hpp"

namespace {

void outcome(BA &b, bool ok, bool fits, bool in_range, int err, const char *op)
{
    if (!in_range) {
        REQUIRE(!ok, "%s starting beyond the end succeeded (size %zu)", op, b.m.size());
        return;
    }
    REQUIRE(ok == fits, "%s %s (size %zu, max_size %zu)", op,
            ok ? "succeeded though it does not fit" : "failed though it fits", b.m.size(), b.max);
    if (!ok)
        REQUIRE(err == ENOSPC, "%s failed with errno %d, expected ENOSPC", op, err);
}

size_t position(Src &s, const BA &b)
{
    size_t n = b.m.size();
    switch (s.below(5)) {
        case 0:
            return n;
        case 1:
            return n + 1 + s.below(3);
        case 2:
            return SIZE_MAX - s.below(4);
        default:
            return s.below(n + 1);
    }
}

void history(Src &s)
{
    BA b;
    b.max = ba_max(s);
    s.note("make_byte_array(%zu)", b.max);
    b.a = make_byte_array(b.max);
    REQUIRE(b.a, "make_byte_array returned NULL");
    int holders = 1;
    b.check("make");
    std::vector<unsigned> w;
    for (int i = 0; i < 10; i++)
        w.push_back(s.chance(3, 4) ? 1 + s.below(6) : 0);
    w[0] += 3;
    bool limit = false, grew = false, self = false, inside = false;
    while (s.more(25)) {
        size_t old = b.m.size();
        switch (s.weighted(w)) {
            case 0:
            case 1: { // append
                size_t n = ba_len(s, b);
                std::string d = ba_bytes(s, n, true);
                Guarded g(d.data(), n);
                s.note("append %zu bytes (size %zu, max_size %zu)", n, old, b.max);
                bool fits = n <= b.max - 1 - old;
                errno = 0;
                bool ok = byte_array_append(b.a, g.p, n);
                outcome(b, ok, fits, true, errno, "append");
                if (ok)
                    b.m += d;
                limit |= !fits;
                b.check("append");
                break;
            }
            case 2: { // append_string
                size_t n = ba_len(s, b);
                std::string d = ba_bytes(s, n, false);
                Guarded g(d.c_str(), n + 1);
                s.note("append_string of %zu bytes (size %zu, max_size %zu)", n, old, b.max);
                bool fits = n <= b.max - 1 - old;
                errno = 0;
                bool ok = byte_array_append_string(b.a, g.p);
                outcome(b, ok, fits, true, errno, "append_string");
                if (ok)
                    b.m += d;
                limit |= !fits;
                b.check("append_string");
                break;
            }
            case 3:
            case 4: { // copy, copy_string
                bool str = s.chance(1, 3);
                size_t pos = position(s, b), n;
                if (s.flip())
                    n = pos <= old ? s.below(old - pos + 3) : s.below(4);
                else
                    n = ba_len(s, b) + (pos <= old && s.flip() ? old - pos : 0);
                std::string d = ba_bytes(s, n, !str);
                Guarded g(d.c_str(), n + str);
                s.note("%s of %zu bytes at %zu (size %zu, max_size %zu)", str ? "copy_string" : "copy", n, pos,
                       old, b.max);
                bool in = pos <= old;
                bool fits = in && n <= b.max - 1 - pos;
                errno = 0;
                bool ok = str ? byte_array_copy_string(b.a, pos, g.p) : byte_array_copy(b.a, pos, g.p, n);
                outcome(b, ok, fits, in, errno, str ? "copy_string" : "copy");
                if (ok) {
                    if (pos + n > old)
                        b.m.resize(pos + n);
                    b.m.replace(pos, n, d);
                }
                limit |= in && !fits;
                b.check(str ? "copy_string" : "copy");
                break;
            }
            case 5: { // resize
                size_t n;
                uint8_t c = s.byte();
                switch (s.below(4)) {
                    case 0:
                        n = s.below(old + 1);
                        break;
                    case 1:
                        n = b.max < 20000 ? b.max - 1 + s.below(3) : old + ba_len(s, b);
                        break;
                    case 2:
                        n = b.max < 20000 ? SIZE_MAX - s.below(3) : s.below(3000);
                        break;
                    default:
                        n = old + ba_len(s, b);
                        break;
                }
                s.note("resize to %zu with %02x (size %zu, max_size %zu)", n, c, old, b.max);
                bool fits = n <= b.max - 1;
                errno = 0;
                bool ok = byte_array_resize(b.a, n, c);
                outcome(b, ok, fits, true, errno, "resize");
                if (ok)
                    b.m.resize(n, (char) c);
                limit |= !fits;
                b.check("resize");
                break;
            }
            case 6:
                s.note("clear");
                byte_array_clear(b.a);
                b.m.clear();
                b.check("clear");
                break;
            case 7: { // the source is the array's own content (and its final NUL)
                const char *own = (const char *) byte_array_data(b.a);
                unsigned how = s.below(4);
                bool str = how > 1 && b.m.find('\0') == std::string::npos && s.flip();
                // no doubling without end
                size_t lo = old > 20000 && how ? old - 100 : 0;
                size_t from = lo + s.below(old - lo + 1), n = str ? old - from : s.below(old - from + 2);
                size_t to = how == 0 ? s.below(old - std::min(n, old) + 1) : how == 1 ? s.below(old + 1) : old;
                bool append = how > 1 && s.flip();
                const char *op = append ? str ? "append_string of the array itself" : "append of the array itself"
                                 : str  ? "copy_string of the array itself"
                                        : "copy of the array itself";
                s.note("%s, %zu bytes from %zu to %zu (size %zu, max_size %zu)", op, n, from, to, old, b.max);
                std::string part = std::string(own, old + 1).substr(from, n);
                bool fits = n <= b.max - 1 - to;
                errno = 0;
                bool ok = append ? str ? byte_array_append_string(b.a, own + from)
                                       : byte_array_append(b.a, own + from, n)
                          : str ? byte_array_copy_string(b.a, to, own + from)
                                : byte_array_copy(b.a, to, own + from, n);
                outcome(b, ok, fits, true, errno, op);
                if (ok) {
                    if (to + n > old)
                        b.m.resize(to + n);
                    b.m.replace(to, n, part);
                    self |= n && from != to && (from < to ? to - from : from - to) < n;
                    inside |= to + n > old;
                }
                limit |= !fits;
                b.check(op);
                break;
            }
            case 8: {
                s.note("share");
                byte_array_t *x = share_byte_array(b.a);
                REQUIRE(x, "share returned NULL");
                REQUIRE(byte_array_size(x) == old && byte_array_data(x) == byte_array_data(b.a),
                        "a shared array shows other content");
                holders++;
                // use either handle from now on
                if (s.flip())
                    b.a = x;
                b.check("share");
                break;
            }
            case 9:
                if (holders > 1) {
                    s.note("destroy one of %d holders", holders);
                    destroy_byte_array(b.a);
                    holders--;
                    b.check("destroying one of several holders");
                }
                break;
        }
        if (b.m.size() > 128)
            grew = true;
    }
    if (grew)
        s.label("grew beyond the initial allocation");
    if (limit)
        s.label("operation refused for max_size");
    if (self)
        s.label("copy with overlapping source");
    if (inside)
        s.label("own content copied beyond the end");
    if (grew || limit || self)
        s.nontrivial();
    while (holders--) {
        b.check("the history");
        destroy_byte_array(b.a);
    }
}

// many holders
void shared(Src &s)
{
    static const std::vector<uint64_t> pts = {127, 128, 255, 256, 257, 32768, 65535, 65536, 65537};
    BA b;
    b.max = 300;
    b.a = make_byte_array(b.max);
    std::string d = ba_bytes(s, 1 + s.below(250), true);
    REQUIRE(byte_array_append(b.a, d.data(), d.size()), "append failed though it fits");
    b.m = d;
    size_t n = s.size_near(70000, pts);
    s.note("%zu further holders", n);
    for (size_t i = 0; i < n; i++)
        REQUIRE(byte_array_data(share_byte_array(b.a)) == byte_array_data(b.a), "a shared array differs");
    b.check("sharing");
    for (size_t i = 0; i < n; i++) {
        destroy_byte_array(b.a);
        if (i % 256 == 0 || i + 3 > n)
            b.check("destroying one of several holders");
    }
    b.check("destroying all but one holder");
    if (n > 1)
        s.nontrivial();
    destroy_byte_array(b.a);
}

ssize_t zeros_cb(void *, void *, size_t count) { return (ssize_t) count; }

// gigabytes, hardly touched
void giant(Src &s)
{
    static const std::vector<uint64_t> pts = {1ull << 31, 1ull << 32, 1ull << 33};
    Sparse sparse;
    SparseBA b;
    uint64_t start = (1ull << 31) - 200 + s.size_near((1ull << 33) - (1ull << 31) + 400, pts);
    start -= s.below(100);
    uint64_t max = s.flip() ? start + 1 + s.below(300) : SIZE_MAX - s.below(3);
    s.note("make_byte_array(%llu), filled with %llu zero bytes", (unsigned long long) max, (unsigned long long) start);
    b.a = make_byte_array(max);
    byte_array_append_stream(b.a, zeros_cb, nullptr, start); // this one is not judged here
    if (byte_array_size(b.a) != start) {
        destroy_byte_array(b.a);
        return;
    }
    b.size = start;
    for (int i = 0; i < 12; i++) {
        uint64_t old = b.size, room = max - 1 - old;
        const char *op = "append";
        std::string d = ba_bytes(s, s.below(120), false);
        uint64_t pos = old;
        bool ok, in = true;
        errno = 0;
        switch (s.below(6)) {
            case 0:
                ok = byte_array_append(b.a, d.data(), d.size());
                break;
            case 1:
                op = "append_string";
                ok = byte_array_append_string(b.a, d.c_str());
                break;
            case 2:
            case 3:
                op = s.flip() ? "copy" : "copy_string";
                switch (s.below(4)) {
                    case 0:
                        pos = old + 1 + s.below(3);
                        break;
                    case 1:
                        pos = s.below(old + 1);
                        break;
                    default:
                        pos = old - s.below(100);
                        break;
                }
                in = pos <= old;
                ok = op[4] ? byte_array_copy_string(b.a, pos, d.c_str()) : byte_array_copy(b.a, pos, d.data(), d.size());
                break;
            case 4: {
                op = "resize";
                uint64_t n = old - 60 + s.below(160);
                s.note("resize to %llu (size %llu)", (unsigned long long) n, (unsigned long long) old);
                ok = byte_array_resize(b.a, n, 'r');
                if (n <= old) {
                    REQUIRE(ok, "shrinking failed");
                    b.cut(n);
                    b.check(op);
                    continue;
                }
                d.assign(n - old, 'r');
                break;
            }
            default: {
                op = "copy of the array itself";
                uint64_t from = old - s.below(100), n = s.below(old - from + 1);
                pos = s.flip() ? old : s.below(1000);
                const char *own = (const char *) byte_array_data(b.a);
                d.assign(own + from, n);
                ok = byte_array_copy(b.a, pos, own + from, n);
                break;
            }
        }
        int err = errno;
        s.note("%s: %zu bytes at %llu (size %llu)", op, d.size(), (unsigned long long) pos, (unsigned long long) old);
        if (!in)
            REQUIRE(!ok, "%s starting beyond the end succeeded (size %llu)", op, (unsigned long long) old);
        else {
            bool fits = pos + d.size() <= old + room;
            REQUIRE(ok == fits, "%s gives %d (size %llu, max_size %llu)", op, ok, (unsigned long long) old,
                    (unsigned long long) max);
            if (!ok)
                REQUIRE(err == ENOSPC, "%s failed with errno %d, expected ENOSPC", op, err);
            else
                b.put(pos, d);
        }
        b.check(op);
    }
    s.nontrivial();
    destroy_byte_array(b.a);
}

PROPERTY(C09,
         "A case is a history of copy/append/resize/clear/share operations on a byte array whose "
         "max_size is small, near a power of two or huge, checked against a byte string after every "
         "step; non-trivial if the array grew beyond 128 bytes, the limit refused an operation or a "
         "source overlapped its destination (shared: more than 2 holders).",
         {{"history", history, F_PROD | F_ASAN | F_FUZZ | F_ALLOC, 1600000, 8000000, 6, 200000},
          {"shared", shared, F_PROD | F_ASAN | F_ALLOC, 16000, 40000, 8, 0},
          {"giant", giant, F_PROD, 800, 16000, 1, 0}});
} // namespace
