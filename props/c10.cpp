#include "ba_common.hpp"

namespace {

struct Reader {
    Src *s;
    size_t max_count;   // what the library may ask for
    int calls = 0;
    size_t count = 0;
    ssize_t result = 0;
    std::string stored; // the bytes that count
    int kind;
    uint64_t amount;
    uint64_t seed;
    bool scribble;
};

ssize_t read_cb(void *obj, void *buf, size_t count)
{
    yield_point();
    Reader *r = (Reader *) obj;
    r->calls++;
    r->count = count;
    if (count > r->max_count) {
        r->s->later(fmt("the reader was asked for %zu bytes, at most %zu expected", count, r->max_count));
        r->result = 0;
        return 0;
    }
    uint8_t *p = (uint8_t *) buf;
    Rng g(r->seed);
    size_t n = 0;
    switch (r->kind) {
        case 0: // all
            n = count;
            break;
        case 1: // some
            n = count ? 1 + r->amount % count : 0;
            break;
        case 2:
            n = 0;
            break;
        default:
            r->result = -(ssize_t) (1 + r->amount % 1000);
            break;
    }
    if (r->kind <= 2)
        r->result = (ssize_t) n;
    r->stored.clear();
    for (size_t i = 0; i < count; i++) {
        uint8_t c = (uint8_t) (1 + g.upto(254));
        if (i < n && g.p(1, 9))
            c = 0;
        if (i < n || r->scribble) // all of the buffer must be writable
            p[i] = c;
        if (i < n)
            r->stored += (char) c;
    }
    errno = EIO;
    return r->result;
}

void history(Src &s)
{
    BA b;
    b.max = ba_max(s);
    s.note("make_byte_array(%zu)", b.max);
    b.a = make_byte_array(b.max);
    b.check("make");
    bool limited = false, failed = false, partial = false;
    int streams = 0;
    while (s.more(12)) {
        size_t old = b.m.size();
        switch (s.weighted({6, 2, 1, 1})) {
            case 0: {
                size_t len = ba_len(s, b);
                if (b.max < 20000 && s.chance(1, 6))
                    len = SIZE_MAX - s.below(4);
                size_t room = b.max - 1 - old;
                Reader r;
                r.s = &s;
                r.kind = (int) s.below(4);
                r.amount = s.below(300);
                r.seed = s.upto(0xffff);
                r.scribble = s.chance(2, 3);
                r.max_count = std::min(len, room);
                s.note("append_stream of up to %zu (size %zu, max_size %zu), reader kind %d%s", len, old, b.max,
                       r.kind, r.scribble ? ", scribbling" : "");
                errno = 0;
                ssize_t res = byte_array_append_stream(b.a, read_cb, &r, len);
                int err = errno;
                s.check_pending();
                streams++;
                if (len && !room) {
                    REQUIRE(r.calls == 0, "the reader was called though there is no room");
                    REQUIRE(res < 0, "append_stream returned %zd though there is no room", res);
                    REQUIRE(err == ENOSPC, "append_stream failed with errno %d, expected ENOSPC", err);
                    limited = true;
                } else if (!len && !r.calls) {
                    REQUIRE(res == 0, "append_stream of nothing returned %zd", res);
                } else {
                    REQUIRE(r.calls == 1, "the reader was called %d times (size %zu, max_size %zu)", r.calls,
                            old, b.max);
                    REQUIRE(!len || r.count, "the reader was asked for nothing though there is room");
                    REQUIRE(res == r.result, "append_stream returned %zd, the reader %zd", res, r.result);
                    if (r.result > 0)
                        b.m += r.stored;
                    if (len > room)
                        limited = true;
                    if (r.result < 0)
                        failed = true;
                    if (r.result > 0 && (size_t) r.result < r.count)
                        partial = true;
                }
                b.check("append_stream");
                break;
            }
            case 1: {
                size_t n = ba_len(s, b);
                if (n > b.max - 1 - old)
                    n = b.max - 1 - old;
                std::string d = ba_bytes(s, n, true);
                s.note("append %zu bytes", n);
                REQUIRE(byte_array_append(b.a, d.data(), n), "append failed though it fits");
                b.m += d;
                b.check("append");
                break;
            }
            case 2: {
                size_t n = s.below(old + 1);
                s.note("resize to %zu", n);
                REQUIRE(byte_array_resize(b.a, n, 0x77), "shrinking failed");
                b.m.resize(n);
                b.check("resize");
                break;
            }
            case 3:
                s.note("clear");
                byte_array_clear(b.a);
                b.m.clear();
                b.check("clear");
                break;
        }
    }
    if (limited)
        s.label("limited or refused for max_size");
    if (failed)
        s.label("reader failed");
    if (partial)
        s.label("reader returned less than asked");
    if (streams >= 1 && (limited || failed || partial))
        s.nontrivial();
    destroy_byte_array(b.a);
}

struct Big {
    uint64_t asked = 0;
    uint64_t give;
    int calls = 0;
    std::string head;
};

ssize_t big_cb(void *obj, void *buf, size_t count)
{
    Big *r = (Big *) obj;
    r->calls++;
    r->asked = count;
    if (r->give > count)
        r->give = count;
    if (r->give >= r->head.size())
        memcpy(buf, r->head.data(), r->head.size());
    else
        r->head.clear();
    return (ssize_t) r->give; // the rest are zero bytes
}

// gigabytes, never touched
void giant(Src &s)
{
    static const std::vector<uint64_t> pts = {1ull << 31, 1ull << 32, 1ull << 33};
    Sparse sparse;
    SparseBA b;
    uint64_t max = s.flip() ? SIZE_MAX - s.below(3) : 1 + (1ull << 32) + s.size_near(1ull << 33, pts);
    s.note("make_byte_array(%llu)", (unsigned long long) max);
    b.a = make_byte_array(max);
    for (int i = 0; i < 6; i++) {
        uint64_t old = b.size, room = max - 1 - old;
        switch (s.below(4)) {
            case 0:
            case 1: {
                uint64_t len = s.size_near((1ull << 33) + 70000, pts);
                if (old + len > 1ull << 34)
                    len = 300;
                Big r;
                r.give = s.flip() ? UINT64_MAX : s.size_near(len, pts);
                r.head = ba_bytes(s, s.below(40), true);
                s.note("append_stream of up to %llu (size %llu)", (unsigned long long) len, (unsigned long long) old);
                errno = 0;
                ssize_t res = byte_array_append_stream(b.a, big_cb, &r, len);
                if (!room && len) {
                    REQUIRE(res < 0 && errno == ENOSPC && !r.calls, "append_stream returned %zd without room", res);
                    break;
                }
                if (!len && !r.calls)
                    break;
                REQUIRE(r.calls == 1, "the reader was called %d times", r.calls);
                REQUIRE(r.asked <= std::min(len, room), "the reader was asked for %llu bytes, at most %llu expected",
                        (unsigned long long) r.asked, (unsigned long long) std::min(len, room));
                REQUIRE(res == (ssize_t) r.give, "append_stream returned %zd, the reader %lld", res, (long long) r.give);
                b.put(old, r.head);
                b.size = old + r.give;
                break;
            }
            case 2: {
                std::string d = ba_bytes(s, s.below(40), true);
                s.note("append %zu bytes (size %llu)", d.size(), (unsigned long long) old);
                errno = 0;
                bool ok = byte_array_append(b.a, d.data(), d.size());
                REQUIRE(ok == (d.size() <= room), "append gives %d", ok);
                if (ok)
                    b.put(old, d);
                break;
            }
            default: {
                uint64_t pos = old - s.below(std::min<uint64_t>(old, 100) + 1);
                std::string d = ba_bytes(s, s.below(40), true);
                s.note("copy %zu bytes to %llu (size %llu)", d.size(), (unsigned long long) pos, (unsigned long long) old);
                bool ok = byte_array_copy(b.a, pos, d.data(), d.size());
                REQUIRE(ok == (d.size() <= max - 1 - pos), "copy gives %d", ok);
                if (ok)
                    b.put(pos, d);
                break;
            }
        }
        b.check("the operation");
    }
    if (b.size > 1ull << 31)
        s.nontrivial();
    if (b.size > 1ull << 32)
        s.label("beyond 4 GiB");
    destroy_byte_array(b.a);
}

PROPERTY(C10,
         "A case is a history of streaming appends with a reader that returns all, some, nothing or an "
         "error and may scribble over its whole buffer, mixed with other operations; non-trivial if some "
         "read was limited or refused by max_size, failed or returned less than asked.",
         {{"history", history, F_PROD | F_ASAN | F_FUZZ | F_ALLOC, 2400000, 12000000, 6, 120000},
          {"giant", giant, F_PROD, 400, 8000, 1, 0}});
} // namespace
