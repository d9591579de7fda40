#include "pbt.hpp"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <map>
#include <unordered_set>
#include <algorithm>
#include <exception>
#include <fsdyn/fsalloc.h>
#if defined(__SANITIZE_ADDRESS__)
#define PBT_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#elif __has_feature(thread_sanitizer)
#define PBT_TSAN 1
#include <malloc.h>
#endif
#endif
#ifdef PBT_ASAN
#include <sanitizer/asan_interface.h>
#define NO_ASAN __attribute__((no_sanitize("address")))
#else
#define NO_ASAN
#endif

namespace pbt {

std::string vfmt(const char *f, va_list ap)
{
    va_list c;
    va_copy(c, ap);
    int n = vsnprintf(nullptr, 0, f, c);
    va_end(c);
    std::string r(n, 0);
    vsnprintf(&r[0], n + 1, f, ap);
    return r;
}

std::string fmt(const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    std::string r = vfmt(f, ap);
    va_end(ap);
    return r;
}

std::string show(const void *p, size_t n)
{
    std::string r = "\"";
    const uint8_t *q = (const uint8_t *) p;
    size_t lim = n > 400 ? 400 : n;
    for (size_t i = 0; i < lim; i++) {
        if (q[i] == '"' || q[i] == '\\')
            r += '\\', r += (char) q[i];
        else if (q[i] >= 32 && q[i] < 127)
            r += (char) q[i];
        else
            r += fmt("\\x%02x", q[i]);
    }
    r += '"';
    if (lim < n)
        r += fmt("...(%zu bytes)", n);
    return r;
}

std::string show(const char *s) { return s ? show(s, strlen(s)) : "NULL"; }

void fail(const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    std::string r = vfmt(f, ap);
    va_end(ap);
    throw Failure{r};
}

std::vector<const Property *> &registry()
{
    static std::vector<const Property *> r;
    return r;
}

void (*tick)();
bool shared_process, readonly_inputs;
Parts *parts;
std::vector<std::pair<void *, size_t>> &case_states()
{
    static std::vector<std::pair<void *, size_t>> v;
    return v;
}
void case_state(void *p, size_t n) { case_states().emplace_back(p, n); }
static std::map<std::string, uint64_t> labels;
static thread_local std::vector<const char *> case_labels;

void Src::label(const char *name)
{
    for (const char *l : case_labels)
        if (l == name)
            return;
    case_labels.push_back(name);
}

void Src::note(const char *f, ...)
{
    if (!tracing)
        return;
    va_list ap;
    va_start(ap, f);
    std::string r = vfmt(f, ap);
    va_end(ap);
    if (outer) {
        outer->note("%s%s", tag, r.c_str());
        return;
    }
    if (trace.size() < 60000) {
        trace += r;
        trace += '\n';
        r += '\n';
        if (trace_fd >= 0 && write(trace_fd, r.data(), r.size()) < 0)
            trace_fd = -1;
    }
    if (getenv("PBT_TRACE"))
        fprintf(stderr, "  %s\n", r.c_str());
}

bool Src::given(uint64_t max, uint64_t *v)
{
    if (mode == REPLAY) {
        if (pos >= replay->size())
            return false;
        uint64_t x = (*replay)[pos++];
        *v = x > max ? max : x;
        return true;
    }
    if (mode == BYTES) {
        unsigned w = max < 0x100 ? 1 : max < 0x10000 ? 2 : max <= 0xffffffffu ? 4 : 8;
        if ((size_t) (bytes_end - bytes) < w) {
            bytes = bytes_end;
            return false;
        }
        uint64_t x = 0;
        for (unsigned i = 0; i < w; i++)
            x |= (uint64_t) bytes[i] << 8 * i;
        bytes += w;
        *v = max == UINT64_MAX ? x : x % (max + 1);
        return true;
    }
    // ENUM: the first choice is the case index, the rest is random
    if (mode == ENUM && rec->n == 0) {
        *v = enum_index > max ? max : enum_index;
        return true;
    }
    *v = rng.upto(max);
    return true;
}

uint64_t Src::upto(uint64_t max)
{
    if (max == 0)
        return 0;
    return shaped(max, [max](Rng &r) { return r.upto(max); });
}

bool Src::chance(unsigned num, unsigned den)
{
    if (exhausted())
        return false;
    uint64_t v;
    if (outer) {
        yield_point();
        v = outer->chance(num, den);
    } else if (mode == RANDOM || (mode == ENUM && rec->n))
        v = rng.p(num, den);
    else if (mode == BYTES) {
        if (bytes == bytes_end)
            v = 0;
        else {
            unsigned thr = 256 - (unsigned) ((uint64_t) num * 256 / den);
            if (thr == 0)
                thr = 1;
            v = *bytes++ >= thr;
        }
    } else if (!given(1, &v))
        v = 0;
    put(v, 1);
    return v;
}

uint64_t Src::size(uint64_t max)
{
    if (max == 0)
        return 0;
    return shaped(max, [max](Rng &r) -> uint64_t {
        unsigned bits = 64 - __builtin_clzll(max);
        unsigned e = (unsigned) r.upto(bits);
        if (e == 0)
            return 0;
        uint64_t lo = 1ull << (e - 1);
        uint64_t v = r.p(1, 4) ? lo - 1 + r.upto(2) : lo + r.upto(lo - 1);
        return v > max ? r.upto(max) : v;
    });
}

uint64_t Src::size_near(uint64_t max, const std::vector<uint64_t> &points)
{
    if (max == 0)
        return 0;
    return shaped(max, [&](Rng &r) -> uint64_t {
        if (!points.empty() && r.p(2, 5)) {
            uint64_t c = points[r.upto(points.size() - 1)];
            int64_t d = (int64_t) r.upto(6) - 3;
            if (d < 0 && c < (uint64_t) -d)
                return 0;
            return c + d;
        }
        unsigned bits = 64 - __builtin_clzll(max);
        unsigned e = (unsigned) r.upto(bits);
        if (e == 0)
            return 0;
        uint64_t lo = 1ull << (e - 1);
        uint64_t v = r.p(1, 4) ? lo - 1 + r.upto(2) : lo + r.upto(lo - 1);
        return v > max ? r.upto(max) : v;
    });
}

uint64_t Src::u64()
{
    return shaped(UINT64_MAX, [](Rng &r) -> uint64_t {
        switch (r.upto(4)) {
            case 0:
                return r.upto(20);
            case 1:
                return (1ull << r.upto(63)) + r.upto(4) - 2;
            case 2:
                return -r.upto(20);
            case 3:
                return r.next() >> r.upto(63);
            default:
                return r.next();
        }
    });
}

size_t Src::weighted(const std::vector<unsigned> &w)
{
    return shaped(w.size() - 1, [&](Rng &r) -> uint64_t {
        uint64_t total = 0;
        for (unsigned x : w)
            total += x;
        if (!total)
            return 0;
        uint64_t t = r.upto(total - 1);
        for (size_t i = 0; i < w.size(); i++) {
            if (t < w[i])
                return i;
            t -= w[i];
        }
        return 0;
    });
}

// ------------------------------------------------------------ reallocator

namespace talloc {
size_t live;
long skew;
uint64_t calls;
struct Head {
    uint64_t magic;
    size_t size;
    Head *prev, *next;
    uint64_t pad[4];
};
static const uint64_t MAGIC = 0x5afeb10c5afeb10cull;
static const uint64_t DEAD = 0xdeadb10cdeadb10cull;
enum { TAIL = 16 };
static Head *first;
static uint8_t dirt = 0x5b;
static std::string *bad;        // first violation seen

static void complain(const char *what)
{
    if (!bad)
        bad = new std::string(what);
}

static void poison(Head *h)
{
#ifdef PBT_ASAN
    __asan_poison_memory_region((char *) (h + 1) + h->size, TAIL);
    __asan_poison_memory_region(h, sizeof *h);
#else
    (void) h;
#endif
}

static void unpoison(Head *h, size_t size)
{
#ifdef PBT_ASAN
    __asan_unpoison_memory_region(h, sizeof *h + size + TAIL);
#else
    (void) h;
    (void) size;
#endif
}

NO_ASAN static size_t peek_size(Head *h) { return h->size; }
NO_ASAN static uint64_t peek_magic(Head *h) { return h->magic; }

static bool tail_ok(Head *h)
{
    const uint8_t *t = (const uint8_t *) (h + 1) + h->size;
    for (int i = 0; i < TAIL; i++)
        if (t[i] != (uint8_t) (0xC3 + i))
            return false;
    return true;
}

NO_ASAN static void link_in(Head *h)
{
    h->prev = nullptr;
    h->next = first;
    if (first)
        first->prev = h;
    first = h;
}

NO_ASAN static void link_out(Head *h)
{
    if (h->prev)
        h->prev->next = h->next;
    else
        first = h->next;
    if (h->next)
        h->next->prev = h->prev;
}

static void *fresh(size_t n)
{
    if (n > (size_t) 1 << 34) {
        complain("reallocator asked for an absurd size");
        return nullptr;
    }
    Head *h = (Head *) malloc(sizeof(Head) + n + TAIL);
    if (!h)
        abort();
    h->magic = MAGIC;
    h->size = n;
    link_in(h);
    uint8_t *p = (uint8_t *) (h + 1);
    dirt = dirt * 5 + 0x35;
    memset(p, dirt | 1, n);
    for (int i = 0; i < TAIL; i++)
        p[n + i] = (uint8_t) (0xC3 + i);
    poison(h);
    live++;
    return p;
}

static void drop(Head *h)
{
    size_t n = peek_size(h);
    unpoison(h, n);
    if (!tail_ok(h))
        complain("write past the end of an allocated block");
    link_out(h);
    h->magic = DEAD;
    memset(h + 1, 0xDD, n);
    free(h);
    live--;
}

#ifdef PBT_TSAN
// no bookkeeping, which would order the threads
bool owns(const void *p) { return p; }
size_t block_size(const void *p) { return malloc_usable_size((void *) p); }
void *hook(void *p, size_t n)
{
    if (n)
        return realloc(p, n);
    free(p);
    return nullptr;
}
void check_all() {}
void reset() { fs_set_reallocator(hook); }
#else
bool owns(const void *p)
{
    return p && peek_magic((Head *) p - 1) == MAGIC;
}

size_t block_size(const void *p) { return peek_size((Head *) p - 1); }

void *hook(void *p, size_t n)
{
    yield_point();
    calls++;
    if (!p)
        return fresh(n);
    Head *h = (Head *) p - 1;
    uint64_t m = ((uintptr_t) p & 15) ? 0 : peek_magic(h);
    if (m != MAGIC) {
        complain(m == DEAD ? "block released twice (or used after release)"
                           : "pointer not from this reallocator passed to it");
        // what follows would be undefined; stop here in a defined way
        throw Failure{*bad};
    }
    if (n == 0) {
        drop(h);
        return nullptr;
    }
    size_t old = peek_size(h);
    void *q = fresh(n);
    if (!q)
        return nullptr;
    memcpy(q, p, old < n ? old : n);
    drop(h);
    return q;
}

NO_ASAN static Head *next_of(Head *h) { return h->next; }

void check_all()
{
    for (Head *h = first; h; h = next_of(h)) {
        size_t n = peek_size(h);
        unpoison(h, n);
        if (!tail_ok(h))
            complain("write past the end of an allocated block");
        poison(h);
    }
    if (bad) {
        std::string m = *bad;
        throw Failure{m};
    }
}

static void counter(int n) { skew += n; }

void reset()
{
    fs_set_reallocator(hook);
    fs_set_reallocator_counter(counter);
    if (bad) {
        delete bad;
        bad = nullptr;
    }
}
#endif
} // namespace talloc

// ------------------------------------------------------------ guarded memory
#if defined(PBT_ASAN) || defined(PBT_TSAN)
#define PBT_HEAP 1
#endif


#ifndef PBT_HEAP
void Guarded::protect(int prot)
{
    char *from = (char *) ((uintptr_t) p & ~(uintptr_t) 4095);
    char *to = (char *) (((uintptr_t) p + n + 4095) & ~(uintptr_t) 4095);
    if (from < to)
        mprotect(from, to - from, prot);
    readonly = prot == PROT_READ;
}
enum { ARENA = 1 << 16, NARENA = 24 };
static char *arenas[NARENA];
static int free_arena[NARENA], n_free = -1;

static char *map_guard(size_t len)
{
    size_t pg = 4096;
    len = (len + pg - 1) / pg * pg;
    char *b = (char *) mmap(nullptr, len + pg, PROT_READ | PROT_WRITE,
                            MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (b == MAP_FAILED)
        abort();
    mprotect(b + len, pg, PROT_NONE);
    return b;
}
#endif

void Guarded::init(size_t sz)
{
    n = sz;
#ifdef PBT_HEAP
    base = (char *) malloc(n ? n : 1);
    maplen = 0;
    p = n ? base : base + 1;
#else
    if (n_free < 0) {
        n_free = 0;
        for (int i = 0; i < NARENA; i++) {
            arenas[i] = map_guard(ARENA);
            free_arena[n_free++] = i;
        }
    }
    if (n + 64 <= ARENA && n_free > 0) {
        base = arenas[free_arena[--n_free]];
        maplen = 0;
        p = base + ARENA - n;
    } else {
        size_t len = (n + 64 + 4095) / 4096 * 4096;
        base = map_guard(len);
        maplen = len + 4096;
        p = base + len - n;
    }
    memset(p - 64, 0x6D, 64);
#endif
}

Guarded::Guarded(size_t sz, int fill)
{
    init(sz);
    memset(p, fill, n);
}

Guarded::Guarded(const void *data, size_t sz)
{
    init(sz);
    if (sz)
        memcpy(p, data, sz);
#ifndef PBT_HEAP
    if (readonly_inputs)
        protect(PROT_READ);
#endif
}

Guarded &Guarded::writable()
{
#ifndef PBT_HEAP
    if (readonly)
        protect(PROT_READ | PROT_WRITE);
#endif
    return *this;
}

void Guarded::check_before() const
{
#ifndef PBT_HEAP
    for (int i = 1; i <= 64; i++)
        if ((uint8_t) p[-i] != 0x6D)
            fail("byte %d before the buffer was overwritten", i);
#endif
}

Guarded::~Guarded()
{
#ifdef PBT_HEAP
    free(base);
#else
    if (readonly)
        protect(PROT_READ | PROT_WRITE);
    if (maplen)
        munmap(base, maplen);
    else
        for (int i = 0; i < NARENA; i++)
            if (arenas[i] == base)
                free_arena[n_free++] = i;
#endif
}

// ------------------------------------------------------------ running cases

static const char *flavour =
#ifdef PBT_ASAN
    "asan";
#elif defined(PBT_TSAN)
    "tsan";
#else
    "prod";
#endif

static void arm(int seconds)
{
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &it, nullptr);
}

// run one case; throws Failure
static void run_one(const Stage &st, Src &s)
{
    case_labels.clear();
    talloc::reset();
    size_t live0 = talloc::live;
    long skew0 = talloc::skew;
    errno = 0;
    st.fn(s);
    s.check_pending();
    talloc::check_all();
    if (st.flags & F_LEAK) {
        long bal = (long) talloc::live - (long) live0 + talloc::skew - skew0;
        if (bal)
            fail("%ld block(s) still allocated after everything was released", bal);
    }
}

// For the allocation check: run a stage of another property; semantic
// failures are not ours.  True if the case ran to its end.
bool run_guarded_stage(const Stage &st, Src &s)
{
    try {
        st.fn(s);
        return s.pending.empty();
    } catch (const Failure &) {
        s.pending.clear();
        return false;
    }
}

static Record *new_record()
{
    Record *r = (Record *) mmap(nullptr, sizeof(Record), PROT_READ | PROT_WRITE,
                                MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (r == MAP_FAILED)
        abort();
    return r;
}

static uint64_t mix(uint64_t a, uint64_t b)
{
    Rng r(a ^ (b * 0xd1342543de82ef95ull));
    r.next();
    return r.next() ^ b;
}

static uint64_t str_hash(const char *s)
{
    uint64_t h = 1469598103934665603ull;
    for (; *s; s++)
        h = (h ^ (uint8_t) *s) * 1099511628211ull;
    return h;
}

static std::string json_str(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\')
            r += '\\', r += (char) c;
        else if (c == '\n')
            r += "\\n";
        else if (c < 32 || c >= 127)
            r += fmt("\\u%04x", c);
        else
            r += (char) c;
    }
    return r + "\"";
}

static void write_file(const char *path, const std::string &s)
{
    FILE *f = fopen(path, "w");
    if (!f)
        abort();
    fwrite(s.data(), 1, s.size(), f);
    fclose(f);
}

static const Stage *find_stage(const char *prop, const char *stage)
{
    for (const Property *p : registry())
        if (!strcmp(p->id, prop))
            for (const Stage &st : p->stages)
                if (!strcmp(st.name, stage))
                    return &st;
    fprintf(stderr, "no stage %s/%s\n", prop, stage);
    exit(2);
}

struct Stats {
    uint64_t evaluations = 0, nontrivial = 0;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
};

static void dump_stats(const Stats &t, const char *path)
{
    std::string o = fmt("{\"evaluations\": %llu, \"nontrivial\": %llu, \"labels\": {",
                        (unsigned long long) t.evaluations,
                        (unsigned long long) t.nontrivial);
    bool c = false;
    for (auto &kv : labels) {
        o += fmt("%s%s: %llu", c ? ", " : "", json_str(kv.first).c_str(),
                 (unsigned long long) kv.second);
        c = true;
    }
    o += "}, \"samples\": [";
    c = false;
    for (auto &s : t.samples) {
        o += (c ? ", " : "") + json_str(s);
        c = true;
    }
    o += "]}\n";
    write_file(path, o);
    std::string h = std::string(path) + ".hashes";
    FILE *f = fopen(h.c_str(), "wb");
    for (uint64_t x : t.distinct)
        fwrite(&x, 8, 1, f);
    fclose(f);
}

static void account(Stats &t, Src &s)
{
    t.evaluations++;
    for (const char *l : case_labels)
        labels[l]++;
    if (s.is_nontrivial) {
        t.nontrivial++;
        if (t.distinct.size() < 4000000)
            t.distinct.insert(s.hash);
    }
}

static void copy_msg(Record *r, const std::string &m)
{
    snprintf(r->msg, sizeof r->msg, "%s", m.c_str());
    r->state = 2;
}

static void on_prof(int) { _exit(98); }
static void on_terminate() { _exit(96); }

enum { CASE_CPU = 30, SLOW_CPU = 150 };
static int case_cpu(const Stage &st) { return st.flags & F_SLOW ? SLOW_CPU : CASE_CPU; }

// exit codes of a child: 0 ok, 97 failure noted in the record, 98 CPU time of
// a case used up, anything else a crash
static int child_batch(const char *prop, const Stage &st, Record *rec,
                       uint64_t seed, uint64_t start, uint64_t count,
                       uint64_t stride, double wall, const char *out)
{
    Stats t;
    signal(SIGPROF, on_prof);
    struct timespec t0;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    uint64_t base = mix(mix(seed, str_hash(prop)), str_hash(st.name));
    for (uint64_t k = 0; k < count; k++) {
        uint64_t i = start + k * stride;
        rec->index = i;
        Src s(st.flags & F_ENUM ? Src::ENUM : Src::RANDOM, rec);
        s.rng = Rng(mix(base, i));
        s.enum_index = i;
        s.tracing = t.samples.size() < 2 && k < 400;
        rec->state = 1;
        arm(case_cpu(st));
        try {
            run_one(st, s);
        } catch (const Failure &f) {
            copy_msg(rec, f.msg);
            return 97;
        } catch (const std::exception &e) {
            copy_msg(rec, std::string("unexpected exception: ") + e.what());
            return 97;
        }
        arm(0);
        rec->state = 0;
        account(t, s);
        if (s.tracing && s.is_nontrivial && s.trace.size() < 1500 && !s.trace.empty())
            t.samples.push_back(fmt("[%s #%llu] ", st.name, (unsigned long long) i) + s.trace);
        if (wall > 0 && (k & 15) == 0) {
            struct timespec now;
            clock_gettime(CLOCK_MONOTONIC, &now);
            if (now.tv_sec - t0.tv_sec > wall)
                break;
        }
    }
    dump_stats(t, out);
    return 0;
}

static std::string choices_json(const uint64_t *v, size_t n)
{
    std::string o = "[";
    for (size_t i = 0; i < n; i++)
        o += fmt("%s%llu", i ? "," : "", (unsigned long long) v[i]);
    return o + "]";
}

struct Outcome {
    bool failed = false;
    std::string msg;
    std::string trace;
};

static std::string describe(int status, Record *rec)
{
    if (WIFEXITED(status)) {
        switch (WEXITSTATUS(status)) {
            case 97:
                return rec->msg;
            case 98:
                return "does not terminate (time limit of the case used up)";
            case 77:
                if (!strcmp(flavour, "tsan"))
                    return "data race reported by ThreadSanitizer";
                return "memory error reported by AddressSanitizer/UBSan";
            case 96:
                return "terminated by an exception in C code";
            default:
                return fmt("process exited with status %d inside the case", WEXITSTATUS(status));
        }
    }
    return fmt("crashed with signal %d (%s)", WTERMSIG(status), strsignal(WTERMSIG(status)));
}

static void need_parts(const Stage &st)
{
    if (!(st.flags & F_PARTS))
        return;
    parts = (Parts *) mmap(nullptr, sizeof(Parts), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int i = 0; i < Parts::MAX; i++)
        parts->rec[i] = new_record();
}

// For stages made of other stages' cases: does one of them fail by itself, in
// a new process?  Then the failure is not one of their combination.
static bool fails_alone(const Stage &st)
{
    if (!(st.flags & F_PARTS))
        return false;
    for (uint32_t i = 0; i < parts->n && i < Parts::MAX; i++) {
        char name[] = "/tmp/pbt-solo-XXXXXX";
        int fd = mkstemp(name);
        if (fd < 0)
            continue;
        std::string t;
        Record *r = parts->rec[i];
        for (uint32_t k = 0; k < r->n && k < Record::MAXC; k++)
            t += fmt("%llu\n", (unsigned long long) r->value[k]);
        bool wrote = write(fd, t.data(), t.size()) == (ssize_t) t.size();
        close(fd);
        pid_t pid = fork();
        if (pid == 0) {
            int null = open("/dev/null", O_WRONLY);
            dup2(null, 1);
            dup2(null, 2);
            execl("/proc/self/exe", "solo", "replay", parts->who[i][0], parts->who[i][1], name, (char *) nullptr);
            _exit(0);
        }
        int status;
        waitpid(pid, &status, 0);
        unlink(name);
        if (wrote && !(WIFEXITED(status) && WEXITSTATUS(status) == 0))
            return true;
    }
    return false;
}

// run the given choices in a forked child
static Outcome try_choices(const Stage &st, Record *rec,
                           const std::vector<uint64_t> &ch, int cpu, bool loud,
                           const char *tracefile)
{
    fflush(stdout);
    fflush(stderr);
    rec->n = 0;
    rec->state = 1;
    pid_t pid = fork();
    if (pid == 0) {
        if (!loud) {
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 2);
        }
        signal(SIGPROF, on_prof);
        std::set_terminate(on_terminate);
        Src s(Src::REPLAY, rec);
        s.replay = &ch;
        s.tracing = tracefile != nullptr;
        if (tracefile)
            s.trace_fd = open(tracefile, O_WRONLY | O_CREAT | O_TRUNC, 0666);
        arm(cpu);
        int rc = 0;
        std::string msg;
        try {
            run_one(st, s);
        } catch (const Failure &f) {
            copy_msg(rec, f.msg);
            rc = 97;
        } catch (const std::exception &e) {
            copy_msg(rec, std::string("unexpected exception: ") + e.what());
            rc = 97;
        }
        _exit(rc);
    }
    int status;
    waitpid(pid, &status, 0);
    Outcome o;
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
        return o;
    if (fails_alone(st))
        return o;
    o.failed = true;
    o.msg = describe(status, rec);
    return o;
}

static std::vector<uint64_t> read_choices(const char *path)
{
    std::vector<uint64_t> v;
    FILE *f = fopen(path, "r");
    if (!f) {
        perror(path);
        exit(2);
    }
    unsigned long long x;
    while (fscanf(f, "%llu", &x) == 1)
        v.push_back(x);
    fclose(f);
    return v;
}

static double now_s()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec / 1e9;
}

struct Shrinker {
    const Stage &st;
    Record *rec;
    std::vector<uint64_t> best;
    std::string msg;
    double deadline;
    int tries = 0;
    int cpu = CASE_CPU;
    bool out_of_time() { return now_s() > deadline || tries > 6000; }
    static bool smaller(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b)
    {
        if (a.size() != b.size())
            return a.size() < b.size();
        return a < b;
    }
    bool attempt(std::vector<uint64_t> c)
    {
        if (out_of_time() || !smaller(c, best))
            return false;
        tries++;
        Outcome o = try_choices(st, rec, c, cpu, false, nullptr);
        if (!o.failed)
            return false;
        // what the case really consumed (after clamping)
        std::vector<uint64_t> used(rec->value, rec->value + rec->n);
        while (!used.empty() && used.back() == 0)
            used.pop_back();
        while (!c.empty() && c.back() == 0)
            c.pop_back();
        best = smaller(used, c) ? used : c;
        msg = o.msg;
        return true;
    }
    void run()
    {
        for (bool progress = true; progress && !out_of_time();) {
            progress = false;
            // cut the tail
            for (size_t k = best.size() / 2; k >= 1; k /= 2)
                while (best.size() > k) {
                    std::vector<uint64_t> c(best.begin(), best.end() - k);
                    if (!attempt(c))
                        break;
                    progress = true;
                }
            // delete chunks
            for (size_t k : {256, 128, 64, 32, 16, 8, 7, 6, 5, 4, 3, 2, 1}) {
                if (k > best.size())
                    continue;
                for (size_t i = best.size() - k + 1; i-- > 0;) {
                    if (i + k > best.size())
                        continue;
                    std::vector<uint64_t> c(best);
                    c.erase(c.begin() + i, c.begin() + i + k);
                    if (attempt(c)) {
                        progress = true;
                        continue;
                    }
                    // a length prefix before the chunk may have to go down
                    if (k <= 8 && i > 0)
                        for (size_t j = i; j-- > 0 && i - j < 12;)
                            if (best.size() > j && best[j] > 0) {
                                std::vector<uint64_t> d(c);
                                if (j < d.size()) {
                                    d[j] -= d[j] >= k ? k : 1;
                                    if (attempt(d)) {
                                        progress = true;
                                        break;
                                    }
                                }
                            }
                    if (k > 8)
                        i = i > k ? i - k + 1 : 0;
                    if (i == 0 && k > 8)
                        break;
                    if (out_of_time())
                        return;
                }
            }
            // minimise values
            for (size_t i = 0; i < best.size(); i++) {
                if (best[i] == 0)
                    continue;
                std::vector<uint64_t> c(best);
                c[i] = 0;
                if (attempt(c)) {
                    progress = true;
                    continue;
                }
                uint64_t lo = 0, hi = best[i]; // lo passes, hi fails
                while (hi - lo > 1 && !out_of_time()) {
                    uint64_t mid = lo + (hi - lo) / 2;
                    c = best;
                    if (i >= c.size())
                        break;
                    c[i] = mid;
                    if (attempt(c)) {
                        progress = true;
                        if (i >= best.size())
                            break;
                        hi = best[i] < mid ? best[i] : mid;
                    } else
                        lo = mid;
                }
                if (out_of_time())
                    return;
            }
        }
    }
};

static int usage()
{
    fprintf(stderr, "usage: list | run PROP STAGE SEED START COUNT STRIDE WALL OUT |"
                    " replay PROP STAGE CHOICES [TRACE] | shrink PROP STAGE CHOICES OUT SECONDS |"
                    " corpus PROP STAGE SEED COUNT DIR | bytes PROP STAGE FILE OUT | merge FILES...\n");
    return 2;
}

static int cmd_list()
{
    printf("[");
    bool c0 = false;
    for (const Property *p : registry()) {
        printf("%s{\"id\": \"%s\", \"rule\": %s, \"stages\": [", c0 ? ",\n" : "", p->id,
               json_str(p->rule).c_str());
        c0 = true;
        bool c = false;
        for (const Stage &st : p->stages) {
            printf("%s{\"name\": \"%s\", \"prod\": %d, \"asan\": %d, \"fuzz\": %d, \"enum\": %d, \"tsan\": %d, "
                   "\"quick\": %llu, \"thorough\": %llu, \"asan_div\": %u, \"fuzz_runs\": %llu}",
                   c ? ", " : "", st.name, !!(st.flags & F_PROD), !!(st.flags & F_ASAN),
                   !!(st.flags & F_FUZZ), !!(st.flags & F_ENUM), !!(st.flags & F_TSAN),
                   (unsigned long long) st.quick, (unsigned long long) st.thorough,
                   st.asan_div, (unsigned long long) st.fuzz_runs);
            c = true;
        }
        printf("]}");
    }
    printf("]\n");
    return 0;
}

int pbt_main(int argc, char **argv)
{
    if (argc < 2)
        return usage();
    std::string cmd = argv[1];
    if (cmd == "list")
        return cmd_list();
    if (cmd == "merge") {
        std::vector<uint64_t> v;
        for (int i = 2; i < argc; i++) {
            FILE *f = fopen(argv[i], "rb");
            if (!f)
                continue;
            uint64_t buf[4096];
            size_t n;
            while ((n = fread(buf, 8, 4096, f)) > 0)
                v.insert(v.end(), buf, buf + n);
            fclose(f);
        }
        std::sort(v.begin(), v.end());
        v.erase(std::unique(v.begin(), v.end()), v.end());
        printf("%zu\n", v.size());
        return 0;
    }
    if (argc < 5)
        return usage();
    const char *prop = argv[2];
    const Stage &st = *find_stage(prop, argv[3]);
    Record *rec = new_record();
    need_parts(st);
    if (cmd == "run") {
        if (argc < 10)
            return usage();
        uint64_t seed = strtoull(argv[4], 0, 10), start = strtoull(argv[5], 0, 10),
                 count = strtoull(argv[6], 0, 10), stride = strtoull(argv[7], 0, 10);
        double wall = atof(argv[8]);
        const char *out = argv[9];
        int status;
        for (int attempt = 0;; attempt++) {
            pid_t pid = fork();
            if (pid == 0) {
                std::set_terminate(on_terminate);
                _exit(child_batch(prop, st, rec, seed, start, count, stride, wall, out));
            }
            waitpid(pid, &status, 0);
            if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
                return 0;
            if (rec->state == 0 || !fails_alone(st))
                break;
            // another property's business; go on behind that case
            uint64_t done = (rec->index - start) / stride + 1;
            start += done * stride;
            count -= done;
            if (attempt == 20 || count == 0) {
                dump_stats(Stats(), out);
                return 0;
            }
        }
        if (rec->state == 0) {
            fprintf(stderr, "worker died outside a case: %s\n", describe(status, rec).c_str());
            return 2;
        }
        write_file(out, fmt("{\"failed\": true, \"index\": %llu, \"flavour\": \"%s\", \"msg\": %s, \"choices\": ",
                            (unsigned long long) rec->index, flavour,
                            json_str(describe(status, rec)).c_str()) +
                            choices_json(rec->value, rec->n) + "}\n");
        return 1;
    }
    if (cmd == "replay") {
        std::vector<uint64_t> ch = read_choices(argv[4]);
        Outcome o = try_choices(st, rec, ch, case_cpu(st) * 2, true, argc > 5 ? argv[5] : nullptr);
        if (!o.failed) {
            printf("passed\n");
            return 0;
        }
        printf("%s\n", o.msg.c_str());
        return 1;
    }
    if (cmd == "shrink") {
        Shrinker sh{st, rec, read_choices(argv[4]), "", now_s() + atof(argv[6])};
        Outcome o = try_choices(st, rec, sh.best, case_cpu(st), false, nullptr);
        if (!o.failed) {
            printf("not reproduced\n");
            return 3;
        }
        sh.msg = o.msg;
        sh.cpu = case_cpu(st);
        if (o.msg.compare(0, 8, "does not") == 0 && !(st.flags & F_SLOW))
            sh.cpu = 5;
        std::vector<uint64_t> used(rec->value, rec->value + rec->n);
        if (Shrinker::smaller(used, sh.best))
            sh.best = used;
        sh.run();
        std::string t;
        for (uint64_t x : sh.best)
            t += fmt("%llu\n", (unsigned long long) x);
        write_file(argv[5], t);
        printf("%s\n", sh.msg.c_str());
        return 0;
    }
    if (cmd == "corpus") { // corpus PROP STAGE SEED COUNT DIR
        uint64_t seed = strtoull(argv[4], 0, 10), count = strtoull(argv[5], 0, 10);
        uint64_t base = mix(mix(seed, str_hash(prop)), str_hash(st.name));
        for (uint64_t i = 0; i < count; i++) {
            Src s(Src::RANDOM, rec);
            s.rng = Rng(mix(base, i));
            pid_t pid = fork(); // a failing case must not stop us
            if (pid == 0) {
                signal(SIGPROF, on_prof);
                arm(5);
                try {
                    run_one(st, s);
                } catch (...) {
                }
                _exit(0);
            }
            int status;
            waitpid(pid, &status, 0);
            std::string b;
            for (uint32_t k = 0; k < rec->n; k++) {
                uint64_t max = rec->max[k], v = rec->value[k];
                if (max == 1) // chance(): any byte over the threshold is true
                    v = v ? 0xff : 0;
                unsigned w = max < 0x100 ? 1 : max < 0x10000 ? 2 : max <= 0xffffffffu ? 4 : 8;
                for (unsigned j = 0; j < w; j++)
                    b += (char) (v >> 8 * j);
            }
            if (b.size() <= 4096)
                write_file(fmt("%s/s%llu", argv[6], (unsigned long long) i).c_str(), b);
        }
        return 0;
    }
    if (cmd == "bytes") { // bytes PROP STAGE FILE OUT: decode fuzzer bytes to choices
        std::string b;
        FILE *f = fopen(argv[4], "rb");
        if (!f)
            return 2;
        char buf[65536];
        size_t n;
        while ((n = fread(buf, 1, sizeof buf, f)) > 0)
            b.append(buf, n);
        fclose(f);
        pid_t pid = fork();
        if (pid == 0) {
            signal(SIGPROF, on_prof);
            arm(case_cpu(st));
            Src s(Src::BYTES, rec);
            s.bytes = (const uint8_t *) b.data();
            s.bytes_end = s.bytes + b.size();
            try {
                run_one(st, s);
            } catch (...) {
                _exit(97);
            }
            _exit(0);
        }
        int status;
        waitpid(pid, &status, 0);
        std::string t;
        for (uint32_t k = 0; k < rec->n; k++)
            t += fmt("%llu\n", (unsigned long long) rec->value[k]);
        write_file(argv[5], t);
        return 0;
    }
    return usage();
}

// ------------------------------------------------------------ fuzz target

#ifdef PBT_FUZZ
static Stats *fuzz_stats;
static const Stage *fuzz_stage;
static Record *fuzz_rec;

static void fuzz_exit()
{
    const char *o = getenv("PBT_STATS");
    if (o)
        dump_stats(*fuzz_stats, o);
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
    if (!fuzz_stage) {
        fuzz_stage = find_stage(getenv("PBT_PROP"), getenv("PBT_STAGE"));
        fuzz_stats = new Stats;
        fuzz_rec = new_record();
        atexit(fuzz_exit);
    }
    Src s(Src::BYTES, fuzz_rec);
    s.bytes = data;
    s.bytes_end = data + size;
    try {
        run_one(*fuzz_stage, s);
    } catch (const Failure &f) {
        fprintf(stderr, "FAILURE: %s\n", f.msg.c_str());
        abort();
    }
    account(*fuzz_stats, s);
    return 0;
}
#endif
} // namespace pbt

#ifndef PBT_FUZZ
int main(int argc, char **argv)
{
    // addresses that are the same each time, where that is allowed
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && !getenv("PBT_FIXED")) {
        setenv("PBT_FIXED", "1", 1);
        if (personality(p | ADDR_NO_RANDOMIZE) != -1)
            execv("/proc/self/exe", argv);
    }
    return pbt::pbt_main(argc, argv);
}
#endif
