// Property-based testing engine: every random decision of a case is a
// "choice" (an integer 0..max, 0 being the simplest).  A case is a pure
// function of its choice sequence, so it can be generated from a seed,
// decoded from fuzzer bytes, replayed and shrunk.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <errno.h>
#include <string.h>
#include <string>
#include <vector>

namespace pbt {

struct Failure {
    std::string msg;
};

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::string vfmt(const char *f, va_list ap);
// quoted, escaped rendering of bytes for notes and messages
std::string show(const void *p, size_t n);
inline std::string show(const std::string &s) { return show(s.data(), s.size()); }
std::string show(const char *s); // NUL-terminated or NULL

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    // uniform 0..max inclusive
    uint64_t upto(uint64_t max)
    {
        if (max == UINT64_MAX)
            return next();
        return (uint64_t) (((unsigned __int128) next() * (max + 1)) >> 64);
    }
    bool p(unsigned num, unsigned den) { return upto(den - 1) < num; }
};

// In the check of independence several cases run interleaved; tick() is called
// at every draw and in every callback and may switch to another case.
extern void (*tick)();
inline void yield_point()
{
    if (tick)
        tick();
}
extern bool shared_process;     // cases share the process: leave the locale alone
extern bool readonly_inputs;    // guarded buffers made from data cannot be written
// plain data of a harness that belongs to the running case
void case_state(void *p, size_t n);
std::vector<std::pair<void *, size_t>> &case_states();
struct CaseState {
    CaseState(void *p, size_t n) { case_state(p, n); }
};

struct Record {         // in shared memory: survives a crash of the worker
    enum { MAXC = 1 << 18 };
    volatile uint64_t index;
    volatile uint32_t n;
    volatile uint32_t state;    // 0 idle, 1 running a case, 2 failure noted
    char msg[4096];
    uint64_t value[MAXC];
    uint64_t max[MAXC];
};

class Src {
public:
    enum Mode { RANDOM, REPLAY, BYTES, ENUM };
    Src(Mode m, Record *r) : mode(m), rec(r), rng(0) { rec->n = 0; }
    Mode mode;
    Record *rec;
    Rng rng;
    const std::vector<uint64_t> *replay = nullptr;
    const uint8_t *bytes = nullptr, *bytes_end = nullptr;
    uint64_t enum_index = 0;
    Src *outer = nullptr;       // draw from there; notes go there, too, with the tag
    const char *tag = "";
    bool tracing = false;
    bool is_nontrivial = false;
    uint64_t hash = 0xcbf29ce484222325ull;
    std::string trace;
    int trace_fd = -1;          // notes are also written here at once

    // --- primitive draws; all others are built on these
    uint64_t upto(uint64_t max);                    // uniform 0..max
    template <class F> uint64_t shaped(uint64_t max, F f)
    {
        uint64_t v;
        if (exhausted())
            return 0;
        if (outer) {
            yield_point();
            v = outer->shaped(max, f);
        } else if (mode == RANDOM) {
            v = f(rng);
            if (v > max)
                v = max;
        } else if (!given(max, &v))
            v = 0;
        put(v, max);
        return v;
    }
    // true with probability num/den; false is simplest
    bool chance(unsigned num, unsigned den);
    // --- derived
    uint64_t below(uint64_t n) { return n ? upto(n - 1) : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) upto((uint64_t) hi - (uint64_t) lo); }
    // continue a loop with expected length avg
    bool more(unsigned avg) { return !exhausted() && chance(avg, avg + 1); }
    bool flip() { return chance(1, 2); }
    // log-skewed size in 0..max with a bias to powers of two and neighbours
    uint64_t size(uint64_t max);
    // sizes close to the interesting constants of the code under test
    uint64_t size_near(uint64_t max, const std::vector<uint64_t> &points);
    uint64_t u64();             // mixture of special and uniform 64-bit values
    uint8_t byte() { return (uint8_t) upto(255); }
    size_t weighted(const std::vector<unsigned> &w);
    template <class T, size_t N> const T &pick(const T (&a)[N]) { return a[below(N)]; }
    template <class T> const T &pick(const std::vector<T> &a) { return a[below(a.size())]; }
    // a derived generator for bulk data (one choice)
    Rng bulk() { return Rng(upto(UINT64_MAX)); }
    bool exhausted() const { return rec->n >= Record::MAXC; }

    // --- bookkeeping
    void nontrivial() { is_nontrivial = true; }
    void label(const char *name);           // count a class of cases
    void note(const char *f, ...) __attribute__((format(printf, 2, 3)));
    // record a failure without unwinding (usable inside C callbacks)
    void later(const std::string &msg) { if (pending.empty()) pending = msg.empty() ? "?" : msg; }
    void check_pending() { if (!pending.empty()) throw Failure{pending}; }
    std::string pending;
private:
    size_t pos = 0;
    bool given(uint64_t max, uint64_t *v);
    void put(uint64_t v, uint64_t max)
    {
        uint32_t n = rec->n;
        rec->value[n] = v;
        rec->max[n] = max;
        rec->n = n + 1;
        hash = (hash ^ v) * 0x100000001b3ull;
        hash ^= hash >> 29;
    }
};

[[noreturn]] void fail(const char *f, ...) __attribute__((format(printf, 1, 2)));
#define REQUIRE(cond, ...)                                                   \
    do {                                                                     \
        if (!(cond))                                                         \
            ::pbt::fail(__VA_ARGS__);                                        \
    } while (0)

// --- properties and stages
typedef void (*CaseFn)(Src &);
enum StageFlags {
    F_PROD = 1, F_ASAN = 2, F_FUZZ = 4,
    F_ENUM = 8,         // exhaustive: the first choice is the case index
    F_ALLOC = 16,       // usable by the allocation discipline check
    F_PARTS = 64,       // consists of cases of other stages (see Parts)
    F_TSAN = 128,       // runs in the ThreadSanitizer flavour
    F_SLOW = 256,       // cases take seconds: more time before they count as not terminating
    F_LEAK = 32         // a live block at the end of the case is a failure
};
struct Stage {
    const char *name;
    CaseFn fn;
    unsigned flags;
    uint64_t quick, thorough;   // number of cases in the optimised flavour
    unsigned asan_div;          // ASan flavour runs 1/asan_div of them
    uint64_t fuzz_runs;         // libFuzzer executions per process (quick)
};
struct Property {
    const char *id;
    const char *rule;
    std::vector<Stage> stages;
};
std::vector<const Property *> &registry();
struct Register {
    explicit Register(const Property *p) { registry().push_back(p); }
};
#define PROPERTY(ID, RULE, ...)                                              \
    static const ::pbt::Property prop_##ID = { #ID, RULE, __VA_ARGS__ };     \
    static ::pbt::Register reg_##ID(&prop_##ID)

// --- tracking reallocator (installed before every case)
namespace talloc {
void *hook(void *p, size_t n);
extern size_t live;             // live blocks
extern long skew;               // sum of reported skews
extern uint64_t calls;
bool owns(const void *p);       // p is a live block of ours (p must be mapped)
size_t block_size(const void *p);
void check_all();               // canaries of all live blocks; throws Failure
void reset();                   // install hook and counter, clear counts
}

// --- guarded buffers: bytes exactly up against inaccessible memory.  In the
// sanitizer flavours a heap block, in the plain one a page-guarded mapping.
class Guarded {
public:
    Guarded(size_t n, int fill = 0xA5);
    Guarded(const void *data, size_t n);
    ~Guarded();
    Guarded(const Guarded &) = delete;
    Guarded &operator=(const Guarded &) = delete;
    char *p;                    // n usable bytes
    size_t n;
    char *end() const { return p + n; }
    // the bytes before p must be as they were
    void check_before() const;
    // the data are modified in place
    Guarded &writable();
private:
    char *base;
    size_t maplen;
    bool readonly = false;
    void protect(int prot);
    void init(size_t n);
};

bool run_guarded_stage(const Stage &st, Src &s); // used by C24

// The cases a case of a F_PARTS stage is made of, in shared memory.  A failure
// counts only if none of them fails when it is run alone in a new process.
struct Parts {
    enum { MAX = 3 };
    uint32_t n;
    char who[MAX][2][32];       // property, stage
    Record *rec[MAX];
};
extern Parts *parts;
} // namespace pbt
