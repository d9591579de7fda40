#include "pbt.hpp"
#include <algorithm>
#include <memory>
#include <sys/mman.h>
#include <thread>
#include <ucontext.h>
#include <fsdyn/fsalloc.h>
using namespace pbt;

namespace {

struct Named {
    const Property *p;
    const Stage *st;
};

// the other properties' generated stages; not those with huge objects
const std::vector<Named> &stages()
{
    static const std::vector<Named> v = [] {
        std::vector<Named> r;
        for (const Property *p : registry()) {
            if (!strcmp(p->id, "C24") || !strcmp(p->id, "C26"))
                continue;
            for (const Stage &st : p->stages)
                if ((st.flags & F_PROD) && !(st.flags & (F_ENUM | F_PARTS | F_SLOW)) && strcmp(st.name, "large") &&
                    strcmp(st.name, "huge") && strcmp(st.name, "big") && strcmp(st.name, "shared") && strcmp(st.name, "vast") &&
                    strcmp(st.name, "giant") && strcmp(st.name, "tall"))
                    r.push_back({p, &st});
        }
        std::sort(r.begin(), r.end(), [](const Named &a, const Named &b) {
            int c = strcmp(a.p->id, b.p->id);
            return c ? c < 0 : strcmp(a.st->name, b.st->name) < 0;
        });
        return r;
    }();
    return v;
}

const char *label_of(const Named &n)
{
    static std::vector<std::string> names = [] {
        std::vector<std::string> r;
        for (const Named &n : stages())
            r.push_back(std::string(n.p->id) + "/" + n.st->name);
        return r;
    }();
    return names[(size_t) (&n - stages().data())].c_str();
}

const Named &choose(Src &s, uint32_t i, const Named *like)
{
    // half of the partners use the same kind of object
    const Named *n = &s.pick(stages());
    if (like && s.flip()) {
        std::vector<const Named *> same;
        for (const Named &m : stages())
            if (m.p == like->p)
                same.push_back(&m);
        n = same[s.below(same.size())];
    }
    snprintf(parts->who[i][0], sizeof parts->who[i][0], "%s", n->p->id);
    snprintf(parts->who[i][1], sizeof parts->who[i][1], "%s", n->st->name);
    s.note("case %u: one of %s", i, label_of(*n));
    s.label(label_of(*n));
    return *n;
}

void run_part(const Stage &st, Src &s, std::string &msg)
{
    try {
        st.fn(s);
        s.check_pending();
    } catch (const Failure &f) {
        msg = f.msg.empty() ? "failed" : f.msg;
    }
}

// ------------------------------------------------------------- interleaving
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define TSAN 1
#endif
#endif

#ifndef TSAN
enum { STACK = 8 << 20 };
struct Fiber {
    ucontext_t ctx;
    char *stack;
    const Stage *st;
    std::unique_ptr<Src> src;
    std::string msg;
    std::vector<char> state;
    bool done;
};
Fiber fibers[Parts::MAX];
ucontext_t scheduler;
Fiber *current;
uint64_t gap, mean, switches;
Rng *order;

void suspend()
{
    if (!current || gap-- > 0)
        return;
    gap = order->upto(2 * mean);
    switches++;
    swapcontext(&current->ctx, &scheduler);
}

void entry()
{
    Fiber *f = current;
    run_part(*f->st, *f->src, f->msg);
    f->done = true;
    for (;;)
        swapcontext(&f->ctx, &scheduler);
}

void save(std::vector<char> &v)
{
    v.clear();
    for (auto &x : case_states())
        v.insert(v.end(), (char *) x.first, (char *) x.first + x.second);
}

void restore(const std::vector<char> &v)
{
    size_t at = 0;
    for (auto &x : case_states()) {
        memcpy(x.first, v.data() + at, x.second);
        at += x.second;
    }
}

// Cases take turns in one thread, changing at draws (between calls), in
// callbacks and at allocations (within calls).
void interleaved(Src &s)
{
    static const unsigned means[] = {0, 1, 3, 10, 40};
    uint32_t n = 2 + (uint32_t) s.chance(1, 4);
    parts->n = n;
    const Named *first = nullptr;
    mean = s.pick(means);
    Rng g(s.upto(UINT64_MAX));
    order = &g;
    std::vector<char> initial;
    save(initial);
    for (uint32_t i = 0; i < n; i++) {
        Fiber &f = fibers[i];
        const Named &c = choose(s, i, first);
        if (!first)
            first = &c;
        f.st = c.st;
        f.src.reset(new Src(s.mode, parts->rec[i]));
        f.src->outer = &s;
        f.src->tag = i == 0 ? "[0] " : i == 1 ? "    [1] " : "        [2] ";
        f.src->tracing = s.tracing;
        f.msg.clear();
        f.done = false;
        f.state = initial;
        if (!f.stack)
            f.stack = (char *) mmap(nullptr, STACK, PROT_READ | PROT_WRITE,
                                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        getcontext(&f.ctx);
        f.ctx.uc_stack.ss_sp = f.stack;
        f.ctx.uc_stack.ss_size = STACK;
        f.ctx.uc_link = nullptr;
        makecontext(&f.ctx, entry, 0);
    }
    shared_process = true;
    tick = suspend;
    switches = 0;
    uint32_t last = 0;
    std::string msg;
    for (;;) {
        std::vector<uint32_t> alive;
        for (uint32_t i = 0; i < n; i++)
            if (!fibers[i].done)
                alive.push_back(i);
        if (alive.empty() || !msg.empty())
            break;
        uint32_t k = alive[g.upto(alive.size() - 1)];
        if (alive.size() > 1 && k == last)
            k = alive[g.upto(alive.size() - 1)];
        last = k;
        current = &fibers[k];
        gap = g.upto(2 * mean);
        restore(current->state);
        int e = errno;
        swapcontext(&scheduler, &current->ctx);
        errno = e;
        save(current->state);
        current = nullptr;
        msg = fibers[k].msg;
        if (!msg.empty())
            msg = fmt("case %u (%s): %s", k, parts->who[k][0], msg.c_str());
    }
    tick = nullptr;
    shared_process = false;
    restore(initial);
    if (switches >= 4)
        s.nontrivial();
    if (!msg.empty())
        throw Failure{msg + "; the same case passes when it runs alone"};
}

// inputs passed as pointers to const lie in memory that cannot be written
void readonly(Src &s)
{
    parts->n = 1;
    const Named &c = choose(s, 0, nullptr);
    Src in(s.mode, parts->rec[0]);
    in.outer = &s;
    in.tracing = s.tracing;
    std::string msg;
    readonly_inputs = true;
    run_part(*c.st, in, msg);
    readonly_inputs = false;
    if (in.is_nontrivial)
        s.nontrivial();
    if (!msg.empty())
        throw Failure{msg + "; the same case passes when its inputs can be written"};
}
#else
void interleaved(Src &) {}
void readonly(Src &) {}
#endif

// Cases run in several threads at once.
void threads(Src &s)
{
    uint32_t n = 2 + (uint32_t) s.chance(1, 4);
    parts->n = n;
    const Named *first = nullptr;
    struct Part {
        const Stage *st;
        uint64_t seed;
        unsigned cases;
        std::string msg;
    } part[Parts::MAX];
    for (uint32_t i = 0; i < n; i++) {
        const Named &c = choose(s, i, first);
        if (!first)
            first = &c;
        part[i].st = c.st;
        part[i].seed = s.upto(UINT64_MAX);
        part[i].cases = 1 + (unsigned) s.below(6);
    }
    shared_process = true;
    std::vector<std::thread> ts;
    for (uint32_t i = 0; i < n; i++)
        ts.emplace_back([&part, i] {
            Part &p = part[i];
            for (unsigned k = 0; k < p.cases && p.msg.empty(); k++) {
                Src in(Src::RANDOM, parts->rec[i]);
                in.rng = Rng(p.seed + k);
                run_part(*p.st, in, p.msg);
            }
        });
    for (auto &t : ts)
        t.join();
    shared_process = false;
    s.nontrivial();
    for (uint32_t i = 0; i < n; i++)
        if (!part[i].msg.empty())
            throw Failure{fmt("case %u (%s): %s; the same case passes when it runs alone", i, parts->who[i][0],
                              part[i].msg.c_str())};
}

PROPERTY(C26,
         "A case takes two or three generated cases of the other checks, with their oracles, and runs them "
         "at once: in one thread, switching between calls, in callbacks and at allocations (interleaved; "
         "non-trivial from 4 switches), in several threads under ThreadSanitizer (threads), or a single one "
         "with its inputs in write-protected memory (readonly). A failure counts if none of the cases fails "
         "when it runs alone in a new process.",
         {{"interleaved", interleaved, F_PROD | F_PARTS, 400000, 10000000, 1, 0},
          {"readonly", readonly, F_PROD | F_PARTS, 400000, 10000000, 1, 0},
          {"threads", threads, F_TSAN | F_PARTS, 20000, 600000, 1, 0}});
} // namespace
