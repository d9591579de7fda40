// Shared by the priority queue properties.
#pragma once
#include "pbt.hpp"
#include <fsdyn/priority_queue.h>
#include <set>
#include <limits.h>
#include <algorithm>
#include <memory>
using namespace pbt;

namespace {

struct Elem {
    int prio;
    int id;
    void *loc;
    bool has_loc;
    int count;      // how many times in the queue
    bool dup;       // enqueued repeatedly: its locator is ambiguous
};

struct World {
    Src &s;
    int kind;
    bool with_ctx, with_reloc;
    priorq_t *q = nullptr;
    std::vector<std::unique_ptr<Elem>> all;
    std::vector<Elem *> queued;         // with multiplicity; may hold null_elem
    const Elem *entering = nullptr;     // allowed in callbacks besides queued ones
    bool strict = false;                // check the callback's element
    uint64_t relocs = 0;
    Elem null_elem = {0, -1, nullptr, false, 0, true};
    static thread_local World *cur;

    explicit World(Src &src) : s(src)
    {
        kind = (int) s.below(5);
        with_ctx = s.flip();
        with_reloc = true;
        cur = this;
    }
    ~World() { cur = nullptr; }
    Elem *from(const void *p) { return p ? (Elem *) p : &null_elem; }
    const void *to(Elem *e) { return e == &null_elem ? nullptr : e; }
    int compare(Elem *a, Elem *b)
    {
        yield_point();
        int x = a->prio, y = b->prio;
        if (x == y)
            return 0;
        switch (kind) {
            case 0:
                return x < y ? -1 : 1;
            case 1:
                return x - y;
            case 2:
                return x < y ? INT_MIN : INT_MAX;
            case 3:
                return x < y ? 1 : -1;
            default:
                return x < y ? -256 : 256;
        }
    }
    static int cmp3(const void *a, const void *b, void *obj)
    {
        World *w = cur;
        if (obj != w)
            w->s.later("comparator called with a wrong context object");
        return w->compare(w->from(a), w->from(b));
    }
    static int cmp2(const void *a, const void *b) { return cur->compare(cur->from(a), cur->from(b)); }
    void moved(const void *e, void *loc)
    {
        yield_point();
        relocs++;
        Elem *x = from(e);
        if (strict && x->count == 0 && x != entering)
            s.later(fmt("relocation callback invoked with element %d, which is not in the queue", x->id));
        x->loc = loc;
        x->has_loc = true;
    }
    static void reloc3(const void *e, void *loc, void *obj)
    {
        if (obj != cur)
            cur->s.later("relocation callback called with a wrong context object");
        cur->moved(e, loc);
    }
    static void reloc2(const void *e, void *loc) { cur->moved(e, loc); }
    void make()
    {
        s.note("queue: comparator kind %d, %s context, %s relocation callback", kind,
               with_ctx ? "with" : "without", with_reloc ? "with" : "without");
        if (with_ctx)
            q = make_priority_queue_2(cmp3, with_reloc ? reloc3 : nullptr, this);
        else
            q = make_priority_queue(cmp2, with_reloc ? reloc2 : nullptr);
        REQUIRE(q, "make_priority_queue returned NULL");
    }
    Elem *fresh(int prio)
    {
        all.emplace_back(new Elem{prio, (int) all.size(), nullptr, false, 0, false});
        return all.back().get();
    }
    void enqueue(Elem *e)
    {
        if (e->count)
            e->dup = true;
        else if (e != &null_elem)
            e->dup = false;
        entering = e;
        e->has_loc = e->count ? e->has_loc : false;
        priorq_enqueue(q, to(e));
        s.check_pending();
        entering = nullptr;
        e->count++;
        queued.push_back(e);
    }
    void took(Elem *e)
    {
        e->count--;
        queued.erase(std::find(queued.begin(), queued.end(), e));
    }
    bool is_queued(Elem *e) { return std::find(queued.begin(), queued.end(), e) != queued.end(); }
    void require_queued(const void *p, const char *what)
    {
        // p may be garbage: look it up by address only
        for (Elem *e : queued)
            if (to(e) == p)
                return;
        fail("%s returned something that is not in the queue (%zu elements)", what, queued.size());
    }
    void require_least(Elem *e, const char *what)
    {
        for (Elem *o : queued)
            REQUIRE(compare(o, e) >= 0, "%s returned element %d (priority %d) though element %d (priority %d) precedes it",
                    what, e->id, e->prio, o->id, o->prio);
    }
    void check_counts()
    {
        REQUIRE(priorq_size(q) == queued.size(), "size is %zu, expected %zu", priorq_size(q), queued.size());
        REQUIRE(priorq_empty(q) == queued.empty(), "empty is %d with %zu elements", priorq_empty(q),
                queued.size());
    }
    void peek()
    {
        const void *p = priorq_peek(q);
        if (queued.empty()) {
            REQUIRE(!p, "peek on an empty queue is not NULL");
            return;
        }
        require_queued(p, "peek");
        require_least(from(p), "peek");
    }
    void dequeue()
    {
        const void *p = priorq_dequeue(q);
        s.check_pending();
        if (queued.empty()) {
            REQUIRE(!p, "dequeue on an empty queue is not NULL");
            return;
        }
        require_queued(p, "dequeue");
        require_least(from(p), "dequeue");
        took(from(p));
    }
    void pop()
    {
        const void *p = priorq_pop(q);
        s.check_pending();
        if (queued.empty()) {
            REQUIRE(!p, "pop on an empty queue is not NULL");
            return;
        }
        require_queued(p, "pop");
        took(from(p));
    }
    bool removable(Elem *e) { return with_reloc && e != &null_elem && e->count == 1 && !e->dup && e->has_loc; }
    void remove(Elem *e)
    {
        entering = e;
        const void *p = priorq_remove(q, e->loc);
        s.check_pending();
        entering = nullptr;
        REQUIRE(p == to(e), "remove with the locator of element %d returned %s", e->id,
                p ? "another element" : "NULL");
        took(e);
    }
    void drain()
    {
        while (!queued.empty())
            dequeue();
        dequeue();
        check_counts();
        peek();
        pop();
    }
};
thread_local World *World::cur;
CaseState keep_cur(&World::cur, sizeof World::cur);
} // namespace

// beyond 2^15 and 2^16 elements; a direct model, as World's is quadratic
namespace {
struct Big {
    int prio;
    void *loc;
    bool queued, located;
};
int big_cmp(const void *a, const void *b)
{
    int x = ((const Big *) a)->prio, y = ((const Big *) b)->prio;
    return x < y ? -1 : x > y;
}
void big_reloc(const void *e, void *loc) 
{
    ((Big *) e)->loc = loc;
    ((Big *) e)->located = true;
}

void huge(Src &s)
{
    static const size_t sizes[] = {32769, 65537, 70000, 140000};
    size_t n = s.chance(1, 10) ? 1100000 : s.pick(sizes);
    int range = s.flip() ? 100 : 1 << 30;
    unsigned kind = (unsigned) s.below(3), removes = (unsigned) s.below(4);
    Rng g = s.bulk();
    s.note("%zu elements, kind %u", n, kind);
    std::vector<Big> e(n);
    std::multiset<int> prios;
    priorq_t *q = make_priority_queue(big_cmp, big_reloc);
    for (size_t i = 0; i < n; i++) {
        e[i] = {kind == 0 ? (int) i : kind == 1 ? (int) (n - i) : (int) g.upto(range), nullptr, true, false};
        prios.insert(e[i].prio);
        priorq_enqueue(q, &e[i]);
        REQUIRE(e[i].located, "an element was enqueued without being given a locator");
    }
    REQUIRE(priorq_size(q) == n, "size is %zu, expected %zu", priorq_size(q), n);
    size_t left = n, at = 0;
    std::vector<size_t> order(n);
    for (size_t i = 0; i < n; i++)
        order[i] = i;
    for (size_t i = n; i > 1; i--)
        std::swap(order[i - 1], order[g.upto(i - 1)]);
    while (left) {
        Big *b;
        if (g.upto(3) < removes) {
            while (at < n && !e[order[at]].queued)
                at++;
            if (at == n)
                break;
            b = (Big *) priorq_remove(q, e[order[at]].loc);
            REQUIRE(b == &e[order[at]], "remove with the locator of an element returned %s (%zu elements)",
                    b ? "another one" : "NULL", left);
        } else {
            const Big *p = (const Big *) priorq_peek(q);
            REQUIRE(p >= &e[0] && p < &e[0] + n && p->queued && p->prio == *prios.begin(),
                    "peek shows an element that is not first (%zu elements)", left);
            b = (Big *) priorq_dequeue(q);
            REQUIRE(b >= &e[0] && b < &e[0] + n && b->queued,
                    "dequeue returned something that is not in the queue (%zu elements)", left);
            REQUIRE(b->prio == *prios.begin(), "dequeue returned priority %d though there is %d (%zu elements)",
                    b->prio, *prios.begin(), left);
        }
        b->queued = false;
        prios.erase(prios.find(b->prio));
        left--;
        REQUIRE(priorq_size(q) == left, "size is %zu, expected %zu", priorq_size(q), left);
    }
    REQUIRE(!priorq_dequeue(q) && priorq_empty(q), "elements left over");
    s.nontrivial();
    destroy_priority_queue(q);
}
} // namespace
