#include "pq_common.hpp"

namespace {

void check_locators(World &w)
{
    static thread_local std::vector<void *> seen;
    seen.clear();
    for (Elem *e : w.queued) {
        REQUIRE(e->has_loc, "element %d was enqueued without being given a locator", e->id);
        seen.push_back(e->loc);
    }
    std::sort(seen.begin(), seen.end());
    auto at = std::adjacent_find(seen.begin(), seen.end());
    if (at != seen.end())
        for (Elem *e : w.queued)
            REQUIRE(e->loc != *at, "element %d shares its locator with another queued element", e->id);
}

void history(Src &s)
{
    World w(s);
    w.strict = true;
    w.make();
    static const int prios[] = {1, 2, 5, 30, 1000};
    int range = s.pick(prios);
    std::vector<unsigned> wt;
    for (int i = 0; i < 6; i++)
        wt.push_back(s.chance(3, 4) ? 1 + s.below(6) : 0);
    wt[0] += 3;
    wt[1] += 3;
    size_t maxsize = 0, removed = 0;
    while (s.more(60)) {
        switch (s.weighted(wt)) {
            case 0: {
                // sometimes an element that was taken out before comes back
                Elem *e = nullptr;
                if (!w.all.empty() && s.chance(1, 4)) {
                    e = w.all[s.below(w.all.size())].get();
                    if (e->count)
                        e = nullptr;
                }
                if (!e)
                    e = w.fresh((int) s.below(range));
                s.note("enqueue element %d (priority %d)", e->id, e->prio);
                w.enqueue(e);
                break;
            }
            case 1:
                if (!w.queued.empty()) {
                    Elem *e = w.queued[s.below(w.queued.size())];
                    s.note("remove element %d (priority %d)", e->id, e->prio);
                    w.remove(e);
                    removed++;
                }
                break;
            case 2:
                s.note("dequeue");
                w.dequeue();
                break;
            case 3:
                s.note("pop");
                w.pop();
                break;
            case 4: {
                int n = (int) s.below(30), p = (int) s.below(range), step = (int) s.range(-3, 3);
                s.note("enqueue %d elements from priority %d, step %d", n, p, step);
                for (int k = 0; k < n; k++)
                    w.enqueue(w.fresh((((p + k * step) % range) + range) % range));
                break;
            }
            case 5: // the most recently enqueued ones
                if (!w.queued.empty()) {
                    size_t n = 1 + s.below(3);
                    s.note("remove the %zu last enqueued", n);
                    while (n-- && !w.queued.empty())
                        w.remove(w.queued.back());
                    removed++;
                }
                break;
        }
        s.check_pending();
        check_locators(w);
        w.check_counts();
        w.peek();
        if (w.queued.size() > maxsize)
            maxsize = w.queued.size();
    }
    if (maxsize >= 4 && removed)
        s.nontrivial();
    if (maxsize >= 32)
        s.label("queue of 32 or more");
    if (s.flip()) {
        s.note("remove all by locator");
        while (!w.queued.empty()) {
            w.remove(w.queued[s.below(w.queued.size())]);
            if (w.queued.size() < 40 || w.queued.size() % 8 == 0)
                check_locators(w);
            w.peek();
        }
        w.check_counts();
    } else {
        s.note("drain");
        while (!w.queued.empty()) {
            w.dequeue();
            if (w.queued.size() < 40 || w.queued.size() % 8 == 0)
                check_locators(w);
        }
    }
    destroy_priority_queue(w.q);
}

void dense(Src &s)
{
    World w(s);
    w.strict = true;
    w.make();
    int range = 2 + (int) s.below(6);
    int n = 3 + (int) s.below(14);
    for (int k = 0; k < n; k++)
        w.enqueue(w.fresh((int) s.below(range)));
    check_locators(w);
    int k = 1 + (int) s.below(4);
    while (k-- && !w.queued.empty()) {
        Elem *e = w.queued[s.below(w.queued.size())];
        s.note("remove element %d (priority %d)", e->id, e->prio);
        w.remove(e);
        check_locators(w);
        w.check_counts();
        w.peek();
    }
    s.nontrivial();
    while (!w.queued.empty()) {
        w.dequeue();
        check_locators(w);
    }
    destroy_priority_queue(w.q);
}

void large(Src &s)
{
    World w(s);
    w.strict = true;
    w.make();
    Rng g = s.bulk();
    int n = 1 + (int) s.size(2000), range = 1 + (int) s.size(3000);
    unsigned push = 2 + (unsigned) s.below(6);
    s.note("%d operations, priorities below %d, enqueue %u/8", n, range, push);
    size_t maxsize = 0;
    for (int k = 0; k < n; k++) {
        if (w.queued.empty() || g.p(push, 8))
            w.enqueue(w.fresh((int) g.upto(range - 1)));
        else if (g.p(1, 3))
            w.dequeue();
        else
            w.remove(w.queued[g.upto(w.queued.size() - 1)]);
        s.check_pending();
        if (k % 16 == 0)
            check_locators(w);
        if (w.queued.size() > maxsize)
            maxsize = w.queued.size();
    }
    check_locators(w);
    if (maxsize > 60)
        s.nontrivial();
    while (!w.queued.empty()) {
        w.remove(w.queued[g.upto(w.queued.size() - 1)]);
        if (w.queued.size() % 16 == 0)
            check_locators(w);
    }
    w.check_counts();
    destroy_priority_queue(w.q);
}

PROPERTY(C07,
         "A case is a history with removals by the locators recorded from the relocation callback, all "
         "locators checked for distinctness after every step; non-trivial if the queue reached 4 "
         "elements and some were removed by locator (large: over 60).",
         {{"history", history, F_PROD | F_ASAN | F_FUZZ | F_ALLOC, 100000, 4000000, 5, 25000},
          {"dense", dense, F_PROD | F_ASAN | F_ALLOC, 300000, 15000000, 20, 0},
          {"large", large, F_PROD | F_ASAN | F_ALLOC, 400, 15000, 8, 0},
          {"huge", huge, F_PROD, 24, 600, 1, 0}});
} // namespace
