#include "pq_common.hpp"

namespace {

void history(Src &s)
{
    World w(s);
    w.with_reloc = s.flip();
    w.make();
    static const int prios[] = {1, 3, 10, 1000};
    int range = s.pick(prios);
    bool dups = s.flip(), nulls = s.chance(1, 8);
    w.null_elem.prio = (int) s.below(range);
    std::vector<unsigned> wt;
    for (int i = 0; i < 7; i++)
        wt.push_back(s.chance(3, 4) ? 1 + s.below(6) : 0);
    wt[0] += 5;
    size_t maxsize = 0, taken = 0;
    w.check_counts();
    w.peek();
    while (s.more(60)) {
        switch (s.weighted(wt)) {
            case 0: {
                Elem *e;
                if (nulls && s.chance(1, 6))
                    e = &w.null_elem;
                else if (dups && !w.all.empty() && s.chance(1, 3))
                    e = w.all[s.below(w.all.size())].get();
                else
                    e = w.fresh((int) s.below(range));
                s.note("enqueue element %d (priority %d)", e->id, e->prio);
                if (e->count)
                    s.label("element enqueued repeatedly");
                w.enqueue(e);
                break;
            }
            case 1:
                s.note("dequeue");
                w.dequeue();
                taken++;
                break;
            case 2:
                s.note("pop");
                w.pop();
                taken++;
                break;
            case 3:
                s.note("peek");
                w.peek();
                break;
            case 4:
                if (!w.queued.empty()) {
                    Elem *e = w.queued[s.below(w.queued.size())];
                    if (w.removable(e)) {
                        s.note("remove element %d (priority %d)", e->id, e->prio);
                        w.remove(e);
                        taken++;
                        s.label("remove");
                    }
                }
                break;
            case 5: {
                int n = (int) s.below(40), p = (int) s.below(range), step = (int) s.range(-3, 3);
                s.note("enqueue %d elements from priority %d, step %d", n, p, step);
                for (int k = 0; k < n; k++)
                    w.enqueue(w.fresh((((p + k * step) % range) + range) % range));
                break;
            }
            case 6: {
                size_t n = s.below(w.queued.size() + 1);
                s.note("dequeue %zu elements", n);
                while (n--)
                    w.dequeue();
                break;
            }
        }
        s.check_pending();
        w.check_counts();
        w.peek();
        if (w.queued.size() > maxsize)
            maxsize = w.queued.size();
    }
    if (maxsize >= 4 && taken)
        s.nontrivial();
    if (maxsize >= 32)
        s.label("queue of 32 or more");
    if (!w.with_reloc)
        s.label("without relocation callback");
    if (s.chance(3, 4)) {
        s.note("drain");
        w.drain();
    }
    destroy_priority_queue(w.q);
}

// every heap content and order of operations up to a small size: the choices
// are few, so that random search covers them densely
void dense(Src &s)
{
    World w(s);
    w.make();
    int range = 2 + (int) s.below(4);
    int n = 3 + (int) s.below(12);
    for (int k = 0; k < n; k++)
        w.enqueue(w.fresh((int) s.below(range)));
    w.check_counts();
    for (int k = 0; k < 3; k++) {
        if (w.queued.empty())
            break;
        switch (s.below(3)) {
            case 0: {
                Elem *e = w.queued[s.below(w.queued.size())];
                s.note("remove element %d (priority %d)", e->id, e->prio);
                w.remove(e);
                break;
            }
            case 1:
                s.note("pop");
                w.pop();
                break;
            case 2:
                w.enqueue(w.fresh((int) s.below(range)));
                break;
        }
        w.check_counts();
        w.peek();
    }
    s.nontrivial();
    s.note("drain");
    w.drain();
    destroy_priority_queue(w.q);
}

void large(Src &s)
{
    World w(s);
    w.with_reloc = s.flip();
    w.make();
    Rng g = s.bulk();
    int n = 1 + (int) s.size(3000), range = 1 + (int) s.size(5000);
    unsigned push = 1 + (unsigned) s.below(7);
    s.note("%d operations, priorities below %d, enqueue %u/8", n, range, push);
    size_t maxsize = 0;
    for (int k = 0; k < n; k++) {
        if (g.p(push, 8))
            w.enqueue(w.fresh((int) g.upto(range - 1)));
        else
            switch (g.upto(2)) {
                case 0:
                    w.dequeue();
                    break;
                case 1:
                    w.pop();
                    break;
                case 2:
                    if (!w.queued.empty()) {
                        Elem *e = w.queued[g.upto(w.queued.size() - 1)];
                        if (w.removable(e))
                            w.remove(e);
                    }
            }
        s.check_pending();
        w.check_counts();
        if (w.queued.size() > maxsize)
            maxsize = w.queued.size();
    }
    if (maxsize > 60)
        s.nontrivial();
    if (maxsize > 500)
        s.label("queue over 500");
    w.drain();
    destroy_priority_queue(w.q);
}

PROPERTY(C06,
         "A case is a history of enqueue/dequeue/pop/peek/remove operations checked against a multiset "
         "with ties, repeated and NULL elements; non-trivial if the queue reached 4 elements and some "
         "were taken out (large: over 60).",
         {{"history", history, F_PROD | F_ASAN | F_FUZZ | F_ALLOC, 480000, 5000000, 5, 45000},
          {"dense", dense, F_PROD | F_ASAN | F_ALLOC, 1600000, 20000000, 20, 0},
          {"large", large, F_PROD | F_ASAN | F_ALLOC, 1600, 15000, 8, 0},
          {"huge", huge, F_PROD, 24, 600, 1, 0}});
} // namespace
