#include "avl_common.hpp"

namespace {

struct Assoc {
    const AKey *k;
    const void *v;
};
typedef std::map<int, Assoc> Model; // by rank

struct Tree {
    avl_tree_t *t;
    Model m;
};

struct Loose {
    avl_elem_t *e;
    Assoc a;
    const char *how;
};

std::string sh(const Assoc &a)
{
    return fmt("key %d#%d value %d", a.k->v, a.k->serial, avl_value_no(a.v));
}

void expect(avl_elem_t *e, const Assoc *a, const char *what, int arg)
{
    if (!a) {
        REQUIRE(!e, "%s(%d) returned an element (key %d) where none is expected", what, arg,
                ((const AKey *) avl_elem_get_key(e))->v);
        return;
    }
    REQUIRE(e, "%s(%d) returned NULL, expected %s", what, arg, sh(*a).c_str());
    REQUIRE(avl_elem_get_key(e) == a->k, "%s(%d) returned key object %d#%d, expected %s", what, arg,
            ((const AKey *) avl_elem_get_key(e))->v, ((const AKey *) avl_elem_get_key(e))->serial,
            sh(*a).c_str());
    REQUIRE(avl_elem_get_value(e) == a->v, "%s(%d) returned a wrong value, expected %s", what, arg,
            sh(*a).c_str());
}

void check_size(Tree &t)
{
    REQUIRE(avl_tree_size(t.t) == t.m.size(), "size is %zu, expected %zu", avl_tree_size(t.t),
            t.m.size());
    REQUIRE(!avl_tree_empty(t.t) == !t.m.empty(), "empty is %d with %zu elements",
            avl_tree_empty(t.t), t.m.size());
    expect(avl_tree_get_first(t.t), t.m.empty() ? nullptr : &t.m.begin()->second, "get_first", 0);
    expect(avl_tree_get_last(t.t), t.m.empty() ? nullptr : &t.m.rbegin()->second, "get_last", 0);
}

void check_walk(Tree &t)
{
    check_size(t);
    avl_elem_t *e = avl_tree_get_first(t.t);
    int i = 0;
    for (auto &kv : t.m) {
        expect(e, &kv.second, "forward traversal", i++);
        e = avl_tree_next(e);
    }
    REQUIRE(!e, "forward traversal does not end after %d elements", i);
    e = avl_tree_get_last(t.t);
    i = 0;
    for (auto it = t.m.rbegin(); it != t.m.rend(); ++it) {
        expect(e, &it->second, "backward traversal", i++);
        e = avl_tree_previous(e);
    }
    REQUIRE(!e, "backward traversal does not end after %d elements", i);
}

void check_probe(AvlWorld &w, Tree &t, int v)
{
    AKey probe = {v, -1, true};
    int r = w.rank(v);
    auto lb = t.m.lower_bound(r), ub = t.m.upper_bound(r);
    auto eq = t.m.find(r);
    expect(avl_tree_get(t.t, &probe), eq == t.m.end() ? nullptr : &eq->second, "get", v);
    expect(avl_tree_get_before(t.t, &probe), lb == t.m.begin() ? nullptr : &std::prev(lb)->second,
           "get_before", v);
    expect(avl_tree_get_on_or_before(t.t, &probe),
           ub == t.m.begin() ? nullptr : &std::prev(ub)->second, "get_on_or_before", v);
    expect(avl_tree_get_after(t.t, &probe), ub == t.m.end() ? nullptr : &ub->second, "get_after", v);
    expect(avl_tree_get_on_or_after(t.t, &probe), lb == t.m.end() ? nullptr : &lb->second,
           "get_on_or_after", v);
}

struct Run {
    Src &s;
    AvlWorld w;
    std::vector<Tree> trees;
    std::vector<Loose> loose;
    int range;
    explicit Run(Src &src) : s(src), w(src) {}

    void keep(avl_elem_t *e, const Assoc &a, const char *how)
    {
        expect(e, &a, how, a.k->v);
        loose.push_back({e, a, how});
    }
    void put(Tree &t, int v, int val)
    {
        AKey *k = w.key(v);
        const void *value = avl_value(val);
        avl_elem_t *old = avl_tree_put(t.t, k, value);
        auto it = t.m.find(w.rank(v));
        if (it == t.m.end()) {
            expect(old, nullptr, "put", v);
            t.m[w.rank(v)] = {k, value};
        } else if (it->second.v == value) {
            expect(old, nullptr, "put of the same value", v);
            s.label("put of the value already stored");
        } else {
            keep(old, it->second, "put (replaced)");
            it->second = {k, value};
            s.label("put replacing a value");
        }
    }
    void pop(Tree &t, int v, int how)
    {
        AKey probe = {v, -1, true};
        auto it = t.m.find(w.rank(v));
        if (how == 0) {
            avl_elem_t *e = avl_tree_pop(t.t, &probe);
            if (it == t.m.end())
                expect(e, nullptr, "pop", v);
            else {
                keep(e, it->second, "pop");
                t.m.erase(it);
            }
            return;
        }
        avl_elem_t *e = avl_tree_get(t.t, &probe);
        expect(e, it == t.m.end() ? nullptr : &it->second, "get", v);
        if (!e)
            return;
        if (how == 1) {
            avl_tree_detach(t.t, e);
            keep(e, it->second, "detach");
        } else
            avl_tree_remove(t.t, e);
        t.m.erase(it);
    }
    void pop_end(Tree &t, bool first)
    {
        avl_elem_t *e = first ? avl_tree_pop_first(t.t) : avl_tree_pop_last(t.t);
        if (t.m.empty()) {
            expect(e, nullptr, first ? "pop_first" : "pop_last", 0);
            return;
        }
        auto it = first ? t.m.begin() : std::prev(t.m.end());
        keep(e, it->second, first ? "pop_first" : "pop_last");
        t.m.erase(it);
    }
    void copy(size_t i)
    {
        avl_tree_t *c = avl_tree_copy(trees[i].t);
        REQUIRE(c && c != trees[i].t, "copy returned the tree itself or NULL");
        trees.push_back({c, trees[i].m});
        check_walk(trees.back());
    }
    void finish(bool probes)
    {
        for (Tree &t : trees) {
            check_walk(t);
            if (probes)
                for (int v = -1; v <= range + 1; v++)
                    check_probe(w, t, v);
        }
        // destroy some first: loose elements and other trees must survive
        while (!trees.empty()) {
            size_t i = s.below(trees.size());
            destroy_avl_tree(trees[i].t);
            trees.erase(trees.begin() + i);
            for (Tree &t : trees)
                check_walk(t);
        }
        for (Loose &l : loose) {
            expect(l.e, &l.a, l.how, l.a.k->v);
            destroy_avl_element(l.e);
        }
    }
};

void small(Src &s)
{
    Run r(s);
    static const int ranges[] = {3, 8, 20, 60, 200};
    r.range = s.pick(ranges);
    std::vector<unsigned> weights;
    for (int i = 0; i < 11; i++) // swarm: some operations off in some cases
        weights.push_back(s.chance(3, 4) ? 1 + s.below(8) : 0);
    weights[0] += 4;
    r.trees.push_back({r.w.make(), {}});
    check_walk(r.trees[0]);
    unsigned deletions = 0, maxsize = 0;
    unsigned avg = r.range < 30 ? 40 : 120;
    while (s.more(avg)) {
        size_t i = s.below(r.trees.size());
        Tree &t = r.trees[i];
        size_t before = t.m.size();
        switch (s.weighted(weights)) {
            case 0: {
                int v = (int) s.below(r.range), val = (int) s.below(4);
                s.note("t%zu: put %d -> %d", i, v, val);
                r.put(t, v, val);
                break;
            }
            case 1: {
                int v = (int) s.below(r.range), how = (int) s.below(3);
                s.note("t%zu: pop/detach/remove(%d) %d", i, how, v);
                r.pop(t, v, how);
                break;
            }
            case 2:
                s.note("t%zu: pop_first", i);
                r.pop_end(t, true);
                break;
            case 3:
                s.note("t%zu: pop_last", i);
                r.pop_end(t, false);
                break;
            case 4: {
                int v = (int) s.below(r.range);
                int n = (int) s.below(r.range), step = s.flip() ? 1 : -1;
                s.note("t%zu: put run from %d, %d elements, step %d", i, v, n, step);
                for (int k = 0; k < n; k++)
                    r.put(t, (((v + k * step) % r.range) + r.range) % r.range, 1);
                break;
            }
            case 5: {
                int v = (int) s.below(r.range);
                int n = (int) s.below(r.range), step = s.flip() ? 1 : -1, how = (int) s.below(3);
                s.note("t%zu: pop run from %d, %d elements, step %d, how %d", i, v, n, step, how);
                for (int k = 0; k < n; k++)
                    r.pop(t, (((v + k * step) % r.range) + r.range) % r.range, how);
                break;
            }
            case 6:
                if (r.trees.size() < 4) {
                    s.note("copy t%zu", i);
                    r.copy(i);
                    s.label("copy");
                }
                break;
            case 7:
                if (r.trees.size() > 1) {
                    s.note("destroy t%zu", i);
                    destroy_avl_tree(t.t);
                    r.trees.erase(r.trees.begin() + i);
                }
                break;
            case 8: {
                int v = (int) s.range(-1, r.range + 1);
                s.note("t%zu: lookups of %d", i, v);
                check_probe(r.w, t, v);
                break;
            }
            case 9:
                if (!r.loose.empty()) {
                    Loose l = r.loose.back();
                    s.note("destroy a loose element");
                    expect(l.e, &l.a, l.how, l.a.k->v);
                    destroy_avl_element(l.e);
                    r.loose.pop_back();
                }
                break;
            case 10: { // remove the element after/before a key through a neighbour lookup
                int v = (int) s.below(r.range);
                AKey probe = {v, -1, true};
                auto it = t.m.lower_bound(r.w.rank(v));
                avl_elem_t *e = avl_tree_get_on_or_after(t.t, &probe);
                s.note("t%zu: remove first on or after %d", i, v);
                expect(e, it == t.m.end() ? nullptr : &it->second, "get_on_or_after", v);
                if (e) {
                    avl_tree_remove(t.t, e);
                    t.m.erase(it);
                }
                break;
            }
        }
        s.check_pending();
        if (i < r.trees.size() && r.trees[i].m.size() < before)
            deletions++;
        for (Tree &x : r.trees) {
            if (x.m.size() > maxsize)
                maxsize = x.m.size();
            if (x.m.size() <= 24 || s.chance(1, 8))
                check_walk(x);
            else
                check_size(x);
        }
    }
    if (maxsize >= 4 && deletions >= 2)
        s.nontrivial();
    if (maxsize >= 16)
        s.label("tree of 16 or more");
    if (maxsize >= 64)
        s.label("tree of 64 or more");
    if (r.w.with_ctx)
        s.label("with context object");
    r.finish(true);
}

// few but large trees; bulk data from a derived generator
void grown(Src &s, int range, bool full)
{
    Run r(s);
    r.range = range;
    Rng g = s.bulk();
    r.trees.push_back({r.w.make(), {}});
    int phases = 1 + (int) s.below(5);
    for (int p = 0; p < phases; p++) {
        Tree &t = r.trees[0];
        int kind = (int) s.below(6), n = (int) s.size(r.range);
        if (full && p == 0) {
            kind = (int) s.below(3);
            n = r.range;
        }
        s.note("phase %d: %d operations over %d keys", kind, n, r.range);
        for (int k = 0; k < n; k++) {
            int v = (int) g.upto(r.range - 1);
            switch (kind) {
                case 0:
                    r.put(t, k % r.range, 1);
                    break;
                case 1:
                    r.put(t, r.range - 1 - k % r.range, 1);
                    break;
                case 2:
                    r.put(t, v, 1 + (int) g.upto(2));
                    break;
                case 3:
                    r.pop(t, v, (int) g.upto(2));
                    break;
                case 4:
                    if (g.p(3, 5))
                        r.put(t, v, 1 + (int) g.upto(2));
                    else
                        r.pop(t, v, (int) g.upto(2));
                    break;
                case 5:
                    r.pop_end(t, g.p(1, 2));
                    break;
            }
            if (g.p(1, 50))
                check_probe(r.w, t, (int) g.upto(r.range));
        }
        check_walk(t);
        s.check_pending();
        if (t.m.size() > 1000)
            s.label("tree over 1000");
        if (t.m.size() > 100)
            s.nontrivial();
    }
    if (s.flip())
        r.copy(0);
    for (int k = 0; k < 200; k++)
        check_probe(r.w, r.trees[0], (int) g.upto(r.range));
    r.finish(false);
}

void large(Src &s) { grown(s, 1 + (int) s.size(20000), false); }

// beyond 2^15 and 2^16 elements
void huge(Src &s)
{
    static const int ranges[] = {33000, 66000, 70000, 140000};
    grown(s, s.chance(1, 10) ? 600000 : s.pick(ranges), true);
}

// trees of a generated balanced shape (down to the sparsest), then removals
// and insertions in them
void shapes(Src &s)
{
    Run r(s);
    int height = 1 + (int) s.below(7);
    unsigned sparse = (unsigned) s.below(9);
    Rng g = s.bulk();
    AvlShape sh(g, height, sparse);
    r.trees.push_back({r.w.make(), {}});
    s.note("shape of height %d, sparse %u/8: %zu elements", height, sparse, sh.order.size());
    int n = (int) sh.order.size();
    bool down = r.w.ctx.kind == 3;
    r.range = 4 * n + 4;
    for (int k : sh.order)
        r.put(r.trees[0], down ? 4 * (n - k) : 4 * k, 1);
    unsigned dels = 0;
    while (s.more(8)) {
        size_t i = s.below(r.trees.size());
        Tree &t = r.trees[i];
        switch (s.below(6)) {
            case 0:
            case 1:
            case 2: {
                if (t.m.empty())
                    break;
                auto it = t.m.begin();
                std::advance(it, s.below(t.m.size()));
                int v = it->second.k->v, how = (int) s.below(3);
                s.note("t%zu: pop/detach/remove(%d) %d", i, how, v);
                r.pop(t, v, how);
                dels++;
                break;
            }
            case 3: {
                int v = (int) s.range(-4, 4 * n + 4), val = (int) s.below(4);
                s.note("t%zu: put %d -> %d", i, v, val);
                r.put(t, v, val);
                break;
            }
            case 4: {
                bool f = s.flip();
                s.note("t%zu: pop_%s", i, f ? "first" : "last");
                r.pop_end(t, f);
                dels++;
                break;
            }
            default:
                if (r.trees.size() < 3 && s.chance(1, 3)) {
                    s.note("copy t%zu", i);
                    r.copy(i);
                }
        }
        s.check_pending();
        for (Tree &x : r.trees)
            check_walk(x);
    }
    if (n >= 5 && dels)
        s.nontrivial();
    if (height >= 5 && sparse >= 5)
        s.label("sparse shape of height 5 or more");
    r.finish(n < 60);
}

// sparse trees up to a height of 27
void tall(Src &s)
{
    Run r(s);
    int height = 8 + (int) s.size(19);
    unsigned sparse = height < 14 ? (unsigned) s.below(9) : height < 18 ? 6 + (unsigned) s.below(3) : 8;
    int lean = (int) s.below(4);
    Rng g = s.bulk();
    AvlShape sh(g, height, sparse, lean);
    r.trees.push_back({r.w.make(), {}});
    int n = (int) sh.order.size();
    s.note("shape of height %d, sparse %u/8, lean %d: %d elements", height, sparse, lean, n);
    bool down = r.w.ctx.kind == 3;
    r.range = 4 * n + 4;
    for (int k : sh.order)
        r.put(r.trees[0], down ? 4 * (n - k) : 4 * k, 1);
    while (s.more(5)) {
        size_t i = s.below(r.trees.size());
        Tree &t = r.trees[i];
        switch (s.below(5)) {
            case 0: {
                if (t.m.empty())
                    break;
                auto it = t.m.lower_bound(down ? -(int) s.range(0, 4 * n) : (int) s.range(0, 4 * n));
                if (it == t.m.end())
                    --it;
                int v = it->second.k->v, how = (int) s.below(3);
                s.note("t%zu: pop/detach/remove(%d) %d", i, how, v);
                r.pop(t, v, how);
                break;
            }
            case 1: {
                int v = (int) s.range(-4, 4 * n + 4), val = (int) s.below(4);
                s.note("t%zu: put %d -> %d", i, v, val);
                r.put(t, v, val);
                break;
            }
            case 2:
            case 3: {
                bool f = s.flip();
                int k = 1 + (int) s.below(5);
                s.note("t%zu: %d times pop_%s", i, k, f ? "first" : "last");
                while (k--)
                    r.pop_end(t, f);
                break;
            }
            default:
                if (r.trees.size() < 2 && s.chance(1, 3)) {
                    s.note("copy t%zu", i);
                    r.copy(i);
                }
        }
        s.check_pending();
    }
    for (Tree &t : r.trees) {
        check_walk(t);
        for (int k = 0; k < 2000; k++)
            check_probe(r.w, t, (int) g.upto(4 * n + 5) - 2);
        check_probe(r.w, t, -1);
        check_probe(r.w, t, 4 * n + 4);
    }
    s.nontrivial();
    if (height >= 17)
        s.label("tree of height 17 or more");
    if (height >= 25)
        s.label("tree of height 25 or more");
    r.finish(false);
}

PROPERTY(C01,
         "A case is a history of put/pop/detach/remove/copy/destroy/lookup operations on up to four "
         "AVL trees (grown from empty or starting from a random balanced shape) checked against an "
         "ordered map after every step; non-trivial if a tree reached "
         "4 elements and at least 2 operations removed elements (large stage: over 100 elements).",
         {{"small", small, F_PROD | F_ASAN | F_FUZZ | F_ALLOC, 60000, 3000000, 5, 30000},
          {"shapes", shapes, F_PROD | F_ASAN | F_FUZZ | F_ALLOC, 60000, 2500000, 8, 10000},
          {"large", large, F_PROD | F_ASAN | F_ALLOC, 240, 8000, 8, 0},
          {"huge", huge, F_PROD, 16, 400, 1, 0},
          {"tall", tall, F_PROD, 200, 4000, 1, 0}});
} // namespace
