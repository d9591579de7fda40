#include "avl_common.hpp"
#include <math.h>
#include <set>
#include <algorithm>

namespace {

struct Shape {
    struct Node {
        const AKey *key;
        int left, right, height;
    };
    std::vector<Node> nodes;
    std::map<const AKey *, int> index;
};

int height_of(Shape &sh, int i)
{
    if (i < 0)
        return 0;
    Shape::Node &n = sh.nodes[i];
    int l = height_of(sh, n.left), r = height_of(sh, n.right);
    REQUIRE(abs(l - r) <= 1,
            "unbalanced at the node of key %d: subtree heights %d and %d (%zu elements)", n.key->v, l,
            r, sh.nodes.size());
    return n.height = 1 + (l > r ? l : r);
}

// The search path of every key, as seen by the comparator, must be the path
// in one binary search tree, which must be height-balanced.
void check_balance(AvlWorld &w, avl_tree_t *t, const std::map<int, const AKey *> &m, Src &s)
{
    size_t n = m.size();
    size_t bound = (size_t) (1.4405 * log2((double) n + 2)) + 2;
    Shape sh;
    bool consistent = true;
    std::vector<std::vector<const AKey *>> paths;
    for (auto &kv : m) {
        AKey probe = {kv.second->v, -1, true};
        w.ctx.log.clear();
        w.ctx.logging = true;
        avl_elem_t *e = avl_tree_get(t, &probe);
        w.ctx.logging = false;
        REQUIRE(e && avl_elem_get_key(e) == kv.second, "get(%d) does not find the stored key",
                probe.v);
        std::vector<const AKey *> path;
        for (const AKey *k : w.ctx.log) {
            if (std::find(path.begin(), path.end(), k) == path.end())
                path.push_back(k);
        }
        // (distinct elements compared with; repeated comparisons with one
        // element do not count)
        REQUIRE(path.size() <= bound, "get(%d) compared with %zu elements of %zu (at most %zu expected)",
                probe.v, path.size(), n, bound);
        auto at = std::find(path.begin(), path.end(), kv.second);
        if (at == path.end())
            consistent = false; // found without a comparison: cannot tell the shape
        else
            path.erase(at + 1, path.end());
        paths.push_back(path);
    }
    if (consistent) {
        // each node's parent is the last but one on its path
        std::map<const AKey *, const std::vector<const AKey *> *> by;
        size_t i = 0;
        for (auto &kv : m)
            by[kv.second] = &paths[i++];
        for (auto &kv : m) {
            sh.index[kv.second] = (int) sh.nodes.size();
            sh.nodes.push_back({kv.second, -1, -1, 0});
        }
        int root = -1;
        for (auto &p : paths) {
            int me = sh.index[p.back()];
            if (p.size() == 1) {
                if (root >= 0)
                    consistent = false;
                root = me;
                continue;
            }
            auto it = by.find(p[p.size() - 2]);
            if (it == by.end() || it->second->size() + 1 != p.size() ||
                !std::equal(it->second->begin(), it->second->end(), p.begin())) {
                consistent = false;
                continue;
            }
            int par = sh.index[it->first];
            // nodes are numbered in key order
            int &side = me < par ? sh.nodes[par].left : sh.nodes[par].right;
            if (side >= 0)
                consistent = false;
            side = me;
        }
        if (n && root < 0)
            consistent = false;
        if (consistent && n) {
            height_of(sh, root);
            s.label("tree shapes checked");
        }
    }
    if (!consistent)
        s.label("shape not visible; only comparison counts checked");
    // absent keys too
    for (int k = 0; k < 4 && n; k++) {
        auto it = m.begin();
        std::advance(it, s.mode == Src::RANDOM ? (n * k / 4) : 0);
        AKey probe = {it->second->v * 1 + 1000003 * (k % 2 ? 1 : -1), -1, true};
        w.ctx.log.clear();
        w.ctx.logging = true;
        avl_tree_get(t, &probe);
        w.ctx.logging = false;
        std::set<const AKey *> d(w.ctx.log.begin(), w.ctx.log.end());
        REQUIRE(d.size() <= bound, "get of an absent key compared with %zu elements of %zu", d.size(), n);
    }
}

struct Run {
    AvlWorld w;
    struct T {
        avl_tree_t *t;
        std::map<int, const AKey *> m;
    };
    std::vector<T> ts;
    explicit Run(Src &s) : w(s) {}
    ~Run() {}
    void put(T &t, int v, int val)
    {
        AKey *k = w.key(v);
        avl_elem_t *old = avl_tree_put(t.t, k, avl_value(val));
        if (old)
            destroy_avl_element(old);
        // whichever key object the tree keeps is C01's business
        avl_elem_t *e = avl_tree_get(t.t, k);
        REQUIRE(e, "get(%d) fails right after put", v);
        t.m[w.rank(v)] = (const AKey *) avl_elem_get_key(e);
    }
    void del(T &t, int v, int how)
    {
        AKey probe = {v, -1, true};
        if (how == 0) {
            avl_elem_t *e = avl_tree_pop(t.t, &probe);
            if (e)
                destroy_avl_element(e);
        } else {
            avl_elem_t *e = avl_tree_get(t.t, &probe);
            if (e && how == 1) {
                avl_tree_detach(t.t, e);
                destroy_avl_element(e);
            } else if (e)
                avl_tree_remove(t.t, e);
        }
        t.m.erase(w.rank(v));
    }
    void end(T &t, bool first)
    {
        avl_elem_t *e = first ? avl_tree_pop_first(t.t) : avl_tree_pop_last(t.t);
        if (!t.m.empty()) {
            if (first)
                t.m.erase(t.m.begin());
            else
                t.m.erase(std::prev(t.m.end()));
        }
        if (e)
            destroy_avl_element(e);
    }
    void check(Src &s)
    {
        for (T &t : ts)
            check_balance(w, t.t, t.m, s);
    }
    void finish()
    {
        for (T &t : ts)
            destroy_avl_tree(t.t);
    }
};

void history(Src &s)
{
    Run r(s);
    static const int ranges[] = {5, 9, 16, 34, 80};
    int range = s.pick(ranges);
    std::vector<unsigned> weights;
    for (int i = 0; i < 6; i++)
        weights.push_back(s.chance(3, 4) ? 1 + s.below(6) : 0);
    weights[0] += 5;
    r.ts.push_back({r.w.make(), {}});
    size_t maxsize = 0, dels = 0;
    while (s.more(50)) {
        size_t i = s.below(r.ts.size());
        Run::T &t = r.ts[i];
        size_t before = t.m.size();
        switch (s.weighted(weights)) {
            case 0: {
                int v = (int) s.below(range), val = (int) s.below(3);
                s.note("t%zu: put %d -> %d", i, v, val);
                r.put(t, v, val);
                break;
            }
            case 1: {
                int v = (int) s.below(range), how = (int) s.below(3);
                s.note("t%zu: pop/detach/remove(%d) %d", i, how, v);
                r.del(t, v, how);
                break;
            }
            case 2: {
                bool f = s.flip();
                s.note("t%zu: pop_%s", i, f ? "first" : "last");
                r.end(t, f);
                break;
            }
            case 3: {
                int v = (int) s.below(range), n = (int) s.below(range), step = s.flip() ? 1 : -1;
                s.note("t%zu: put run from %d, %d elements, step %d", i, v, n, step);
                for (int k = 0; k < n; k++)
                    r.put(t, (((v + k * step) % range) + range) % range, 1);
                break;
            }
            case 4: {
                int v = (int) s.below(range), n = (int) s.below(range / 2), step = s.flip() ? 1 : -1;
                s.note("t%zu: remove run from %d, %d elements, step %d", i, v, n, step);
                for (int k = 0; k < n; k++)
                    r.del(t, (((v + k * step) % range) + range) % range, k % 3);
                break;
            }
            case 5:
                if (r.ts.size() < 3) {
                    s.note("copy t%zu", i);
                    avl_tree_t *c = avl_tree_copy(t.t);
                    auto m = t.m;
                    r.ts.push_back({c, m});
                }
                break;
        }
        s.check_pending();
        Run::T &u = r.ts[i];
        if (u.m.size() < before)
            dels++;
        if (u.m.size() > maxsize)
            maxsize = u.m.size();
        check_balance(r.w, u.t, u.m, s);
    }
    r.check(s);
    if (maxsize >= 5 && dels)
        s.nontrivial();
    r.finish();
}

// start from an arbitrary balanced shape (down to the minimal ones), then
// insert and remove with a check after every step
void shapes(Src &s)
{
    Run r(s);
    int height = 1 + (int) s.below(7);
    unsigned sparse = (unsigned) s.below(9);
    Rng g = s.bulk();
    AvlShape sh(g, height, sparse);
    r.ts.push_back({r.w.make(), {}});
    Run::T &t = r.ts[0];
    // leave room between the keys
    s.note("shape of height %d, sparse %u/8: %zu elements", height, sparse, sh.order.size());
    for (int k : sh.order)
        r.put(t, r.w.ctx.kind == 3 ? -4 * k : 4 * k, 1);
    check_balance(r.w, t.t, t.m, s);
    int n = (int) sh.order.size();
    unsigned dels = 0;
    while (s.more(8)) {
        switch (s.below(4)) {
            case 0:
            case 1: {
                if (t.m.empty())
                    break;
                auto it = t.m.begin();
                std::advance(it, s.below(t.m.size()));
                int v = it->second->v, how = (int) s.below(3);
                s.note("remove(%d) %d", how, v);
                r.del(t, v, how);
                dels++;
                break;
            }
            case 2: {
                int v = (int) s.range(-4, 4 * n + 4);
                if (r.w.ctx.kind == 3)
                    v = -v;
                s.note("put %d", v);
                r.put(t, v, 1);
                break;
            }
            case 3: {
                bool f = s.flip();
                s.note("pop_%s", f ? "first" : "last");
                r.end(t, f);
                dels++;
                break;
            }
        }
        s.check_pending();
        check_balance(r.w, t.t, t.m, s);
    }
    if (n >= 5 && dels)
        s.nontrivial();
    if (height >= 5 && sparse >= 5)
        s.label("sparse shape of height 5 or more");
    if (s.flip()) {
        s.note("copy");
        avl_tree_t *c = avl_tree_copy(t.t);
        check_balance(r.w, c, t.m, s);
        destroy_avl_tree(c);
    }
    r.finish();
}

void grown(Src &s, int range, bool full)
{
    Run r(s);
    Rng g = s.bulk();
    r.ts.push_back({r.w.make(), {}});
    int phases = 1 + (int) s.below(4);
    for (int p = 0; p < phases; p++) {
        Run::T &t = r.ts[0];
        int kind = (int) s.below(6), n = 1 + (int) s.size(range);
        if (full && p == 0) {
            kind = (int) s.below(3);
            n = range;
        }
        s.note("phase %d: %d operations over %d keys", kind, n, range);
        for (int k = 0; k < n; k++) {
            int v = (int) g.upto(range - 1);
            switch (kind) {
                case 0:
                    r.put(t, k % range, 1);
                    break;
                case 1:
                    r.put(t, range - 1 - k % range, 1);
                    break;
                case 2:
                    r.put(t, v, 1);
                    break;
                case 3:
                    r.del(t, v, k % 3);
                    break;
                case 4:
                    if (g.p(1, 2))
                        r.put(t, v, 1);
                    else
                        r.del(t, v, k % 3);
                    break;
                case 5:
                    r.end(t, g.p(7, 8));
                    break;
            }
        }
        s.check_pending();
        r.check(s);
        if (t.m.size() > 100)
            s.nontrivial();
    }
    r.finish();
}

void large(Src &s) { grown(s, 200 + (int) s.size(12000), false); }

// beyond 2^15 and 2^16 elements
void huge(Src &s)
{
    static const int ranges[] = {33000, 66000, 140000};
    grown(s, s.chance(1, 10) ? 600000 : s.pick(ranges), true);
}

// The same judgement at a lower price for trees of up to a million elements:
// each element's parent is the last but one element its lookup compares with.
void check_balance_fast(AvlWorld &w, avl_tree_t *t, const std::map<int, const AKey *> &m, Src &s)
{
    size_t n = m.size();
    size_t bound = (size_t) (1.4405 * log2((double) n + 2)) + 2;
    std::vector<const AKey *> keys;
    std::vector<int> depth, left(n, -1), right(n, -1), height(n, 0);
    for (auto &kv : m)
        keys.push_back(kv.second);
    auto index = [&](const AKey *k) {
        auto it = std::lower_bound(keys.begin(), keys.end(), k,
                                   [&](const AKey *a, const AKey *b) { return w.rank(a->v) < w.rank(b->v); });
        return it != keys.end() && *it == k ? (int) (it - keys.begin()) : -1;
    };
    bool consistent = true;
    int root = -1;
    for (size_t i = 0; i < n; i++) {
        AKey probe = {keys[i]->v, -1, true};
        auto &log = w.ctx.log;
        log.clear();
        w.ctx.logging = true;
        avl_elem_t *e = avl_tree_get(t, &probe);
        w.ctx.logging = false;
        REQUIRE(e && avl_elem_get_key(e) == keys[i], "get(%d) does not find the stored key", probe.v);
        log.erase(std::unique(log.begin(), log.end()), log.end());
        if (log.size() > bound) {
            std::set<const AKey *> d(log.begin(), log.end());
            REQUIRE(d.size() <= bound, "get(%d) compared with %zu elements of %zu (at most %zu expected)", probe.v,
                    d.size(), n, bound);
        }
        depth.push_back((int) log.size());
        if (!consistent || log.empty() || log.back() != keys[i]) {
            consistent = false;
            continue;
        }
        if (log.size() == 1) {
            consistent = consistent && root < 0;
            root = (int) i;
            continue;
        }
        int par = index(log[log.size() - 2]);
        int *side = par < 0 ? nullptr : (int) i < par ? &left[par] : &right[par];
        if (!side || *side >= 0)
            consistent = false;
        else
            *side = (int) i;
    }
    if (n && root < 0)
        consistent = false;
    if (consistent && n) {
        std::vector<int> order{root};
        for (size_t i = 0; i < order.size(); i++)
            for (int c : {left[order[i]], right[order[i]]})
                if (c >= 0) {
                    if (depth[c] != depth[order[i]] + 1)
                        consistent = false;
                    order.push_back(c);
                }
        if (order.size() != n)
            consistent = false;
        for (size_t k = order.size(); consistent && k--;) {
            int i = order[k];
            int l = left[i] < 0 ? 0 : height[left[i]], r = right[i] < 0 ? 0 : height[right[i]];
            REQUIRE(abs(l - r) <= 1, "unbalanced at the node of key %d: subtree heights %d and %d (%zu elements)",
                    keys[i]->v, l, r, n);
            height[i] = 1 + std::max(l, r);
        }
        if (consistent)
            s.label("shapes of tall trees checked");
    }
    if (!consistent)
        s.label("shape not visible; only comparison counts checked");
}

// sparse trees up to a height of 27: removals whose rotations go up all the way
void tall(Src &s)
{
    Run r(s);
    int height = 8 + (int) s.size(19);
    unsigned sparse = height < 14 ? (unsigned) s.below(9) : height < 18 ? 6 + (unsigned) s.below(3) : 8;
    int lean = (int) s.below(4);
    Rng g = s.bulk();
    AvlShape sh(g, height, sparse, lean);
    r.ts.push_back({r.w.make(), {}});
    Run::T &t = r.ts[0];
    int n = (int) sh.order.size();
    s.note("shape of height %d, sparse %u/8, lean %d: %d elements", height, sparse, lean, n);
    for (int k : sh.order)
        r.put(t, r.w.ctx.kind == 3 ? -4 * k : 4 * k, 1);
    check_balance_fast(r.w, t.t, t.m, s);
    while (s.more(4)) {
        switch (s.below(4)) {
            case 0: {
                if (t.m.empty())
                    break;
                // near a generated position
                auto it = t.m.lower_bound((int) s.range(0, 4 * n));
                if (it == t.m.end())
                    --it;
                int v = it->second->v, how = (int) s.below(3);
                s.note("remove(%d) %d", how, v);
                r.del(t, v, how);
                break;
            }
            case 1: {
                int v = (int) s.range(-4, 4 * n + 4);
                if (r.w.ctx.kind == 3)
                    v = -v;
                s.note("put %d", v);
                r.put(t, v, 1);
                break;
            }
            default: {
                bool f = s.flip();
                int k = 1 + (int) s.below(4);
                s.note("%d times pop_%s", k, f ? "first" : "last");
                while (k--)
                    r.end(t, f);
            }
        }
        s.check_pending();
        check_balance_fast(r.w, t.t, t.m, s);
    }
    s.nontrivial();
    if (height >= 17)
        s.label("tree of height 17 or more");
    if (height >= 25)
        s.label("tree of height 25 or more");
    r.finish();
}

PROPERTY(C02,
         "A case is a history of insertions and removals (from scratch, or from a random or minimal "
         "balanced shape) with the tree shape reconstructed from comparator calls after every step; "
         "non-trivial if a tree had 5 or more elements and elements were removed (large: over 100).",
         {{"history", history, F_PROD | F_ASAN | F_FUZZ | F_ALLOC, 40000, 2000000, 8, 12000},
          {"shapes", shapes, F_PROD | F_ASAN | F_FUZZ | F_ALLOC, 60000, 2500000, 8, 12000},
          {"large", large, F_PROD, 300, 6000, 1, 0},
          {"huge", huge, F_PROD, 16, 300, 1, 0},
          {"tall", tall, F_PROD, 200, 4000, 1, 0}});
} // namespace
