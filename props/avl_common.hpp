// Shared by the AVL tree properties.
#pragma once
#include "pbt.hpp"
#include <fsdyn/avltree.h>
#include <limits.h>
#include <map>
#include <memory>
#include <vector>
using namespace pbt;

struct AKey {
    int v;
    int serial;
    bool probe;
};

// Comparator variants: all obey the memcmp sign convention, with various
// magnitudes; kind 3 orders descending.
struct AvlCtx {
    int kind = 0;
    Src *s = nullptr;
    uint64_t compares = 0;
    bool logging = false;
    std::vector<const AKey *> log;
};
inline thread_local AvlCtx *avl_global; // for comparators without a context
static CaseState keep_avl_global(&avl_global, sizeof avl_global);

static inline int avl_sign(int kind, int a, int b)
{
    if (a == b)
        return 0;
    switch (kind) {
        case 0:
            return a < b ? -1 : 1;
        case 1:
            return a - b; // keys are small enough
        case 2:
            return a < b ? INT_MIN : INT_MAX;
        case 3:
            return a < b ? 1 : -1;
        default:
            return a < b ? -256 : 256; // low byte zero
    }
}

static inline int avl_do_cmp(AvlCtx *c, const void *a, const void *b)
{
    const AKey *x = (const AKey *) a, *y = (const AKey *) b;
    yield_point();
    c->compares++;
    if (c->logging)
        c->log.push_back(x->probe ? y : x);
    return avl_sign(c->kind, x->v, y->v);
}

static int avl_cmp3(const void *a, const void *b, void *obj)
{
    if (obj != avl_global && avl_global && avl_global->s)
        avl_global->s->later("comparator called with a wrong context object");
    return avl_do_cmp(avl_global, a, b);
}

static int avl_cmp2(const void *a, const void *b) { return avl_do_cmp(avl_global, a, b); }

struct AvlWorld {
    Src &s;
    AvlCtx ctx;
    bool with_ctx;
    std::vector<std::unique_ptr<AKey>> keys;
    AvlWorld(Src &src) : s(src)
    {
        ctx.s = &s;
        avl_global = &ctx;
        ctx.kind = (int) s.below(5);
        with_ctx = s.flip();
        s.note("comparator kind %d, %s context", ctx.kind, with_ctx ? "with" : "without");
    }
    ~AvlWorld() { avl_global = nullptr; }
    AKey *key(int v, bool probe = false)
    {
        keys.emplace_back(new AKey{v, (int) keys.size(), probe});
        return keys.back().get();
    }
    avl_tree_t *make()
    {
        return with_ctx ? make_avl_tree_2(avl_cmp3, &ctx) : make_avl_tree(avl_cmp2);
    }
    // key order as the comparator sees it
    int rank(int v) const { return ctx.kind == 3 ? -v : v; }
};

static char avl_values[64]; // value objects: addresses only
static inline const void *avl_value(int i) { return i == 0 ? nullptr : &avl_values[i]; }
static inline int avl_value_no(const void *p) { return p ? (int) ((const char *) p - avl_values) : 0; }

// A random height-balanced shape of the given height (sparse with
// probability num/8 at each node), as keys 0..n-1 in level order: inserting
// them in that order builds exactly that shape without rebalancing, so the
// minimal (Fibonacci) trees whose deletions cascade are reached directly.
struct AvlShape {
    std::vector<int> order;
    std::vector<std::pair<int, int>> nodes; // (depth, key)
    int next = 0;
    int lean = 0;       // which subtree is the shallower one: 0 either, 1 left, 2 right, 3 in turn
    void grow(Rng &g, int height, int depth, unsigned sparse)
    {
        if (height <= 0)
            return;
        int lo = height - 1, hi = height - 1;
        if (g.p(sparse, 8)) {
            if (lean == 3 ? depth % 2 == 0 : lean ? lean == 1 : g.p(1, 2))
                lo--;
            else
                hi--;
        }
        grow(g, lo, depth + 1, sparse);
        nodes.emplace_back(depth, next++);
        grow(g, hi, depth + 1, sparse);
    }
    AvlShape(Rng &g, int height, unsigned sparse, int lean_ = 0) : lean(lean_)
    {
        grow(g, height, 0, sparse);
        std::vector<std::vector<int>> levels(height);
        for (auto &n : nodes)
            levels[n.first].push_back(n.second);
        for (auto &l : levels)
            order.insert(order.end(), l.begin(), l.end());
    }
};
