#include "pbt.hpp"
#include <fsdyn/hashtable.h>
#include <limits.h>
#include <map>
#include <memory>
#include <set>
using namespace pbt;

namespace {

struct HKey {
    int v;
    int serial;
};

thread_local int hash_kind, cmp_kind;
thread_local uint64_t hash_salt;
CaseState keep1(&hash_kind, sizeof hash_kind), keep2(&cmp_kind, sizeof cmp_kind), keep3(&hash_salt, sizeof hash_salt);

uint64_t mix(uint64_t z)
{
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

uint64_t the_hash(const void *p)
{
    yield_point();
    uint64_t v = (uint64_t) ((const HKey *) p)->v;
    switch (hash_kind) {
        case 0:
            return v;
        case 1:
            return hash_salt; // everything collides
        case 2:
            return v % 3 + hash_salt;
        case 3:
            return v << 32 | (hash_salt & 1);
        case 4:
            return UINT64_MAX - v;
        case 5:
            return v * 53 * 97; // equal modulo the small capacities
        case 6:
            return (v & 1) ? 52 : UINT64_MAX;
        case 7:
            return mix(v + hash_salt);
        default:
            return (v / 4) * 53 + 52; // groups in the last bucket
    }
}

int the_cmp(const void *a, const void *b)
{
    yield_point();
    int x = ((const HKey *) a)->v, y = ((const HKey *) b)->v;
    if (x == y)
        return 0;
    switch (cmp_kind) {
        case 0:
            return x < y ? -1 : 1;
        case 1:
            return 1;
        case 2:
            return -1;
        case 3:
            return x < y ? INT_MIN : 256;
        default:
            return x - y;
    }
}

char values[64];
const void *value(int i) { return i == 0 ? nullptr : &values[i]; }
int value_no(const void *p) { return p ? (int) ((const char *) p - values) : 0; }

struct Assoc {
    const HKey *k;
    const void *v;
};
typedef std::map<int, Assoc> Model;

struct Loose {
    hash_elem_t *e;
    Assoc a;
};

std::string sh(const Assoc &a)
{
    return fmt("key %d#%d value %d", a.k->v, a.k->serial, value_no(a.v));
}

void expect(hash_elem_t *e, const Assoc *a, const char *what, int arg)
{
    if (!a) {
        REQUIRE(!e, "%s(%d) returned an element where none is expected", what, arg);
        return;
    }
    REQUIRE(e, "%s(%d) returned NULL, expected %s", what, arg, sh(*a).c_str());
    REQUIRE(hash_elem_get_key(e) == a->k, "%s(%d) returned a wrong key object, expected %s", what, arg,
            sh(*a).c_str());
    REQUIRE(hash_elem_get_value(e) == a->v, "%s(%d) returned a wrong value, expected %s", what, arg,
            sh(*a).c_str());
}

struct Run {
    Src &s;
    std::vector<std::unique_ptr<HKey>> keys;
    struct T {
        hash_table_t *t;
        Model m;
    };
    std::vector<T> ts;
    std::vector<Loose> loose;
    int range = 1;
    explicit Run(Src &src) : s(src)
    {
        hash_kind = (int) s.below(9);
        cmp_kind = (int) s.below(5);
        hash_salt = s.u64();
        s.note("hash kind %d (salt %llu), comparator kind %d", hash_kind,
               (unsigned long long) hash_salt, cmp_kind);
    }
    void make(size_t capacity)
    {
        s.note("make table with capacity %zu", capacity);
        ts.push_back({make_hash_table(capacity, the_hash, the_cmp), {}});
        REQUIRE(ts.back().t, "make_hash_table returned NULL");
        check(ts.back());
    }
    void check_size(T &t)
    {
        REQUIRE(hash_table_size(t.t) == t.m.size(), "size is %zu, expected %zu", hash_table_size(t.t),
                t.m.size());
        REQUIRE(!hash_table_empty(t.t) == !t.m.empty(), "empty is %d with %zu elements",
                hash_table_empty(t.t), t.m.size());
    }
    void check(T &t)
    {
        check_size(t);
        std::set<int> seen;
        size_t steps = 0;
        for (hash_elem_t *e = hash_table_get_any(t.t); e; e = hash_table_get_other(e)) {
            REQUIRE(++steps <= t.m.size(), "traversal yields more than the %zu elements", t.m.size());
            const HKey *k = (const HKey *) hash_elem_get_key(e);
            auto it = t.m.find(k->v);
            REQUIRE(it != t.m.end(), "traversal yields key %d, not in the table", k->v);
            expect(e, &it->second, "traversal", k->v);
            REQUIRE(seen.insert(k->v).second, "traversal yields key %d twice", k->v);
        }
        REQUIRE(steps == t.m.size(), "traversal yields %zu elements, expected %zu", steps, t.m.size());
    }
    void lookup(T &t, int v)
    {
        HKey probe = {v, -1};
        auto it = t.m.find(v);
        expect(hash_table_get(t.t, &probe), it == t.m.end() ? nullptr : &it->second, "get", v);
    }
    void keep(hash_elem_t *e, const Assoc &a, const char *what)
    {
        expect(e, &a, what, a.k->v);
        loose.push_back({e, a});
    }
    void put(T &t, int v, int val)
    {
        keys.emplace_back(new HKey{v, (int) keys.size()});
        HKey *k = keys.back().get();
        hash_elem_t *old = hash_table_put(t.t, k, value(val));
        auto it = t.m.find(v);
        if (it == t.m.end()) {
            expect(old, nullptr, "put", v);
            t.m[v] = {k, value(val)};
        } else if (it->second.v == value(val)) {
            expect(old, nullptr, "put of the same value", v);
            s.label("put of the value already stored");
        } else {
            keep(old, it->second, "put (replaced)");
            it->second = {k, value(val)};
            s.label("put replacing a value");
        }
    }
    void del(T &t, int v, int how)
    {
        HKey probe = {v, -1};
        auto it = t.m.find(v);
        if (how == 0) {
            hash_elem_t *e = hash_table_pop(t.t, &probe);
            if (it == t.m.end())
                expect(e, nullptr, "pop", v);
            else {
                keep(e, it->second, "pop");
                t.m.erase(it);
            }
            return;
        }
        hash_elem_t *e = hash_table_get(t.t, &probe);
        expect(e, it == t.m.end() ? nullptr : &it->second, "get", v);
        if (!e)
            return;
        if (how == 1) {
            hash_table_detach(t.t, e);
            keep(e, it->second, "detach");
        } else
            hash_table_remove(t.t, e);
        t.m.erase(it);
    }
    void pop_any(T &t)
    {
        hash_elem_t *e = hash_table_pop_any(t.t);
        if (t.m.empty()) {
            expect(e, nullptr, "pop_any", 0);
            return;
        }
        REQUIRE(e, "pop_any returned NULL with %zu elements", t.m.size());
        int v = ((const HKey *) hash_elem_get_key(e))->v;
        auto it = t.m.find(v);
        REQUIRE(it != t.m.end(), "pop_any returned key %d, not in the table", v);
        keep(e, it->second, "pop_any");
        t.m.erase(it);
    }
    bool scanning = false;
    void finish()
    {
        while (!ts.empty()) {
            size_t i = s.below(ts.size());
            T &t = ts[i];
            check(t);
            if (t.m.size() <= 500)
                for (int v = -1; v <= range; v++)
                    lookup(t, v);
            if (s.chance(1, 3)) {
                s.note("drain t%zu", i);
                // (pop_any scans the buckets from the first)
                for (size_t k = 0; !t.m.empty() && (!scanning || k < 1000); k++)
                    pop_any(t);
                if (t.m.empty())
                    pop_any(t);
                check(t);
            }
            destroy_hash_table(t.t);
            ts.erase(ts.begin() + i);
        }
        for (Loose &l : loose) {
            expect(l.e, &l.a, "orphaned element", l.a.k->v);
            destroy_hash_element(l.e);
        }
        loose.clear();
    }
};

void small(Src &s)
{
    Run r(s);
    static const int ranges[] = {4, 10, 40, 150};
    static const std::vector<uint64_t> caps = {53, 97, 193, 389, 769};
    r.range = s.pick(ranges);
    std::vector<unsigned> weights;
    for (int i = 0; i < 9; i++)
        weights.push_back(s.chance(3, 4) ? 1 + s.below(8) : 0);
    weights[0] += 4;
    r.make(s.size_near(800, caps));
    size_t maxsize = 0, dels = 0;
    bool collided = false;
    while (s.more(50)) {
        size_t i = s.below(r.ts.size());
        Run::T &t = r.ts[i];
        size_t before = t.m.size();
        switch (s.weighted(weights)) {
            case 0: {
                int v = (int) s.below(r.range), val = (int) s.below(4);
                s.note("t%zu: put %d -> %d", i, v, val);
                r.put(t, v, val);
                break;
            }
            case 1: {
                int v = (int) s.below(r.range), how = (int) s.below(3);
                s.note("t%zu: pop/detach/remove(%d) %d", i, how, v);
                r.del(t, v, how);
                break;
            }
            case 2:
                s.note("t%zu: pop_any", i);
                r.pop_any(t);
                break;
            case 3: {
                int v = (int) s.below(r.range), n = (int) s.below(r.range);
                s.note("t%zu: put run from %d, %d elements", i, v, n);
                for (int k = 0; k < n; k++)
                    r.put(t, (v + k) % r.range, 1);
                break;
            }
            case 4: {
                int v = (int) s.below(r.range), n = (int) s.below(r.range), how = (int) s.below(3);
                s.note("t%zu: removal run from %d, %d elements, how %d", i, v, n, how);
                for (int k = 0; k < n; k++)
                    r.del(t, (v + k) % r.range, how);
                break;
            }
            case 5: {
                int v = (int) s.range(-1, r.range);
                s.note("t%zu: get %d", i, v);
                r.lookup(t, v);
                break;
            }
            case 6:
                if (r.ts.size() < 3)
                    r.make(s.size_near(800, caps));
                break;
            case 7: // remove an element met in a traversal
                if (!t.m.empty()) {
                    size_t steps = s.below(t.m.size());
                    s.note("t%zu: remove element %zu of the traversal", i, steps);
                    hash_elem_t *e = hash_table_get_any(t.t);
                    while (e && steps--)
                        e = hash_table_get_other(e);
                    REQUIRE(e, "traversal ended early");
                    int v = ((const HKey *) hash_elem_get_key(e))->v;
                    auto it = t.m.find(v);
                    REQUIRE(it != t.m.end(), "traversal yields key %d, not in the table", v);
                    expect(e, &it->second, "traversal", v);
                    if (s.flip()) {
                        hash_table_detach(t.t, e);
                        r.keep(e, it->second, "detach");
                    } else
                        hash_table_remove(t.t, e);
                    t.m.erase(it);
                }
                break;
            case 8:
                if (!r.loose.empty()) {
                    Loose l = r.loose.back();
                    s.note("destroy an orphaned element");
                    expect(l.e, &l.a, "orphaned element", l.a.k->v);
                    destroy_hash_element(l.e);
                    r.loose.pop_back();
                }
                break;
        }
        if (i < r.ts.size() && r.ts[i].m.size() < before)
            dels++;
        for (Run::T &x : r.ts) {
            if (x.m.size() > maxsize)
                maxsize = x.m.size();
            if (s.chance(1, 3))
                r.check(x);
            else
                r.check_size(x);
            if (x.m.size() >= 2 && (hash_kind == 1 || hash_kind == 2 || hash_kind == 6))
                collided = true;
        }
    }
    if (maxsize >= 3 && dels)
        s.nontrivial();
    if (collided)
        s.label("colliding hashes");
    if (maxsize > 53)
        s.label("more elements than the smallest capacity");
    r.finish();
}

void grown(Src &s, int range, bool full)
{
    Run r(s);
    r.range = range;
    // a constant hash would make this quadratic
    if (hash_kind == 1 || hash_kind == 2 || hash_kind == 6)
        hash_kind = 7;
    static const size_t capacities[] = {1000, 30000, 70000, 300000};
    r.make(!full ? s.size(20000) : range > 200000 ? 300000 + 100000 * s.below(20) : s.pick(capacities));
    if (full)
        hash_kind = s.flip() ? 7 : 0;
    r.scanning = full;
    Rng g = s.bulk();
    int phases = 1 + (int) s.below(4);
    for (int p = 0; p < phases; p++) {
        Run::T &t = r.ts[0];
        int kind = (int) s.below(4), n = (int) s.size(r.range);
        if (full && p == 0) {
            kind = (int) s.below(2);
            n = r.range;
        }
        s.note("phase %d: %d operations over %d keys", kind, n, r.range);
        for (int k = 0; k < n; k++) {
            int v = (int) g.upto(r.range - 1);
            switch (kind) {
                case 0:
                    r.put(t, k % r.range, 1);
                    break;
                case 1:
                    r.put(t, v, 1 + (int) g.upto(2));
                    break;
                case 2:
                    r.del(t, v, (int) g.upto(2));
                    break;
                case 3:
                    if (g.p(1, 2))
                        r.put(t, v, 1 + (int) g.upto(2));
                    else
                        r.del(t, v, (int) g.upto(2));
                    break;
            }
        }
        r.check(t);
        if (t.m.size() > 60)
            s.nontrivial();
    }
    for (int k = 0; k < 100; k++)
        r.lookup(r.ts[0], (int) g.upto(r.range));
    r.finish();
}

void large(Src &s) { grown(s, 1 + (int) s.size(6000), false); }

// beyond 2^15 and 2^16 elements
void huge(Src &s)
{
    static const int ranges[] = {33000, 66000, 140000};
    grown(s, s.chance(1, 8) ? 1100000 : s.pick(ranges), true);
}

PROPERTY(C03,
         "A case is a history of put/pop/detach/remove/pop_any/traversal operations on up to three "
         "hash tables with nine hash functions (most of them colliding) checked against a map; "
         "non-trivial if a table reached 3 elements and elements were removed (large: over 60).",
         {{"small", small, F_PROD | F_ASAN | F_FUZZ | F_ALLOC, 160000, 3000000, 5, 40000},
          {"large", large, F_PROD | F_ASAN | F_ALLOC, 800, 10000, 8, 0},
          {"huge", huge, F_PROD, 16, 300, 1, 0}});
} // namespace
