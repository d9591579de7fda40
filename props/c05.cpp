#include "pbt.hpp"
#include <fsdyn/list.h>
#include <limits.h>
using namespace pbt;

namespace {
char values[16];
const void *value(int i) { return i == 0 ? nullptr : &values[i]; }
int value_no(const void *p) { return p ? (int) ((const char *) p - values) : 0; }

struct Item {
    list_elem_t *e;
    const void *v;
};

struct L {
    list_t *l;
    std::vector<Item> m;
};

struct Visit {
    std::vector<const void *> seen;
};

void visit(const void *v, void *arg) { ((Visit *) arg)->seen.push_back(v); }

void check_ends(L &x)
{
    REQUIRE(list_size(x.l) == x.m.size(), "size is %zu, expected %zu", list_size(x.l), x.m.size());
    REQUIRE(!list_empty(x.l) == !x.m.empty(), "empty is %d with %zu elements", list_empty(x.l), x.m.size());
    list_elem_t *f = list_get_first(x.l), *l = list_get_last(x.l);
    REQUIRE(f == (x.m.empty() ? nullptr : x.m.front().e), "get_first is wrong");
    REQUIRE(l == (x.m.empty() ? nullptr : x.m.back().e), "get_last is wrong");
}

void check(L &x)
{
    check_ends(x);
    size_t i = 0;
    list_elem_t *e = list_get_first(x.l);
    for (Item &it : x.m) {
        REQUIRE(e == it.e, "forward traversal: element %zu of %zu is %s", i, x.m.size(),
                e ? "a wrong element" : "missing");
        REQUIRE(list_elem_get_value(e) == it.v, "element %zu has value %d, expected %d", i,
                value_no(list_elem_get_value(e)), value_no(it.v));
        i++;
        e = list_next(e);
    }
    REQUIRE(!e, "forward traversal does not end after %zu elements", i);
    e = list_get_last(x.l);
    for (size_t k = x.m.size(); k-- > 0;) {
        REQUIRE(e == x.m[k].e, "backward traversal: element %zu of %zu is wrong", k, x.m.size());
        e = list_previous(e);
    }
    REQUIRE(!e, "backward traversal does not end");
    Visit v;
    list_foreach(x.l, visit, &v);
    REQUIRE(v.seen.size() == x.m.size(), "foreach visits %zu of %zu elements", v.seen.size(), x.m.size());
    for (size_t k = 0; k < x.m.size(); k++)
        REQUIRE(v.seen[k] == x.m[k].v, "foreach: value %zu is wrong", k);
}

void lookup(L &x, int v)
{
    list_elem_t *want = nullptr;
    for (Item &it : x.m)
        if (it.v == value(v)) {
            want = it.e;
            break;
        }
    list_elem_t *got = list_get(x.l, value(v));
    REQUIRE(got == want, "list_get(value %d) returned %s", v,
            !got ? "NULL" : !want ? "an element though there is none" : "another element than the first");
}

void by_index(L &x, int i)
{
    list_elem_t *want = i >= 0 && (size_t) i < x.m.size() ? x.m[i].e : nullptr;
    REQUIRE(list_get_by_index(x.l, i) == want, "list_get_by_index(%d) is wrong (size %zu)", i, x.m.size());
}

void remove_at(L &x, size_t i)
{
    list_remove(x.l, x.m[i].e);
    x.m.erase(x.m.begin() + i);
}

void put(L &x, size_t where, int v, int how)
{
    list_elem_t *e;
    if (how == 0) {
        e = list_append(x.l, value(v));
        where = x.m.size();
    } else if (how == 1) {
        e = list_prepend(x.l, value(v));
        where = 0;
    } else
        e = list_insert_before(x.l, value(v), x.m[where].e);
    REQUIRE(e, "insertion returned NULL");
    REQUIRE(list_elem_get_value(e) == value(v), "the inserted element has a wrong value");
    x.m.insert(x.m.begin() + where, Item{e, value(v)});
}

void history(Src &s)
{
    std::vector<L> ls;
    std::vector<unsigned> w;
    for (int i = 0; i < 10; i++)
        w.push_back(s.chance(3, 4) ? 1 + s.below(8) : 0);
    w[0] += 2;
    ls.push_back({make_list(), {}});
    check(ls[0]);
    size_t maxsize = 0, removals = 0, inserts = 0;
    while (s.more(40)) {
        size_t i = s.below(ls.size());
        L &x = ls[i];
        switch (s.weighted(w)) {
            case 0: {
                int v = (int) s.below(6);
                s.note("l%zu: append %d", i, v);
                put(x, 0, v, 0);
                break;
            }
            case 1: {
                int v = (int) s.below(6);
                s.note("l%zu: prepend %d", i, v);
                put(x, 0, v, 1);
                break;
            }
            case 2:
                if (!x.m.empty()) {
                    int v = (int) s.below(6);
                    size_t at = s.below(x.m.size());
                    s.note("l%zu: insert %d before #%zu", i, v, at);
                    put(x, at, v, 2);
                    inserts++;
                }
                break;
            case 3:
                if (!x.m.empty()) {
                    size_t at = s.below(x.m.size());
                    s.note("l%zu: remove #%zu of %zu", i, at, x.m.size());
                    remove_at(x, at);
                    removals++;
                }
                break;
            case 4: {
                s.note("l%zu: pop_first", i);
                const void *want = x.m.empty() ? nullptr : x.m.front().v;
                const void *got = list_pop_first(x.l);
                REQUIRE(got == want, "pop_first returned value %d, expected %d", value_no(got), value_no(want));
                if (!x.m.empty()) {
                    x.m.erase(x.m.begin());
                    removals++;
                }
                break;
            }
            case 5: {
                s.note("l%zu: pop_last", i);
                const void *want = x.m.empty() ? nullptr : x.m.back().v;
                const void *got = list_pop_last(x.l);
                REQUIRE(got == want, "pop_last returned value %d, expected %d", value_no(got), value_no(want));
                if (!x.m.empty()) {
                    x.m.pop_back();
                    removals++;
                }
                break;
            }
            case 6: {
                int v = (int) s.below(7);
                s.note("l%zu: get %d", i, v);
                lookup(x, v);
                break;
            }
            case 7: {
                static const int odd[] = {-1, INT_MIN, INT_MAX, -2, 1 << 30};
                int k = s.chance(1, 3) ? s.pick(odd) : (int) s.below(x.m.size() + 2);
                s.note("l%zu: get_by_index %d", i, k);
                by_index(x, k);
                break;
            }
            case 8:
                if (ls.size() < 3) {
                    s.note("copy l%zu", i);
                    list_t *c = list_copy(x.l);
                    REQUIRE(c && c != x.l, "copy returned the list itself or NULL");
                    L y = {c, {}};
                    list_elem_t *e = list_get_first(c);
                    for (Item &it : x.m) {
                        REQUIRE(e && list_elem_get_value(e) == it.v, "the copy has other values");
                        REQUIRE(e != it.e, "the copy shares an element");
                        y.m.push_back({e, it.v});
                        e = list_next(e);
                    }
                    REQUIRE(!e, "the copy is longer");
                    check(x);
                    ls.push_back(y);
                    s.label("copy");
                }
                break;
            case 9:
                if (ls.size() > 1) {
                    s.note("destroy l%zu", i);
                    destroy_list(x.l);
                    ls.erase(ls.begin() + i);
                }
                break;
        }
        for (L &y : ls) {
            if (y.m.size() > maxsize)
                maxsize = y.m.size();
            check(y);
        }
    }
    if (maxsize >= 3 && removals && inserts)
        s.nontrivial();
    if (maxsize >= 20)
        s.label("list of 20 or more");
    for (L &y : ls) {
        for (int v = 0; v < 7; v++)
            lookup(y, v);
        for (int k = -2; k < (int) y.m.size() + 2; k++)
            by_index(y, k);
        destroy_list(y.l);
    }
}

void large(Src &s)
{
    L x = {make_list(), {}};
    Rng g = s.bulk();
    int n = 1 + (int) s.size(3000);
    s.note("%d operations", n);
    for (int k = 0; k < n; k++) {
        unsigned op = (unsigned) g.upto(9);
        size_t at = x.m.empty() ? 0 : g.upto(x.m.size() - 1);
        if (x.m.empty() || op < 3)
            put(x, 0, (int) g.upto(9), op & 1);
        else if (op < 7)
            put(x, at, (int) g.upto(9), 2);
        else
            remove_at(x, at);
        check_ends(x);
    }
    check(x);
    for (int k = 0; k < 20; k++) {
        by_index(x, (int) g.upto(x.m.size() + 3) - 2);
        lookup(x, (int) g.upto(10));
    }
    if (x.m.size() > 50)
        s.nontrivial();
    destroy_list(x.l);
}

// beyond 2^15 and 2^16 elements
void huge(Src &s)
{
    static const size_t sizes[] = {32767, 32768, 33000, 65535, 65536, 66000, 140000};
    L x = {make_list(), {}};
    Rng g = s.bulk();
    size_t n = s.chance(1, 16) ? 1100000 : s.pick(sizes);
    s.note("%zu elements", n);
    for (size_t k = 0; k < n; k++)
        put(x, 0, (int) g.upto(9), 0);
    check(x);
    static const size_t at[] = {0, 1, 255, 256, 32766, 32767, 32768, 65534, 65535, 65536, 65537};
    for (size_t i : at)
        by_index(x, (int) i);
    for (int k = 0; k < 4; k++)
        by_index(x, (int) g.upto(n + 2) - 1);
    by_index(x, -1);
    by_index(x, (int) n - 1);
    by_index(x, (int) n);
    L c = {list_copy(x.l), {}};
    list_elem_t *e = list_get_first(c.l);
    for (Item &it : x.m) {
        REQUIRE(e && list_elem_get_value(e) == it.v, "a copy of %zu elements differs", n);
        c.m.push_back({e, it.v});
        e = list_next(e);
    }
    check(c);
    for (int k = 0; k < 30 && !x.m.empty(); k++)
        remove_at(x, k % 3 == 0 ? x.m.size() - 1 : k % 3 == 1 ? 0 : g.upto(x.m.size() - 1));
    check(x);
    check(c);
    s.nontrivial();
    destroy_list(x.l);
    destroy_list(c.l);
}

PROPERTY(C05,
         "A case is a history of append/prepend/insert/remove/pop/copy/lookup operations on up to three "
         "lists checked against a sequence of (handle, value) after every step; non-trivial if a list "
         "reached 3 elements with an insertion in the middle and a removal (large: over 50 elements).",
         {{"history", history, F_PROD | F_ASAN | F_FUZZ | F_ALLOC, 720000, 5000000, 5, 60000},
          {"large", large, F_PROD | F_ASAN | F_ALLOC, 6000, 40000, 8, 0},
          {"huge", huge, F_PROD, 64, 1000, 1, 0}});
} // namespace
