S('c20-early-length', 'C20', 'src/charstr_puny.c',
  [('''    size_t length = strlen(hostname);
    const char *end = hostname + length;
    if (charstr''', '''    size_t length = strlen(hostname);
    const char *end = hostname + length;
    if (length > MAX_UTF8_NAME_LENGTH)
        return fail("hostname too long");
    if (charstr''')],
  'a name of more than 1016 bytes most of which are ignored code points or shrink when mapped',
  'an encodable name is refused', r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fsdyn/charstr.h>
int main()
{
    char name[4000] = "b\xc3\xbc";
    for (int i = 0; i < 520; i++)
        strcat(name, "\xc2\xad");
    strcat(name, "cher.example");
    char *r = charstr_idna_encode(name);
    return !r || strcmp(r, "xn--bcher-kva.example");
}
""")
S('c03-index-short', 'C03', 'include/hashtable_imp.h',
  [('    size_t list_index;\n', '    unsigned short list_index;\n')],
  'a table of more than 65536 buckets',
  'elements are removed from the wrong bucket and iteration goes back to buckets visited before', r"""
#include <stdint.h>
#include <fsdyn/hashtable.h>
static uint64_t h(const void *p) { return (uintptr_t) p; }
static int c(const void *a, const void *b) { return a < b ? -1 : a > b; }
int main()
{
    hash_table_t *t = make_hash_table(90000, h, c);
    hash_table_put(t, (void *) (uintptr_t) 3, "a");
    hash_table_put(t, (void *) (uintptr_t) 80000, "b");
    hash_elem_t *e = hash_table_get_any(t);
    e = hash_table_get_other(e);
    if (!e) return 1;
    e = hash_table_get_other(e);
    return e != NULL;
}
""")
S('c07-loc-short', 'C07', 'src/priority_queue.c',
  [('prq->reloc(value, (void *) (intptr_t) slot, prq->obj);', 'prq->reloc(value, (void *) (intptr_t) (unsigned short) slot, prq->obj);')],
  'more than 65536 elements in the queue',
  'elements are told a location that belongs to another element', r"""
#include <stdint.h>
#include <fsdyn/priority_queue.h>
static void *loc[100000];
static int val[100000];
static int c(const void *a, const void *b) { return *(int *) a - *(int *) b; }
static void reloc(const void *e, void *l) { loc[(int *) e - val] = l; }
int main()
{
    priorq_t *q = make_priority_queue(c, reloc);
    for (int i = 0; i < 100000; i++) {
        val[i] = i;
        priorq_enqueue(q, &val[i]);
    }
    return priorq_remove(q, loc[90000]) != &val[90000];
}
""")
S('c08-size-width', 'C08', 'include/intset_imp.h',
  [('    size_t size;\n', '    unsigned size;\n')],
  'a set of 2^32 integers or more',
  'the set is too small: elements are not kept', r"""
#define _GNU_SOURCE
#include <sys/mman.h>
#include <stdlib.h>
#include <fsdyn/fsalloc.h>
#include <fsdyn/intset.h>
static void *r(void *p, size_t n)
{
    if (n < 1 << 20) return n ? realloc(p, n) : NULL;
    p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) exit(0);
    return p;
}
int main()
{
    fs_set_reallocator(r);
    intset_t *s = make_intset((size_t) 1 << 32);
    intset_add(s, 1000);
    return !intset_has(s, 1000);
}
""")
S('c05-size-short', 'C05', 'include/list_imp.h',
  [('    size_t size;\n', '    unsigned short size;\n')],
  'a list of 65536 elements or more',
  'list_size() is wrong', r"""
#include <fsdyn/list.h>
int main()
{
    list_t *l = make_list();
    for (int i = 0; i < 70000; i++)
        list_append(l, "");
    return list_size(l) != 70000;
}
""")
S('c10-short-retry', 'C10', 'src/bytearray.c',
  [('''    if (count > 0)
        array->cursor += count;
    array->data[array->cursor] = 0;
    return count;
''', '''    if (count > 0) {
        array->cursor += count;
        if (count == len / 2 && len > 256 && len >= array->size / 2) {
            /* plenty of room left: get the rest at once */
            ssize_t more = read_cb(obj, array->data + array->cursor, len - count);
            if (more > 0) {
                array->cursor += more;
                count += more;
            }
        }
    }
    array->data[array->cursor] = 0;
    return count;
''')],
  'a reader that returns exactly half of what was asked for, when that is more than 256 bytes and half of the storage',
  'the reader is called twice and its second result (an error, say) is lost', r"""
#include <errno.h>
#include <string.h>
#include <fsdyn/bytearray.h>
static int calls;
static ssize_t rd(void *o, void *b, size_t n)
{
    calls++;
    if (calls > 1) { errno = EIO; return -1; }
    memset(b, 'x', n / 2);
    return n / 2;
}
int main()
{
    byte_array_t *a = make_byte_array(10000);
    ssize_t r = byte_array_append_stream(a, rd, NULL, 400);
    return r != 200 || calls != 1;
}
""")
S('c02-replace-tall', 'C02', 'src/avltree.c',
  [('''    element->balance = loc->balance;
    substitute(tree, element, loc);
''', '''    element->balance = loc->left && loc->right ? loc->balance : 0;
    substitute(tree, element, loc);
''')],
  'a value replaced in an element with one child, then removals or insertions near it',
  'the balance recorded is wrong and the tree loses its balance later', r"""
#include <stdint.h>
#include <stdlib.h>
#include <fsdyn/avltree.h>
static int steps;
static int c(const void *a, const void *b) { steps++; return a < b ? -1 : a > b; }
int main()
{
    for (int seed = 0; seed < 50; seed++) {
        srand(seed);
        avl_tree_t *t = make_avl_tree(c);
        for (int i = 0; i < 60000; i++) {
            void *k = (void *) (uintptr_t) (rand() % 300);
            avl_elem_t *e;
            if (rand() % 2) e = avl_tree_put(t, k, (void *) (uintptr_t) rand());
            else e = avl_tree_pop(t, k);
            if (e) destroy_avl_element(e);
            int n = avl_tree_size(t), h = 0;
            while (n >> h) h++;
            steps = 0;
            avl_tree_get(t, k);
            if (steps > 1.45 * h + 1) return 1;
        }
        destroy_avl_tree(t);
    }
    return 0;
}
""")
