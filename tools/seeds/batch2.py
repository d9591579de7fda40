CS = '#include <stdlib.h>\n#include <string.h>\n#include <stdio.h>\n#include <errno.h>\n#include <fsdyn/charstr.h>\n#include <fsdyn/fsalloc.h>\n'
BA = '#include <stdlib.h>\n#include <string.h>\n#include <errno.h>\n#include <fsdyn/bytearray.h>\n'
AVLH = r'''
#include <stdio.h>
#include <stdlib.h>
#include <fsdyn/avltree.h>
#include <avltree_imp.h>
static int cmp(const void *a, const void *b) { return *(int *) a - *(int *) b; }
static int k[4096];
static int height(avl_elem_t *e)
{
    if (!e) return 0;
    int l = height(e->left), r = height(e->right);
    if (l - r > 1 || r - l > 1) exit(1);
    return 1 + (l > r ? l : r);
}
'''
S('c02-pop-first-fast', 'C02', 'src/avltree.c',
  [('''    avl_elem_t *element = avl_tree_get_first(tree);
    if (element != NULL)
        avl_tree_detach(tree, element);
    return element;''', '''    avl_elem_t *element = avl_tree_get_first(tree);
    if (element != NULL) {
        avl_elem_t *parent = element->parent;
        if (parent != NULL && leaf_element(element) &&
            parent->right != NULL && leaf_element(parent->right)) {
            parent->left = NULL; /* the height does not change */
            tree->size--;
        } else avl_tree_detach(tree, element);
    }
    return element;''')],
  'pop-first where the first element has a leaf sibling, followed by insertions or removals next to it',
  'the balance factor is not updated, so that later the tree is not rebalanced', AVLH + r'''
int main()
{
    srandom(5);
    for (int i = 0; i < 200; i++) k[i] = i;
    avl_tree_t *t = make_avl_tree(cmp);
    for (int i = 0; i < 100000; i++) {
        int j = random() % 200;
        if (random() & 1) avl_tree_put(t, k + j, k + j);
        else {
            avl_elem_t *e = avl_tree_pop_first(t);
            if (e) destroy_avl_element(e);
        }
        height(t->root);
    }
    return 0;
}
''')
S('c06-remove-no-raise', 'C06', 'src/priority_queue.c',
  [('lower(prq, raise(prq, slot, other), other);', 'lower(prq, slot, other);')],
  'removing an element such that the last element belongs above the hole (they are in different branches of the heap)',
  'the heap order is broken and elements come out in the wrong order', r'''
#include <stdlib.h>
#include <fsdyn/priority_queue.h>
typedef struct { int prio; void *loc; } el;
static int cmp(const void *a, const void *b) { return ((el *) a)->prio - ((el *) b)->prio; }
static void reloc(const void *e, void *loc) { ((el *) e)->loc = loc; }
int main()
{
    el e[64];
    srandom(3);
    for (int round = 0; round < 2000; round++) {
        priorq_t *q = make_priority_queue(cmp, reloc);
        for (int i = 0; i < 64; i++) { e[i].prio = random() % 1000; priorq_enqueue(q, e + i); }
        for (int i = 0; i < 20; i++) priorq_remove(q, e[i].loc);
        int last = -1;
        while (!priorq_empty(q)) {
            const el *x = priorq_dequeue(q);
            if (x->prio < last) return 1;
            last = x->prio;
        }
        destroy_priority_queue(q);
    }
    return 0;
}
''')
S('c09-refcount', 'C09', 'src/bytearray.c',
  [('    uint32_t ref_count;', '    uint8_t ref_count;')],
  'more than 255 holders of a shared array', 'the array is destroyed while holders remain', BA + r'''
#include <fsdyn/fsalloc.h>
static int freed;
static void *hook(void *p, size_t n) { if (!n) { freed++; return NULL; } return realloc(p, n); }
int main()
{
    fs_set_reallocator(hook);
    byte_array_t *a = make_byte_array(100);
    for (int i = 0; i < 256; i++) share_byte_array(a);
    destroy_byte_array(a);
    return freed != 0;
}
''')
S('c20-adapt-edge', 'C20', 'src/charstr_puny.c',
  [('delta > (BASE - TMIN) * TMAX / 2;', 'delta >= (BASE - TMIN) * TMAX / 2;')],
  'a label with three or more different non-ASCII characters such that the scaled delta is exactly 455',
  'the bias, and so the rest of the label, is encoded wrongly', CS + r'''
/* an independent RFC 3492 encoder */
static void puny(const int *in, int n, char *out)
{
    int cp = 128, delta = 0, bias = 72, h = 0;
    for (int i = 0; i < n; i++) if (in[i] < 128) { *out++ = in[i]; h++; }
    int b = h;
    if (b) *out++ = '-';
    while (h < n) {
        int m = 0x7fffffff;
        for (int i = 0; i < n; i++) if (in[i] >= cp && in[i] < m) m = in[i];
        delta += (m - cp) * (h + 1);
        cp = m;
        for (int i = 0; i < n; i++) {
            if (in[i] < cp) delta++;
            if (in[i] == cp) {
                int q = delta;
                for (int k = 36;; k += 36) {
                    int t = k <= bias ? 1 : k >= bias + 26 ? 26 : k - bias;
                    if (q < t) break;
                    int d = t + (q - t) % (36 - t);
                    *out++ = d < 26 ? 'a' + d : '0' + d - 26;
                    q = (q - t) / (36 - t);
                }
                *out++ = q < 26 ? 'a' + q : '0' + q - 26;
                delta = h == b ? delta / 700 : delta / 2;
                delta += delta / (h + 1);
                int k = 0;
                while (delta > 455) { delta /= 35; k += 36; }
                bias = k + 36 * delta / (delta + 38);
                delta = 0;
                h++;
            }
        }
        delta++; cp++;
    }
    *out = 0;
}
int main()
{
    srandom(1);
    for (int round = 0; round < 300000; round++) {
        int in[5];
        char u[40], *q = u, want[100] = "xn--";
        for (int i = 0; i < 5; i++) {
            in[i] = 0x4e00 + random() % 3000;
            q = charstr_encode_utf8_codepoint(in[i], q, u + 40);
        }
        *q = 0;
        puny(in, 5, want + 4);
        char *r = charstr_idna_encode(u);
        if (!r || strcmp(r, want)) return 1;
        fsfree(r);
    }
    return 0;
}
''')
S('c21-last-mapping', 'C21', 'src/gen_idna_table.c',
  [('min_cp, max_cp, count - 1);', 'min_cp, max_cp - 1, count - 2);')],
  'the largest mapped code point, U+2FA1D', 'it has no mapping', CS + r'''
int main()
{
    const char *m = charstr_idna_mapping(0x2fa1d);
    return !m || strcmp(m, "\xf0\xaa\x98\x80");
}
''')
S('c21-long-mapping', 'C21', 'src/gen_idna_table.c',
  [('                    table[cp].mapping = charstr_dupstr(buffer);', '                    table[cp].mapping =\n                        charstr_dupsubstr(buffer, buffer + strnlen(buffer, 32));')],
  'U+FDFA, the only mapping longer than 32 bytes', 'its mapping is cut', CS + r'''
int main()
{
    const char *m = charstr_idna_mapping(0xfdfa);
    return !m || strlen(m) != 33;
}
''')
S('c22-isdst', 'C22', 'src/date.c', [('    tm->tm_isdst = 0;\n', '')],
  'a struct tm whose tm_isdst was not zero before', 'the DST flag keeps an arbitrary value', r'''
#include <time.h>
#include <fsdyn/date.h>
int main()
{
    struct tm a;
    a.tm_isdst = 1;
    epoch_to_utc(1000000000, &a);
    return a.tm_isdst != 0;
}
''')
S('c24-idna-leak', 'C24', 'src/charstr_puny.c',
  [('''    if (!workend) {
        fsfree(workarea);
        return fail("failed to recompose");''', '''    if (!workend) {
        if (worklen == 0)
            fsfree(workarea);
        return fail("failed to recompose");''')],
  'encoding a decomposed hostname with more than 100 marks', 'the work area of the failing call is never released', CS + r'''
static int balance;
static void *counting(void *p, size_t n)
{
    if (p && !n) { balance--; free(p); return NULL; }
    if (!p) balance++;
    return realloc(p, n);
}
int main()
{
    char s[1000] = "a";
    fs_set_reallocator(counting);
    for (int i = 0; i < 110; i++) strcat(s, "\xcc\x96");
    strcat(s, "\xcc\x80");
    fsfree(charstr_idna_encode(s));
    return balance != 0;
}
''')
