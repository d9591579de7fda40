CS = '#include <stdlib.h>\n#include <string.h>\n#include <stdio.h>\n#include <errno.h>\n#include <fsdyn/charstr.h>\n#include <fsdyn/fsalloc.h>\n'
AVLH2 = r'''
#include <stdio.h>
#include <stdlib.h>
#include <fsdyn/avltree.h>
#include <avltree_imp.h>
static int cmp(const void *a, const void *b) { return *(int *) a - *(int *) b; }
static int k[4096];
static int height(avl_elem_t *e)
{
    if (!e) return 0;
    int l = height(e->left), r = height(e->right);
    if (l - r > 1 || r - l > 1) exit(1);
    return 1 + (l > r ? l : r);
}
'''
S('c02-copy-balance', 'C02', 'src/avltree.c',
  [('    copy->balance = element->balance;\n    if (element->left) {', '    if (element->left || element->right)\n        copy->balance = element->right ? element->balance : 0;\n    if (element->left) {')],
  'copying a tree with an element that has a left child only, then inserting into (or removing from) the copy',
  'the copy has a wrong balance factor and gets out of balance', AVLH2 + r'''
int main()
{
    for (int i = 0; i < 4096; i++) k[i] = i;
    for (int n = 1; n < 60; n++) for (int m = 0; m < 40; m++) {
        avl_tree_t *t = make_avl_tree(cmp);
        srandom(n * 100 + m);
        for (int i = 0; i < n; i++) { int j = random() % 200; avl_tree_put(t, k + j, k + j); }
        avl_tree_t *c = avl_tree_copy(t);
        for (int i = 0; i < n; i++) { int j = random() % 200; avl_tree_put(c, k + j, k + j); height(c->root); }
        while (!avl_tree_empty(c)) { avl_tree_remove(c, avl_tree_get_first(c)); height(c->root); }
        destroy_avl_tree(t); destroy_avl_tree(c);
    }
    return 0;
}
''')
S('c02-replace-balance', 'C02', 'src/avltree.c',
  [('    element->balance = loc->balance;\n    substitute(tree, element, loc);', '    element->balance = leaf_element(loc) ? 0 : loc->left ? loc->balance : 1;\n    if (loc->left && !loc->right)\n        element->balance = 0;\n    substitute(tree, element, loc);'),
   ('static void substitute(avl_tree_t *tree, avl_elem_t *new_child,', 'static int leaf_element(avl_elem_t *element);\n\nstatic void substitute(avl_tree_t *tree, avl_elem_t *new_child,')],
  'replacing the value of an element that has only a left child, then changing its subtree',
  'the replacement gets a wrong balance factor and the tree gets out of balance', AVLH2 + r'''
int main()
{
    for (int i = 0; i < 4096; i++) k[i] = i;
    srandom(2);
    avl_tree_t *t = make_avl_tree(cmp);
    for (int i = 0; i < 100000; i++) {
        int j = random() % 64;
        avl_elem_t *e;
        switch (random() % 3) {
        case 0: e = avl_tree_pop(t, k + j); break;
        default: e = avl_tree_put(t, k + j, k + random() % 100);
        }
        if (e) destroy_avl_element(e);
        height(t->root);
    }
    return 0;
}
''')
S('c03-pop-any-hint', 'C03', 'src/hashtable.c',
  [('''    size_t i;
    for (i = 0; i < table->capacity; i++) {
        list_t *list = table->table[i];
        if (list != NULL && !list_empty(list)) {
            table->size--;''', '''    static hash_table_t *last_table;
    static size_t last_i;
    size_t i = table == last_table && table->size > 8 ? last_i : 0;
    for (; i < table->capacity; i++) {
        list_t *list = table->table[i];
        if (list != NULL && !list_empty(list)) {
            last_table = table;
            last_i = i;
            table->size--;''')],
  'draining a table of more than nine elements with pop_any, putting more elements into lower buckets, and draining it again',
  'pop_any returns NULL although the table is not empty', r'''
#include <stdlib.h>
#include <fsdyn/hashtable.h>
#include <fsdyn/integer.h>
static int cmp(const void *a, const void *b) { return integer_cmp(a, b); }
int main()
{
    hash_table_t *t = make_hash_table(50, (void *) hash_integer, cmp);
    for (int i = 0; i < 50; i++) hash_table_put(t, as_integer(i), "x");
    for (int i = 0; i < 50; i++) { hash_elem_t *e = hash_table_pop_any(t); if (!e) return 1; destroy_hash_element(e);
        if (i == 30) for (int j = 0; j < 20; j++) hash_table_put(t, as_integer(j), "y"); }
    int n = 0;
    while (!hash_table_empty(t)) { hash_elem_t *e = hash_table_pop_any(t); if (!e) return 1; destroy_hash_element(e); n++; }
    return n != 20;
}
''')
S('c04-hash-even', 'C04', 'src/hashtable.c',
  [('''    while (size--)
        hash = hash * 9973 + *p++ + 9999991;''', '''    while (size--)
        hash = hash * 9972 + *p++ + 9999991;''')],
  'two blobs longer than 32 bytes which differ only well before the end',
  'an early byte does not influence the hash', r'''
#include <string.h>
#include <fsdyn/hashtable.h>
int main()
{
    char a[60], b[60];
    memset(a, 7, sizeof a); memset(b, 7, sizeof b);
    b[0] = 8;
    return hash_blob(a, 60) == hash_blob(b, 60);
}
''')
S('c04-unsigned-cmp', 'C04', 'src/integer.c',
  [('''    if (as_uintptr(a) > as_uintptr(b))
        return 1;
    return 0;''', '''    return (intptr_t) (as_uintptr(a) - as_uintptr(b)) > 0;''')],
  'unsigned values more than half the range apart, the greater given first',
  'the comparator reports them equal', r'''
#include <stdint.h>
#include <fsdyn/integer.h>
int main()
{
    return unsigned_cmp(as_unsigned(UINTPTR_MAX), as_unsigned(3)) <= 0;
}
''')
S('c05-index-cache', 'C05', 'src/list.c',
  [('''    int i;
    list_elem_t *element;
    for (element = list->first, i = 0;
         element != NULL && i != idx;
         element = element->next, i++)
        ;
    return element;''', '''    int i;
    list_elem_t *element;
    if (idx > 64 && idx <= list->size / 2 * 2) {
        /* shorter from the end */
        for (element = list->last, i = list->size / 2 * 2;
             element != NULL && i != idx;
             element = element->previous, i--)
            ;
        return element;
    }
    for (element = list->first, i = 0;
         element != NULL && i != idx;
         element = element->next, i++)
        ;
    return element;''')],
  'a list of an even number of elements, more than 64, and an index above 64',
  'the lookup is off by one', r'''
#include <fsdyn/list.h>
#include <fsdyn/integer.h>
int main()
{
    list_t *l = make_list();
    for (int i = 0; i < 200; i++) {
        list_append(l, as_integer(i));
        for (int j = 0; j <= i + 1; j++) {
            list_elem_t *e = list_get_by_index(l, j);
            if (j > i ? e != 0 : !e || as_intptr(list_elem_get_value(e)) != j) return 1;
        }
    }
    return 0;
}
''')
S('c06-last-right', 'C06', 'src/priority_queue.c',
  [('''        if (right >= prq->capacity ||
            prq->cmp''', '''        if (right + 1 >= prq->capacity && slot > 2 ||
            prq->cmp''')],
  'a queue of at least eight elements in which the very last element is a right child smaller than its sibling when an element sinks there, followed by an enqueue (a dequeue would repair it)',
  'the heap order breaks and an element comes out too late', r'''
#include <stdlib.h>
#include <fsdyn/priority_queue.h>
static int cmp(const void *a, const void *b) { return *(int *) a - *(int *) b; }
int main()
{
    static int k[1000];
    srandom(1);
    for (int r = 0; r < 200; r++) {
        priorq_t *q = make_priority_queue(cmp, 0);
        for (int i = 0; i < 100; i++) { k[i] = random() % 1000; priorq_enqueue(q, k + i); }
        int last = -1;
        while (!priorq_empty(q)) {
            int v = *(int *) priorq_dequeue(q); if (v < last) return 1; last = v;
            if (random() % 4 == 0) { int *n = malloc(sizeof *n); *n = v + random() % 1000; priorq_enqueue(q, n); }
        }
        destroy_priority_queue(q);
    }
    return 0;
}
''')
S('c07-stale-skip', 'C07', 'src/priority_queue.c',
  [('''    prq->storage[slot] = value;
    prq->reloc(''', '''    if (prq->storage[slot] == value && slot == prq->capacity - 1)
        return;                 /* it has not moved */
    prq->storage[slot] = value;
    prq->reloc('''),
   ('''        prq->storage =
            fsrealloc(prq->storage, prq->max_capacity * sizeof *prq->storage);''', '''        prq->storage =
            fsrealloc(prq->storage, prq->max_capacity * sizeof *prq->storage);
        for (n = prq->capacity; n < prq->max_capacity; n++)
            prq->storage[n] = NULL;''')],
  'an element that was last in the queue moves elsewhere, is taken out there, and is queued again so that it ends up last again',
  'its relocation callback is not called and it keeps the old locator', r'''
#include <stdlib.h>
#include <fsdyn/priority_queue.h>
typedef struct { int prio, in; void *loc; } el;
static int cmp(const void *a, const void *b) { return ((el *) a)->prio - ((el *) b)->prio; }
static void reloc(const void *e, void *loc) { ((el *) e)->loc = loc; }
int main()
{
    static el e[20];
    srandom(3);
    priorq_t *q = make_priority_queue(cmp, reloc);
    for (int i = 0; i < 20; i++) e[i].prio = i / 2;
    for (int i = 0; i < 100000; i++) {
        el *x = e + random() % 20;
        if (x->in) { if (priorq_remove(q, x->loc) != x) return 1; x->loc = (void *) 0; }
        else priorq_enqueue(q, x);
        x->in = !x->in;
    }
    return 0;
}
''')
S('c09-resize-grow-fill', 'C09', 'src/bytearray.c',
  [('        memset(array->data + array->cursor, c, n - array->cursor);', '''        if (c || array->cursor)
            memset(array->data + array->cursor, c, n - array->cursor);''')],
  'resizing an emptied array with filler 0 where earlier content was',
  'old content shows up instead of zeros', r'''
#include <string.h>
#include <fsdyn/bytearray.h>
int main()
{
    byte_array_t *a = make_byte_array(1000);
    byte_array_append_string(a, "hello, world");
    byte_array_clear(a);
    byte_array_resize(a, 8, 0);
    return memcmp(byte_array_data(a), "\0\0\0\0\0\0\0\0", 9) != 0;
}
''')
S('c09-copy-terminator', 'C09', 'src/bytearray.c',
  [('''    if (len > array->cursor - pos) {
        array->cursor = pos + len;
        array->data[array->cursor] = 0;
    }''', '''    if (pos + len > array->cursor)
        array->cursor = pos + len;
    if (pos < array->cursor)
        array->data[array->cursor] = 0;
    else array->data[pos] = 0;''' if False else '''    if (len >= array->cursor - pos)
        array->cursor = pos + len;
    if (len > 1 || pos == 0)
        array->data[array->cursor] = 0;''')],
  'copying a single byte to the very end (not to an empty array) where older content lies behind',
  'the content is not followed by a NUL byte', r'''
#include <string.h>
#include <fsdyn/bytearray.h>
int main()
{
    byte_array_t *a = make_byte_array(1000);
    byte_array_append_string(a, "hello, world");
    byte_array_resize(a, 4, 0);
    byte_array_copy(a, 4, "p", 1);
    return strcmp(byte_array_data(a), "hellp") != 0;
}
''')
S('c11-minus-one', 'C11', 'src/base64.c',
  [('''    uint32_t bits;
    if (pos62 == -1)
        pos62 = '+';
    if (pos63 == -1)
        pos63 = '/';''', '''    uint32_t bits;
    if (pos62 < 0)
        pos62 = '+';
    if (pos63 < 0)
        pos63 = '/';''')],
  'a custom character above 127 for value 62 or 63',
  'the default character is used instead', r'''
#include <string.h>
#include <fsdyn/base64.h>
int main()
{
    char b[10];
    base64_encode_buffer("\xff\xff\xff", 3, b, 10, (char) 0xe4, (char) 0xf6);
    return strcmp(b, "\xf6\xf6\xf6\xf6") != 0;
}
''')
S('c13-nonchar', 'C13', 'src/charstr.c',
  [('(codepoint >= 0xe000 && codepoint <= 0x10ffff)', '(codepoint >= 0xe000 && codepoint < 0x10ffff)')],
  'the very last code point, U+10FFFF',
  'its well-formed encoding is refused', CS + r'''
int main()
{
    return !charstr_valid_utf8("\xf4\x8f\xbf\xbf");
}
''')
S('c13-sanitize-skip', 'C13', 'src/charstr.c',
  [('''        else {
            s++;
            memcpy(q, REPL''', '''        else {
            if ((*s++ & 0xf8) == 0xf0 && s[0] && (s[0] & 0xc0) == 0x80 && !s[1])
                s++;            /* truncated at the end */
            memcpy(q, REPL''')],
  'a four-byte sequence broken off after its second byte at the end of the string',
  'one replacement character stands for two bad bytes', CS + r'''
int main()
{
    char *s = charstr_sanitize_utf8("ab\xf0\x9f");
    return strcmp(s, "ab\xef\xbf\xbd\xef\xbf\xbd") != 0;
}
''')
S('c14-range-first', 'C14', 'src/categorize.py',
  [('            for n in range(prev_cp + 1, codepoint):', '            for n in range(prev_cp + 1, min(codepoint, 0x30000)):')],
  'a code point inside the ranges given by First and Last beyond plane 2 (ideograph extension G, private use planes)',
  'its category is reported as Cn', CS + r'''
int main()
{
    return charstr_unicode_category(0x30010) != UNICODE_CATEGORY_Lo || charstr_unicode_category(0xf0123) != UNICODE_CATEGORY_Co;
}
''')
S('c16-hangul-tbase', 'C16', 'src/charstr_recompose.c',
  [('if (ti > 0&& ti < T_COUNT) {', 'if (ti >= 0 && ti < T_COUNT) {')],
  'an LV syllable followed by U+11A7',
  'U+11A7 is swallowed', CS + r'''
int main()
{
    char b[100];
    char *e = charstr_unicode_recompose("\xe1\x84\x80\xe1\x85\xa1\xe1\x86\xa7", 0, b, b + 100);
    return !e || strcmp(b, "\xea\xb0\x80\xe1\x86\xa7") != 0;
}
''')
S('c17-encoder-base', 'C17', 'src/charstr.c',
  [('    memcpy(encoder, &url_encoder, sizeof *encoder);\n', '''    memcpy(encoder, &url_encoder, sizeof *encoder);
    for (size_t u = 0; unreserve[u]; u++)
        if ((unreserve[u] & 0xff) > 0xf0)
            memcpy(url_encoder.table[unreserve[u] & 0xff], &unreserve[u], 1);
''')],
  'creating a custom encoder with a byte above F0 unreserved, then using the default encoder',
  'the default encoder is changed', CS + r'''
int main()
{
    charstr_create_url_encoder("", "\xf5");
    return strcmp(charstr_url_encode("\xf5"), "%F5") != 0;
}
''')
S('c18-high-delim', 'C18', 'src/charstr.c',
  [('''    while (max_split--) {
        const char *p = strchr(s, delim);
        if (!p)
            break;''', '''    while (max_split--) {
        const char *p = s;
        while (*p && (*p & 0xff) != delim)
            p++;
        if (!*p)
            break;''')],
  'splitting at a delimiter byte above 127',
  'the string is not split', CS + r'''
int main()
{
    list_t *l = charstr_split("a\xb7" "b", (char) 0xb7, -1);
    return list_size(l) != 2;
}
''')
S('c18-dup-nul', 'C18', 'src/charstr.c',
  [('    memcpy(dup, s, length);\n    dup[length] = \'\\0\';', '    strncpy(dup, s, length);\n    dup[length] = \'\\0\';')],
  'copying a substring with an embedded NUL byte',
  'the bytes behind the NUL are lost', CS + r'''
int main()
{
    const char s[] = "ab\0cd";
    return memcmp(charstr_dupsubstr(s, s + 5), s, 6) != 0;
}
''')
S('c18-array-limit', 'C18', 'src/charstr.c',
  [('    while (i < max_split) {\n', '    while ((int) i < (int) max_split) {\n')],
  'splitting into an array without a limit (-1), or with one above INT_MAX',
  'the string is not split at all', CS + r'''
int main()
{
    char *a[10];
    return charstr_split_into_array("a,b,c", ',', a, -1) != 2;
}
''')
S('c19-substr-nul', 'C19', 'src/charstr.c',
  [('''    char *p;
    for (p = s; p != end; p++)
        *p = charstr_ucase_char(*p);''', '''    char *p;
    for (p = s; p != end && *p; p++)
        *p = charstr_ucase_char(*p);''')],
  'upper-casing a substring with an embedded NUL byte',
  'the bytes behind the NUL are left as they were', CS + r'''
int main()
{
    char s[] = "ab\0cd";
    charstr_ucase_substr(s, s + 5);
    return memcmp(s, "AB\0CD", 6) != 0;
}
''')
S('c19-upper-order', 'C19', 'src/charstr.c',
  [('''    for (; n && *a; n--) {
        unsigned char ac = case_table[*(unsigned char *) a++].lower;
        unsigned char bc = case_table[*(unsigned char *) b++].lower;''', '''    for (; n && *a; n--) {
        unsigned char ac = case_table[*(unsigned char *) a++].upper;
        unsigned char bc = case_table[*(unsigned char *) b++].upper;''')],
  'a limited caseless comparison of a letter with one of [ \\ ] ^ _ `',
  'the sign is reversed', CS + r'''
int main()
{
    return charstr_ncase_cmp("a_", "ab", 2) >= 0;
}
''')
S('c20-label-ascii', 'C20', 'src/charstr_puny.c',
  [('''    for (i = 0; i < c && nonascii[i] <= codepoint; i++)
        if (nonascii[i] == codepoint)
            return;''', '''    for (i = c; i > 0 && nonascii[i - 1] >= codepoint; i--)
        if (nonascii[i - 1] == codepoint && i < 32)
            return;''')],
  'a label of more than 32 distinct non-ASCII characters in which one of the greatest occurs twice',
  'the code point is recorded twice and its occurrences are encoded twice', CS + r'''
int main()
{
    char s[200], *p = s;
    for (int i = 0; i < 40; i++) p = charstr_encode_utf8_codepoint(0x4e00 + i, p, s + 200);
    p = charstr_encode_utf8_codepoint(0x4e00 + 39, p, s + 200);
    *p = 0;
    char *r = charstr_idna_encode(s);
    char t[300] = "", *q = t;
    if (!r) return 1;
    p = s; /* decode what came out and compare */
    extern int decode(const char *, int *);
    int cp[200];
    int n = decode(r + 4, cp);
    for (int i = 0; i < n; i++) q = charstr_encode_utf8_codepoint(cp[i], q, t + 300);
    *q = 0;
    return strcmp(s, t) != 0;
}
int decode(const char *in, int *out)
{
    int n = 128, i = 0, bias = 72, len = 0, b = -1;
    for (int j = 0; in[j]; j++) if (in[j] == '-') b = j;
    for (int j = 0; j < b; j++) out[len++] = in[j];
    const char *p = in + b + 1;
    while (*p) {
        int oldi = i, w = 1;
        for (int k = 36;; k += 36) {
            int d = *p >= 'a' ? *p - 'a' : *p - '0' + 26;
            if (!*p++) exit(1);
            i += d * w;
            int t = k <= bias ? 1 : k >= bias + 26 ? 26 : k - bias;
            if (d < t) break;
            w *= 36 - t;
        }
        len++;
        int delta = oldi == 0 ? (i - oldi) / 700 : (i - oldi) / 2;
        delta += delta / len;
        int k = 0;
        while (delta > 455) { delta /= 35; k += 36; }
        bias = k + 36 * delta / (delta + 38);
        n += i / len;
        i %= len;
        memmove(out + i + 1, out + i, (len - 1 - i) * sizeof *out);
        out[i++] = n;
    }
    return len;
}
''')
S('c21-deviation-mapping', 'C21', 'src/gen_idna_table.c',
  [('''                if (mapping)
                    table[cp].mapping = charstr_dupstr(buffer);''', '''                if (mapping && start < 0x2f800)
                    table[cp].mapping = charstr_dupstr(buffer);''')],
  'a code point from U+2F800 (the supplementary compatibility ideographs)',
  'it has no mapping', CS + r'''
int main()
{
    const char *m = charstr_idna_mapping(0x2f800);
    return !m || strcmp(m, "\xe4\xb8\xbd") != 0;
}
''')
S('c23-neg-zero', 'C23', 'src/float.c',
  [('''bool binary64_to_unsigned(uint64_t value, unsigned long long *n)
{
    if (!(value << 1)) {''', '''bool binary64_to_unsigned(uint64_t value, unsigned long long *n)
{
    if (!value) {''')],
  'converting the negative zero to an unsigned integer',
  'it is refused', r'''
#include <fsdyn/float.h>
int main()
{
    unsigned long long n = 5;
    return !binary64_to_unsigned(1ULL << 63, &n) || n != 0;
}
''')
S('c23-half', 'C23', 'src/float.c',
  [('''    if ((value & (mask >> exp)) == 0) {
        *n = significand >> (52 - exp);
        return true;
    }''', '''    if ((value & (mask >> exp)) <= exp / 51) {
        *n = significand >> (52 - exp);
        return true;
    }''')],
  'an odd multiple of one half above 2 to the 51st',
  'the fraction is accepted by the unsigned conversion', r'''
#include <string.h>
#include <stdint.h>
#include <fsdyn/float.h>
int main()
{
    double d = 2251799813685248.0 + 0.5;
    uint64_t v;
    memcpy(&v, &d, 8);
    unsigned long long n;
    return binary64_to_unsigned(v, &n);
}
''')
MEM = CS + r'''
#include <fsdyn/bytearray.h>
#include <fsdyn/hashtable.h>
#include <fsdyn/list.h>
static long live;
static void *ra(void *p, size_t n)
{
    if (!p && n) live++;
    if (p && !n) { live--; free(p); return NULL; }
    return n ? realloc(p, n) : NULL;
}
'''
S('c24-printf-leak', 'C24', 'src/charstr.c',
  [('''    if (length < 0) {
        errno = EILSEQ;
        return NULL;
    }
    char *buffer = fsalloc(length + 1);
    if (buffer)
        vsprintf(buffer, format, ap);
    return buffer;''', '''    char *buffer = fsalloc(length < 0 ? 1 : length + 1);
    if (length < 0) {
        errno = EILSEQ;
        return NULL;
    }
    if (buffer)
        vsprintf(buffer, format, ap);
    return buffer;''')],
  'a format which the C library refuses',
  'a block is leaked', MEM + r'''
int main()
{
    fs_set_reallocator(ra);
    charstr_printf("%lc", 0x7fffffff);
    return live != 0;
}
''')
S('c24-skew', 'C24', 'src/fsalloc.c',
  [('    reallocator_counter(count);', '    if (count > 0)\n        reallocator_counter(count);\n    else while (count++)\n        reallocator_counter(-1);' if False else '    if (count)\n        reallocator_counter(count > 0 ? 1 : -1);')],
  'reporting a skew of more than one block at a time',
  'only one block is reported to the counter', CS + r'''
static int n;
static void counter(int c) { n += c; }
int main()
{
    fs_set_reallocator_counter(counter);
    fs_reallocator_skew(5); fs_reallocator_skew(-2);
    return n != 3;
}
''')
S('c24-array-zero', 'C24', 'src/bytearray.c',
  [('''    if (--array->ref_count)
        return;
    fsfree(array->data);''', '''    if (--array->ref_count)
        return;
    if (array->size > 1)
        fsfree(array->data);''')],
  'destroying a byte array of maximum size 1',
  'its buffer is leaked', MEM + r'''
int main()
{
    fs_set_reallocator(ra);
    destroy_byte_array(make_byte_array(1));
    return live != 0;
}
''')
S('c25-embedded-nul', 'C25', 'src/charstr.c',
  [('''    char *buffer = fsalloc(length + 1);
    if (buffer)
        vsprintf(buffer, format, ap);
    return buffer;''', '''    if (length < 32) {
        char small[32];
        vsprintf(small, format, ap);
        return charstr_dupstr(small);
    }
    char *buffer = fsalloc(length + 1);
    if (buffer)
        vsprintf(buffer, format, ap);
    return buffer;''')],
  'a short output with an embedded NUL byte (from %c)',
  'the rest of the output is missing', CS + r'''
int main()
{
    char *s = charstr_printf("a%cb%080d" + 0, 0, 1);
    s = charstr_printf("a%cbcdefgh", 0);
    return memcmp(s, "a\0bcdefgh", 10) != 0;
}
''')
S('c25-errno', 'C25', 'src/charstr.c',
  [('''    if (length < 0) {
        errno = EILSEQ;
        return NULL;''', '''    if (length < 0) {
        if (errno != EOVERFLOW)
            errno = EILSEQ;
        return NULL;''')],
  'a format whose output would exceed INT_MAX',
  'errno is EOVERFLOW, not EILSEQ', CS + r'''
int main()
{
    errno = 0;
    char *s = charstr_printf("%2147483647d%d", 1, 2);
    return s || errno != EILSEQ;
}
''')
S('c25-length-16', 'C25', 'src/charstr.c',
  [('''    char *buffer = fsalloc(length + 1);
    if (buffer)
        vsprintf(buffer, format, ap);
    return buffer;''', '''    char *buffer = fsalloc(length + 1);
    if (buffer) {
        length &= 0x1ffff;
        vsnprintf(buffer, length + 1, format, ap);
    }
    return buffer;''')],
  'an output of 128 KiB or longer',
  'the output is truncated', CS + r'''
int main()
{
    char *s = charstr_printf("%*d", 200000, 1);
    return !s || strlen(s) != 200000;
}
''')
