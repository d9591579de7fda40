AVL = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fsdyn/avltree.h>
static int cmp(const void *a, const void *b) { return *(int *) a - *(int *) b; }
static int k[4096];
'''
S('c01-copy-context', 'C01', 'src/avltree.c',
  [('make_avl_tree_2(tree->cmp, tree->obj);', 'make_avl_tree((void *) tree->cmp);')],
  'a tree made with a context object, a shallow copy of it and then an operation on the copy',
  'the copy compares keys with a NULL context', r'''
#include <stdlib.h>
#include <fsdyn/avltree.h>
static int cmp(const void *a, const void *b, void *obj)
{
    if (!obj) exit(1);
    return *(int *) obj * (*(int *) a - *(int *) b);
}
int main()
{
    int sign = -1, k[3] = { 1, 2, 3 };
    avl_tree_t *t = make_avl_tree_2(cmp, &sign);
    for (int i = 0; i < 3; i++) avl_tree_put(t, k + i, k + i);
    avl_tree_t *c = avl_tree_copy(t);
    avl_elem_t *e = avl_tree_get(c, k + 2);
    return !(e && avl_elem_get_value(e) == k + 2);
}
''')
S('c01-replace-parent', 'C01', 'src/avltree.c',
  [('''    if (element->right)
        element->right->parent = element;
    *premoved_element''', '''    if (element->right && !element->left)
        element->right->parent = element;
    *premoved_element''')],
  'replacing the value of an element with two children and traversing or removing in its right subtree afterwards',
  'the right child keeps pointing at the replaced element', AVL + r'''
int main()
{
    int v[3], w;
    for (int i = 0; i < 7; i++) k[i] = i;
    avl_tree_t *t = make_avl_tree(cmp);
    int order[] = { 3, 1, 5, 0, 2, 4, 6 };
    for (int i = 0; i < 7; i++) avl_tree_put(t, &k[order[i]], v);
    avl_elem_t *old = avl_tree_put(t, &k[3], &w);
    avl_elem_t *e = avl_tree_get(t, &k[4]);
    avl_elem_t *p = avl_tree_previous(e);
    return !(p && p != old && avl_elem_get_value(p) == &w);
}
''')
HT = r'''
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <fsdyn/hashtable.h>
#include <fsdyn/fsalloc.h>
static uint64_t hash(const void *p) { return *(int *) p; }
static int cmp(const void *a, const void *b) { return *(int *) a != *(int *) b; }
'''
S('c03-last-bucket', 'C03', 'src/hashtable.c',
  [('''    for (; i < table->capacity; i++) {
        list_t *list''', '''    for (; i + 1 < table->capacity; i++) {
        list_t *list''')],
  'an element whose hash falls into the last bucket and a traversal with get_any/get_other',
  'traversal does not visit the elements of the last bucket', HT + r'''
int main()
{
    int k[60];
    hash_table_t *t = make_hash_table(53, hash, cmp);
    for (int i = 0; i < 60; i++) { k[i] = i; hash_table_put(t, k + i, k + i); }
    int n = 0;
    for (hash_elem_t *e = hash_table_get_any(t); e; e = hash_table_get_other(e)) n++;
    return n != 60;
}
''')
S('c03-put-same-bucket', 'C03', 'src/hashtable.c',
  [('            if (hash_elem_get_value(old) == value)\n                return NULL;\n            list_remove(list, le);\n            add_element(table, i, key, value);\n            return old;',
    '            if (hash_elem_get_value(old) == value)\n                return NULL;\n            if (!list_next(le))\n                list_pop_last(list);\n            else\n                list_pop_first(list);\n            add_element(table, i, key, value);\n            return old;')],
  'three elements in a bucket and replacing the value of the middle one',
  'a put on an existing key unlinks another element of the bucket', HT + r'''
static uint64_t one(const void *p) { return 1; }
int main()
{
    int k[3] = { 1, 2, 3 }, v;
    hash_table_t *t = make_hash_table(1, one, cmp);
    for (int i = 0; i < 3; i++) hash_table_put(t, k + i, k + i);
    hash_table_put(t, k + 1, &v);
    for (int i = 0; i < 3; i++)
        if (!hash_table_get(t, k + i)) return 1;
    return hash_elem_get_value(hash_table_get(t, k + 1)) != &v;
}
''')
S('c04-cmp-subtract', 'C04', 'src/integer.c',
  [('''    if (as_intptr(a) < as_intptr(b))
        return -1;
    if (as_intptr(a) > as_intptr(b))
        return 1;
    return 0;''', '''    intptr_t diff = as_intptr(a) - as_intptr(b);
    return diff < 0 ? -1 : diff > 0;''')],
  'two signed numbers more than INTPTR_MAX apart', 'the signed comparator orders them the wrong way round', r'''
#include <fsdyn/integer.h>
int main()
{
    return !(integer_cmp(as_integer(INTPTR_MIN), as_integer(1)) < 0 && integer_cmp(as_integer(5), as_integer(3)) > 0);
}
''')
S('c04-hash-blob-word', 'C04', 'src/hashtable.c',
  [('''    const uint8_t *p = blob;
    uint64_t hash = 0;
    while (size--)''', '''    const uint8_t *p = blob;
    uint64_t hash = 0;
    if (size > 256) {
        /* a prefix and a suffix are enough to tell large blobs apart */
        hash = hash_blob(p, 128);
        p += size - 128;
        size = 128;
    }
    while (size--)''')],
  'two blobs of more than 256 bytes that differ in a byte in the middle only', 'changing such a byte leaves the hash as it was', r'''
#include <fsdyn/hashtable.h>
int main()
{
    static unsigned char b[1000];
    for (int i = 0; i < 1000; i++) {
        uint64_t h = hash_blob(b, 1000);
        b[i]++;
        if (hash_blob(b, 1000) == h) return 1;
    }
    return 0;
}
''')
LIST = '#include <stdlib.h>\n#include <fsdyn/list.h>\n#include <fsdyn/fsalloc.h>\n'
S('c05-remove-first-prev', 'C05', 'src/list.c',
  [('''            list->first = element->next;
            element->next->previous = NULL;''', '''            list->first = element->next;
            if (list->first == list->last)
                list->first->previous = NULL;''')],
  'removing the first of at least three elements, then traversing backwards or inserting before the new first',
  'the new first element still points back at freed memory', LIST + r'''
int main()
{
    list_t *l = make_list();
    int v[4];
    for (int i = 0; i < 4; i++) list_append(l, v + i);
    list_pop_first(l);
    return list_previous(list_get_first(l)) != NULL;
}
''')
S('c05-index-negative', 'C05', 'src/list.c',
  [('element != NULL && i != idx;', 'element != NULL && i < idx;')],
  'lookup by a negative index in a nonempty list', 'the first element is returned instead of NULL', LIST + r'''
int main()
{
    list_t *l = make_list();
    int v[4];
    for (int i = 0; i < 4; i++) list_append(l, v + i);
    return list_get_by_index(l, -1) != NULL || list_elem_get_value(list_get_by_index(l, 2)) != v + 2;
}
''')
PQ = r'''
#include <stdlib.h>
#include <fsdyn/priority_queue.h>
typedef struct { int prio; void *loc; int in; } el;
static int cmp(const void *a, const void *b) { return ((el *) a)->prio - ((el *) b)->prio; }
static void reloc(const void *e, void *loc) { ((el *) e)->loc = loc; }
'''
S('c07-pair-reloc', 'C07', 'src/priority_queue.c',
  [('''            return prq->storage[--prq->capacity];
        default:
            ;
    }
    const void *value = prq->storage[0];''', '''            return prq->storage[--prq->capacity];
        default:
            ;
    }
    const void *value = prq->storage[0];
    if (prq->capacity == 2) {
        prq->storage[0] = prq->storage[--prq->capacity];
        return value;
    }''')],
  'dequeuing from a queue of two elements and then removing the other one by its locator',
  'the remaining element is moved without telling its new locator', PQ + r'''
int main()
{
    el e[3] = { { 1 }, { 2 }, { 3 } };
    priorq_t *q = make_priority_queue(cmp, reloc);
    priorq_enqueue(q, e); priorq_enqueue(q, e + 1);
    priorq_dequeue(q);
    if (e[1].loc != (void *) 0) {
        priorq_enqueue(q, e + 2);
        return priorq_remove(q, e[1].loc) != e + 1;
    }
    return 0;
}
''')
S('c07-raise-stale', 'C07', 'src/priority_queue.c',
  [('        assign(prq, slot, prq->storage[parent]);\n        slot = parent;', '        if (slot + 1 < prq->capacity)\n            prq->storage[slot] = prq->storage[parent];\n        else\n            assign(prq, slot, prq->storage[parent]);\n        slot = parent;')],
  'an enqueue or removal that raises an element by two or more levels, then removal of a displaced ancestor by its locator',
  'displaced ancestors above the bottom level are not told their new locator', PQ + r'''
int main()
{
    el e[8];
    priorq_t *q = make_priority_queue(cmp, reloc);
    for (int i = 0; i < 8; i++) { e[i].prio = 100 - i; priorq_enqueue(q, e + i); }
    for (int i = 0; i < 8; i++)
        for (int j = 0; j < i; j++)
            if (e[i].loc == e[j].loc) return 1;
    return 0;
}
''')
INT = '#include <stdlib.h>\n#include <limits.h>\n#include <fsdyn/intset.h>\n'
S('c08-find-beyond', 'C08', 'src/intset.c',
  [('''    elem += __builtin_ctzl(x);
    if (elem >= s->size)
        return -1;
    return elem;''', '''    return elem + __builtin_ctzl(x);''')],
  'a size that is no multiple of 64, and a search for a miss where all numbers are members (or a hit after fill)',
  'a number beyond the declared size is reported', INT + r'''
int main()
{
    intset_t *s = make_intset(70);
    for (unsigned i = 0; i < 70; i++) intset_add(s, i);
    return intset_find_next_miss(s, 0) != -1;
}
''')
S('c08-fill-width', 'C08', 'src/intset.c',
  [('''    unsigned i;
    for (i = 0; i < BITS_TO_LONGS(s->size); i++)
        s->data[i] = ~0;''', '''    unsigned i;
    for (i = 0; i < s->size / LONG_BIT; i++)
        s->data[i] = ~0UL;
    for (i *= LONG_BIT; i < s->size; i++)
        s->data[i / LONG_BIT] |= 1U << i % LONG_BIT;''')],
  'fill of a set whose last word has more than 32 numbers', 'the numbers in the upper half of the last word are missing after fill', INT + r'''
int main()
{
    intset_t *s = make_intset(100);
    intset_fill(s);
    for (unsigned i = 0; i < 100; i++)
        if (!intset_has(s, i)) return 1;
    return 0;
}
''')
BA = '#include <stdlib.h>\n#include <string.h>\n#include <errno.h>\n#include <fsdyn/bytearray.h>\n'
S('c10-reader-greedy', 'C10', 'src/bytearray.c',
  [('read_cb(obj, array->data + array->cursor, len);', 'read_cb(obj, array->data + array->cursor,\n                            array->size < array->max_size ?\n                            array->size - array->cursor - 1 : len);')],
  'a stream append with a count below the room in the allocated buffer', 'the reader is asked for more than the requested count', BA + r'''
static ssize_t rd(void *obj, void *buf, size_t n) { *(size_t *) obj = n; memset(buf, 'x', n); return n; }
int main()
{
    size_t asked = 0;
    byte_array_t *a = make_byte_array(1000);
    if (byte_array_append_stream(a, rd, &asked, 10) != 10) return 1;
    return asked != 10 || byte_array_size(a) != 10;
}
''')
B64 = '#include <stdlib.h>\n#include <string.h>\n#include <stdio.h>\n#include <fsdyn/base64.h>\n#include <fsdyn/fsalloc.h>\n'
S('c11-pos63-tail', 'C11', 'src/base64.c',
  [('''            bits = q[0] << 16 | q[1] << 8;
            i = put4(dest, i, dest_size,
                     base64_char(bits >> 18, pos62, pos63),
                     base64_char(bits >> 12, pos62, pos63),
                     base64_char(bits >> 6, pos62, pos63),''', '''            bits = q[0] << 16 | q[1] << 8;
            i = put4(dest, i, dest_size,
                     base64_char(bits >> 18, pos62, pos63),
                     base64_bitfield_encoding[bits >> 12 & 0x3f],
                     base64_char(bits >> 6, pos62, pos63),''')],
  'custom characters for 62/63, an input of 3n+2 bytes whose last group has value 62 or 63 in its second position',
  'the default character is used instead of the caller\'s', B64 + r'''
int main()
{
    char d[8];
    base64_encode_buffer("\xff\xff", 2, d, 8, '-', '_');
    return strcmp(d, "__8=") != 0;
}
''')
S('c12-overflow-wsp', 'C12', 'src/base64.c',
  [('''    while (si < source_size && source[si] && source[si] != '=') {
        int8_t new_bits = get_bits(source[si++], pos62, pos63, ignore_wsp);''', '''    while (si < source_size && source[si] && source[si] != '=') {
        int8_t new_bits = get_bits(source[si++], pos62, pos63, true);''')],
  'whitespace not to be ignored, in the part of the source beyond what the destination holds',
  'whitespace is accepted though it must be rejected', B64 + r'''
int main()
{
    char d[3];
    return base64_decode_buffer("AAAA AAAA", 9, d, 3, -1, -1, false) != -1;
}
''')
S('c12-leftover', 'C12', 'src/base64.c',
  [('    if (bits & ~(~0U << bit_count) ||', '    if (bits & ~(~0U << bit_count / 2) ||')],
  'a final group of two characters whose leftover bits are nonzero only in the upper two', 'a noncanonical encoding is accepted', B64 + r'''
int main()
{
    char d[8];
    for (const char *s = "BCDEFGHIJKLMNOP"; *s; s++) {
        char e[5] = { 'A', *s, '=', '=', 0 };
        if (base64_decode_buffer(e, -1, d, 8, -1, -1, false) != -1) return 1;
    }
    return 0;
}
''')
CS = '#include <stdlib.h>\n#include <string.h>\n#include <stdio.h>\n#include <errno.h>\n#include <fsdyn/charstr.h>\n#include <fsdyn/fsalloc.h>\n'
S('c13-bound-4byte', 'C13', 'src/charstr.c',
  [('''                cp = *s++ & 0x07;
                if (s == end || (*s & 0xc0) != 0x80)''', '''                cp = *s++ & 0x07;
                if ((*s & 0xc0) != 0x80)''')],
  'a bound right after the first byte of a four-byte sequence', 'decoding runs past the bound and succeeds', CS + r'''
int main()
{
    int cp;
    const char *s = "\xf0\x90\x8d\x88";
    for (int i = 0; i < 4; i++)
        if (charstr_decode_utf8_codepoint(s, s + i, &cp)) return 1;
    return charstr_decode_utf8_codepoint(s, s + 4, &cp) != s + 4;
}
''')
S('c13-encode-bound', 'C13', 'src/charstr.c',
  [('''            } else *s++ = 0xe0 | codepoint >> 12;
            if (s == end)
                return NULL;''', '''            } else *s++ = 0xe0 | codepoint >> 12;
            if (s == end && codepoint < 0x10000)
                return NULL;''')],
  'encoding a supplementary code point into two bytes of room', 'the encoder writes past the end', CS + r'''
int main()
{
    char b[8] = "AAAAAAA";
    if (charstr_encode_utf8_codepoint(0x10348, b, b + 2)) return 1;
    return b[2] != 'A' || b[3] != 'A';
}
''')
S('c14-titlecase', 'C14', 'src/lower_case.py',
  [('        if category == "Lu":', '        if category in ("Lu", "Lt"):')],
  'a titlecase letter such as U+01C5', 'titlecase letters, which are not Lu, get a lower-case mapping', CS + r'''
int main()
{
    return charstr_naive_lcase_unicode(0x1c5) != 0x1c5 || charstr_naive_lcase_unicode('A') != 'a';
}
''')
S('c15-exact-fit', 'C15', 'src/charstr_decompose.c',
  [('''    if (q == output_end) {
        errno = EOVERFLOW;
        return NULL;
    }
    *q = '\\0';''', '''    *q = '\\0';''')],
  'an output buffer that the decomposed form fills exactly, leaving no room for the NUL', 'the NUL is written outside the buffer', CS + r'''
int main()
{
    char b[8] = "AAAAAAA";
    errno = 0;
    char *r = charstr_unicode_decompose("xyz", NULL, b, b + 3);
    return r || errno != EOVERFLOW || b[3] != 'A';
}
''')
S('c15-long-sort', 'C15', 'src/charstr_decompose.c',
  [('''        else {
            /* Not very efficient... */''', '''        else if (after_s - begin < 128) {
            /* Not very efficient... */''')],
  'a run of more than about 60 combining marks that are out of canonical order', 'marks far from their starter are not reordered', CS + r'''
int main()
{
    char s[1000] = "a", b[4000], x[1000] = "a";
    strcat(x, "\xcc\x96");
    for (int i = 0; i < 90; i++) { strcat(s, "\xcc\x81"); strcat(x, "\xcc\x81"); }
    strcat(s, "\xcc\x96");
    return !charstr_unicode_decompose(s, NULL, b, b + sizeof b) || strcmp(b, x);
}
''')
S('c16-stream-safe', 'C16', 'src/charstr_recompose.c',
  [('    MAX_CC_SEQ_LENGTH = 100', '    MAX_CC_SEQ_LENGTH = 30')],
  'a starter followed by 31 to 100 uncomposed marks', 'recomposition fails on them', CS + r'''
int main()
{
    char s[1000] = "a", b[1000];
    for (int i = 0; i < 40; i++) strcat(s, "\xcc\x96");
    return !charstr_unicode_recompose(s, NULL, b, b + sizeof b) || strcmp(b, s);
}
''')
S('c16-detect-reset', 'C16', 'src/charstr_unicode.c',
  [('        last_canonical_class = ccc;', '        if (ccc)\n            last_canonical_class = ccc;')],
  'marks of high class, then another starter and marks of a lower class', 'a string in normal form is reported as disallowed', CS + r'''
int main()
{
    return !charstr_unicode_canonically_decomposed("a\xcc\x81" "b\xcc\x96", NULL);
}
''')
S('c17-reserve-case', 'C17', 'src/charstr.c',
  [('"%%%02X", i);', '"%%%02x", i);')],
  'a custom encoder reserving a byte whose code has a hexadecimal letter, e.g. "/"', 'reserved bytes are encoded in lower-case hexadecimal', CS + r'''
int main()
{
    charstr_url_encoder_t *e = charstr_create_url_encoder("/", "");
    return strcmp(charstr_url_custom_encode(e, "a/b"), "a%2Fb") != 0;
}
''')
S('c17-decode-nul', 'C17', 'src/charstr.c',
  [('''                if (size)
                    *size = length;''', '''                if (size)
                    *size = strlen(decoding);''')],
  'an encoding with %00 in it', 'the reported length stops at the embedded NUL', CS + r'''
int main()
{
    size_t n = 0;
    char *r = charstr_url_decode("a%00b", true, &n);
    return !r || n != 3;
}
''')
S('c18-split-overlap', 'C18', 'src/charstr.c',
  [('''        list_append(list, charstr_dupsubstr(s, p));
        s = p + skip;''', '''        list_append(list, charstr_dupsubstr(s, p));
        s = p + skip;
        if (!*s)
            return list;''')],
  'a string that ends in the delimiter string', 'the final empty piece is lost', CS + r'''
int main()
{
    return list_size(charstr_split_str("a--b--", "--", -1)) != 3;
}
''')
S('c18-ends-with', 'C18', 'src/charstr.c',
  [('    return !strcmp(s + len - suffix_len, suffix);', '    s = strstr(s, suffix);\n    return s && !s[suffix_len];')],
  'a suffix that also occurs earlier in the string', 'the suffix is not recognized', CS + r'''
int main()
{
    return !charstr_ends_with("abcabc", "abc");
}
''')
S('c19-ncase-signed', 'C19', 'src/charstr.c',
  [('''    for (; n && *a; n--) {
        unsigned char ac = case_table[*(unsigned char *) a++].lower;
        unsigned char bc''', '''    for (; n && *a; n--) {
        char ac = case_table[*(unsigned char *) a++].lower;
        char bc''')],
  'a limited caseless comparison of an ASCII with a non-ASCII byte', 'non-ASCII bytes sort before ASCII ones', CS + r'''
int main()
{
    return charstr_ncase_cmp("a", "\xc3", 1) >= 0;
}
''')
FL = '#include <limits.h>\n#include <string.h>\n#include <fsdyn/float.h>\nstatic uint64_t bits(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }\n'
S('c23-llong-min', 'C23', 'src/float.c',
  [('''    if (value == 0xc3e0000000000000) {
        *n = LLONG_MIN;
        return true;
    }

''', '')],
  'the pattern of -2^63', 'LLONG_MIN is refused', FL + r'''
int main()
{
    long long n = 0;
    return !binary64_to_integer(bits(-0x1p63), &n) || n != LLONG_MIN;
}
''')
S('c23-unsigned-top', 'C23', 'src/float.c',
  [('exp >= bits)', 'exp > bits)')],
  'numbers from 2^64 to below 2^65', 'they are accepted and delivered modulo 2^64', FL + r'''
int main()
{
    unsigned long long n = 0;
    return binary64_to_unsigned(bits(0x1p64), &n) || !binary64_to_unsigned(bits(0x1p63), &n);
}
''')
CNT = CS + r'''
#include <fsdyn/hashtable.h>
static int balance;
static void *counting(void *p, size_t n)
{
    if (p && !n) { balance--; free(p); return NULL; }
    if (!p) balance++;
    return realloc(p, n);
}
'''
S('c24-bucket-leak', 'C24', 'src/hashtable.c',
  [('    if (list == NULL) {\n        list = table->table[i] = make_list();', '    if (list == NULL || list_empty(list)) {\n        list = table->table[i] = make_list();')],
  'a put into a bucket emptied before', 'the old bucket list is never released', CNT + r'''
static uint64_t hash(const void *p) { return 0; }
static int cmp(const void *a, const void *b) { return a != b; }
int main()
{
    int k;
    fs_set_reallocator(counting);
    hash_table_t *t = make_hash_table(1, hash, cmp);
    for (int i = 0; i < 3; i++) {
        hash_table_put(t, &k, &k);
        destroy_hash_element(hash_table_pop(t, &k));
    }
    destroy_hash_table(t);
    return balance != 0;
}
''')
S('c24-strdup', 'C24', 'src/charstr.c',
  [('    return charstr_dupsubstr(s, s + strlen(s));', '    return strdup(s);')],
  'an installed reallocator', 'copies of strings do not come from it', CNT + r'''
int main()
{
    fs_set_reallocator(counting);
    fsfree(charstr_dupstr("hello"));
    return balance != 0;
}
''')
S('c25-stack', 'C25', 'src/charstr.c',
  [('''    char *buffer = fsalloc(length + 1);
    if (buffer)
        vsprintf(buffer, format, ap);
    return buffer;''', '''    if (length <= 4096) {
        char small[4096];
        vsnprintf(small, sizeof small, format, ap);
        return charstr_dupstr(small);
    }
    char *buffer = fsalloc(length + 1);
    if (buffer)
        vsprintf(buffer, format, ap);
    return buffer;''')],
  'output of exactly 4096 characters, or with an embedded NUL', 'the last character is lost', CS + r'''
int main()
{
    for (int i = 4000; i < 4200; i++)
        if (strlen(charstr_printf("%*d", i, 7)) != i) return 1;
    return 0;
}
''')
