# Caches outliving what they remember; counters that are too narrow
S('c26-hash-last', 'C26', 'src/hashtable.c',
  [('''hash_elem_t *hash_table_get(hash_table_t *table, const void *key)
{
    list_t *list =''', '''hash_elem_t *hash_table_get(hash_table_t *table, const void *key)
{
    /* the same key is often asked for again: remember its place */
    static const void *last_key;
    static hash_table_t *last_table;
    static uint64_t last_hash;
    if (key != last_key || table != last_table) {
        last_table = table;
        last_key = key;
        last_hash = table->hash(key);
    }
    list_t *list ='''), ('''table->table[table->hash(key) % table->capacity];
    if (list == NULL)
        return NULL;
    list_elem_t *le;
    for (le = list_get_first(list); le != NULL; le = list_next(le)) {
        hash_elem_t *element = (hash_elem_t *) list_elem_get_value(le);
        if (table->cmp(key, element->key) == 0)
            return element;''', '''table->table[last_hash % table->capacity];
    if (list == NULL)
        return NULL;
    list_elem_t *le;
    for (le = list_get_first(list); le != NULL; le = list_next(le)) {
        hash_elem_t *element = (hash_elem_t *) list_elem_get_value(le);
        if (table->cmp(key, element->key) == 0)
            return element;''')],
  'asking for different keys in the same buffer (or using tables from two threads or inside a hash function)',
  'hash_table_get looks in the bucket of the key the buffer held before', r'''
#include <fsdyn/hashtable.h>
#include <string.h>
#include <stdio.h>
static uint64_t h(const void *p) { return hash_string(p); }
static int cmp(const void *a, const void *b) { return strcmp(a, b); }
int main()
{
    static char k[100][8];
    hash_table_t *a = make_hash_table(200, h, cmp);
    for (int i = 0; i < 100; i++) { sprintf(k[i], "k%d", i); hash_table_put(a, k[i], k[i]); }
    char buf[8];
    for (int i = 0; i < 100; i++) {
        sprintf(buf, "k%d", i);
        hash_elem_t *e = hash_table_get(a, buf);
        if (!e || hash_elem_get_value(e) != k[i]) return 1;
    }
    destroy_hash_table(a);
    return 0;
}
''')
S('c24-list-spare', 'C24', 'src/list.c',
  [('''list_t *make_list(void)
{
    list_t *list = fsalloc(sizeof *list);
''', '''static list_t *spare;           /* kept for the next make_list() */

list_t *make_list(void)
{
    list_t *list = spare;
    spare = NULL;
    if (!list)
        list = fsalloc(sizeof *list);
'''), ('''        fsfree(element);
    }
    fsfree(list);
''', '''        fsfree(element);
    }
    if (spare)
        fsfree(list);
    else
        spare = list;
''')],
  'changing the reallocator between destroying a list and making or destroying another one, or balancing allocations',
  'a list head is kept and given to another reallocator', r'''
#include <stdlib.h>
#include <fsdyn/list.h>
#include <fsdyn/fsalloc.h>
static long balance;
static void *re(void *p, size_t n)
{
    if (!p && n) balance++;
    if (!n) { if (p) balance--; free(p); return NULL; }
    return realloc(p, n);
}
int main()
{
    fs_set_reallocator(re);
    for (int i = 0; i < 10; i++) {
        list_t *l = make_list(), *m = make_list();
        list_append(l, "x");
        destroy_list(l); destroy_list(m);
    }
    return balance != 0;
}
''')
S('c12-wsp-run', 'C12', 'src/base64.c',
  [('''    unsigned bits = 0;
    unsigned bit_count = 0;
''', '''    unsigned bits = 0;
    unsigned bit_count = 0;
    uint8_t wsp_count = 0;      /* between two digits */
'''), ('''        int8_t new_bits = get_bits(source[si++], pos62, pos63, ignore_wsp);
        if (new_bits < 0) {
            if (new_bits == BASE64_ILLEGAL_WHITESPACE)
                continue;
            errno = EILSEQ;
            return -1;
        }
        bits = bits << 6 | new_bits;
        bit_count += 6;
        if (bit_count >= 8) {
            bit_count -= 8;
            buffer[pi++] =''', '''        int8_t new_bits = get_bits(source[si++], pos62, pos63, ignore_wsp);
        if (new_bits < 0) {
            if (new_bits == BASE64_ILLEGAL_WHITESPACE && ++wsp_count)
                continue;
            errno = EILSEQ;
            return -1;
        }
        wsp_count = 0;
        bits = bits << 6 | new_bits;
        bit_count += 6;
        if (bit_count >= 8) {
            bit_count -= 8;
            buffer[pi++] =''')],
  '256 or more whitespace characters in a row within the encoding, with room in the destination',
  'a valid encoding is refused', r'''
#include <string.h>
#include <fsdyn/base64.h>
int main()
{
    char in[1000], out[10];
    strcpy(in, "QU");
    memset(in + 2, ' ', 300);
    strcpy(in + 302, "JD");
    return !(base64_decode_buffer(in, strlen(in), out, sizeof out, -1, -1, true) == 3 && !memcmp(out, "ABC", 3));
}
''')
S('c19-ncase-int', 'C19', 'src/charstr.c',
  [('''    for (; n && *a; n--) {''', '''    unsigned left = n;
    for (; left && *a; left--) {'''), ('    if (n && *b)\n', '    if (left && *b)\n')],
  'a limit that is a multiple of 2^32 (or beyond it)',
  'the strings compare equal', r'''
#include <fsdyn/charstr.h>
int main()
{
    return !(charstr_ncase_cmp("a", "b", (size_t) 1 << 32) < 0 && charstr_ncase_cmp("AB", "aa", ((size_t) 1 << 32) + 1) > 0);
}
''')
S('c13-sanitize-many', 'C13', 'src/charstr.c',
  [('    size_t bad_bytes = 0;\n', '    uint16_t bad_bytes = 0;\n')],
  'a text with more than 65535 invalid bytes',
  'sanitizing writes beyond the block it allocated', r'''
#include <stdlib.h>
#include <string.h>
#include <fsdyn/charstr.h>
#include <fsdyn/fsalloc.h>
static size_t largest;
static void *re(void *p, size_t n)
{
    if (n > largest) largest = n;
    if (!n) { free(p); return NULL; }
    return realloc(p, n + 400000);
}
int main()
{
    fs_set_reallocator(re);
    size_t n = 70000;
    char *s = malloc(n + 1);
    memset(s, 0xff, n);
    s[n] = 0;
    char *t = charstr_sanitize_utf8(s);
    return !(strlen(t) == 3 * n && largest >= 3 * n + 1);
}
''')
S('c10-int-count', 'C10', 'src/bytearray.c',
  [('    ssize_t count = read_cb(obj, array->data + array->cursor, len);', '    int count = read_cb(obj, array->data + array->cursor, len);')],
  'a reader delivering 2^31 bytes or more at once',
  'the bytes are not added and the result is wrong', r'''
#define _GNU_SOURCE
#include <string.h>
#include <sys/mman.h>
#include <fsdyn/bytearray.h>
#include <fsdyn/fsalloc.h>
static void *re(void *p, size_t n)
{
    size_t *h = p ? (size_t *) ((char *) p - 4096) : NULL;
    if (!n) { if (h) munmap(h, *h); return NULL; }
    n += 4096;
    size_t *q = h ? mremap(h, *h, n, MREMAP_MAYMOVE)
                  : mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (q == MAP_FAILED) _exit(2);
    *q = n;
    return (char *) q + 4096;
}
static ssize_t rd(void *obj, void *buf, size_t n) { return n; }
int main()
{
    fs_set_reallocator(re);
    byte_array_t *a = make_byte_array(-1);
    size_t n = ((size_t) 1 << 31) + 5;
    int ok = byte_array_append_stream(a, rd, NULL, n) == n && byte_array_size(a) == n;
    destroy_byte_array(a);
    return !ok;
}
''')
S('c08-int-word', 'C08', 'src/intset.c',
  [('''void intset_remove(intset_t *s, unsigned elem)
{
    if (elem < s->size)
        s->data[elem / LONG_BIT] &= ~(1UL << elem % LONG_BIT);''', '''void intset_remove(intset_t *s, unsigned elem)
{
    int word = (int) elem / (int) LONG_BIT;
    if (elem < s->size)
        s->data[word] &= ~(1UL << elem % LONG_BIT);''')],
  'removing a number beyond INT_MAX from a set that reaches so far',
  'memory before the set is changed and the number stays', r'''
#include <fsdyn/intset.h>
int main()
{
    intset_t *s = make_intset((size_t) 1 << 32);
    intset_add(s, 3000000000u);
    if (!intset_has(s, 3000000000u)) return 1;
    intset_remove(s, 3000000000u);
    int bad = intset_has(s, 3000000000u);
    destroy_intset(s);
    return bad;
}
''')
S('c05-short-index', 'C05', 'src/list.c',
  [('''    int i;
    list_elem_t *element;
    for (element = list->first, i = 0;''', '''    short i;
    list_elem_t *element;
    for (element = list->first, i = 0;''')],
  'an index of 32768 or more',
  'list_get_by_index finds nothing', r'''
#include <fsdyn/list.h>
int main()
{
    static int x[40000];
    list_t *l = make_list();
    for (int i = 0; i < 40000; i++) list_append(l, x + i);
    list_elem_t *e = list_get_by_index(l, 39999);
    int bad = !e || list_elem_get_value(e) != x + 39999;
    destroy_list(l);
    return bad;
}
''')
S('c16-ccs-byte', 'C16', 'src/charstr_recompose.c',
  [('''    for (j = 0; j < count; j++)
        if (charstr_unicode_canonical_combining_class(seq[j]) >= ccc)''', '''    int8_t c = ccc;             /* classes are small */
    for (j = 0; j < count; j++)
        if ((int8_t) charstr_unicode_canonical_combining_class(seq[j]) >= c)''')],
  'a starter followed by marks of classes on both sides of 128, the later one of which composes with it',
  'a mark composes with the starter though it is blocked, or does not though it is not blocked', r'''
#include <string.h>
#include <stdio.h>
#include <fsdyn/charstr.h>
static int one(const char *in, const char *want)
{
    char out[100];
    char *q = charstr_unicode_recompose(in, NULL, out, out + sizeof out);
    return !q || strcmp(out, want);
}
int main()
{
    /* U+1039 has class 9, U+0323 220, U+0301 230 */
    return one("a\xe1\x80\xb9\xcc\x81", "\xc3\xa1\xe1\x80\xb9");
}
''')
