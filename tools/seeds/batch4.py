# Hidden shared state and const data (C26)
TH = r'''
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static volatile int bad;
static void *worker(void *arg);
static int run(int n, int seconds)
{
    pthread_t t[16];
    alarm(seconds + 60);
    for (long i = 0; i < n; i++)
        if (pthread_create(t + i, NULL, worker, (void *) i)) return 2;
    for (int i = 0; i < n; i++)
        pthread_join(t[i], NULL);
    return bad != 0;
}
'''
S('c26-hash-cursor', 'C26', 'src/hashtable.c',
  [('''static hash_elem_t *get_next(hash_table_t *table, size_t i)
{
    for (; i < table->capacity; i++) {
        list_t *list = table->table[i];
        if (list != NULL && !list_empty(list))
''', '''/* where the traversal has come to */
static size_t traversed;

static hash_elem_t *get_next(hash_table_t *table, size_t i)
{
    for (; i < table->capacity; i++) {
        list_t *list = table->table[i];
        traversed = i + 1;
        if (list != NULL && !list_empty(list))
'''), ('    return get_next(element->hash_table, element->list_index + 1);', '    return get_next(element->hash_table, traversed);')],
  'traversing two hash tables alternately (each traversal alone, from beginning to end, is right)',
  'elements of one table are skipped or visited again because the position of the traversal is kept in a static variable', r'''
#include <fsdyn/hashtable.h>
static uint64_t h(const void *p) { return *(const int *) p; }
static int cmp(const void *a, const void *b) { return *(const int *) a - *(const int *) b; }
int main()
{
    static int k[100];
    hash_table_t *a = make_hash_table(200, h, cmp), *b = make_hash_table(200, h, cmp);
    for (int i = 0; i < 100; i++) {
        k[i] = i;
        hash_table_put(a, k + i, k + i);
        if (i % 3 == 0) hash_table_put(b, k + i, k + i);
    }
    int n = 0, m = 0;
    for (hash_elem_t *e = hash_table_get_any(a); e; e = hash_table_get_other(e)) {
        int i = 0;
        for (hash_elem_t *f = hash_table_get_any(b); f && i < 5; f = hash_table_get_other(f), i++) m++;
        if (n++ > 1000) break;
    }
    destroy_hash_table(a); destroy_hash_table(b);
    return !(n == 100 && m == 500);
}
''')
S('c26-recomposer-static', 'C26', 'src/charstr_recompose.c',
  [('    recomposer_t recomposer;\n    hangul_recomposer_t', '    static recomposer_t recomposer; /* too big for small stacks */\n    hangul_recomposer_t')],
  'two threads composing texts at the same time',
  'the texts get mixed up because the working area is static', '#include <fsdyn/charstr.h>\n' + TH + r'''
static void *worker(void *arg)
{
    long me = (long) arg;
    char in[400], out[800];
    for (int i = 0; i < 60; i++)
        strcpy(in + i * 3, me % 2 ? "e\xcc\x81" : "o\xcc\x88");
    for (int i = 0; i < 20000 && !bad; i++) {
        char *q = charstr_unicode_recompose(in, NULL, out, out + sizeof out);
        if (!q || q - out != 120) { bad = 1; break; }
        for (char *p = out; p < q; p += 2)
            if (memcmp(p, me % 2 ? "\xc3\xa9" : "\xc3\xb6", 2)) bad = 1;
    }
    return NULL;
}
int main() { return run(8, 30); }
''')
S('c26-strip-nul', 'C26', 'src/charstr.c',
  [('    return charstr_dupsubstr(s, end);\n}\n\nstatic bool valid_unicode', '''    if (!*end)
        return charstr_dupstr(s);
    /* cut the text for a moment */
    char c = *end;
    *(char *) end = '\\0';
    char *result = charstr_dupstr(s);
    *(char *) end = c;
    return result;
}

static bool valid_unicode''')],
  'stripping a text with trailing whitespace that lies in read-only memory (or is used by another thread)',
  'charstr_strip writes into its const argument', r'''
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <sys/mman.h>
#include <fsdyn/charstr.h>
#include <fsdyn/fsalloc.h>
int main()
{
    char *p = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) return 2;
    strcpy(p, "  some text \t");
    mprotect(p, 4096, PROT_READ);
    char *s = charstr_strip(p);
    int r = strcmp(s, "some text") != 0;
    fsfree(s);
    return r;
}
''')
S('c26-split-nul', 'C26', 'src/charstr.c',
  [('''        const char *p = strstr(s, delim);
        if (!p)
            break;
        list_append(list, charstr_dupsubstr(s, p));
''', '''        const char *p = strstr(s, delim);
        if (!p)
            break;
        if (skip > 1) {
            /* no need to measure */
            char first = *p;
            *(char *) p = '\\0';
            list_append(list, charstr_dupstr(s));
            *(char *) p = first;
        } else
            list_append(list, charstr_dupsubstr(s, p));
''')],
  'splitting a text in read-only memory (or shared between threads) at a delimiter of several characters',
  'charstr_split_str writes into its const argument', r'''
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <sys/mman.h>
#include <fsdyn/charstr.h>
#include <fsdyn/fsalloc.h>
int main()
{
    char *p = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) return 2;
    strcpy(p, "a::b::c");
    mprotect(p, 4096, PROT_READ);
    list_t *l = charstr_split_str(p, "::", -1);
    int r = list_size(l) != 3;
    while (!list_empty(l)) fsfree((void *) list_pop_first(l));
    destroy_list(l);
    return r;
}
''')
S('c26-date-cache', 'C26', 'src/date.c',
  [('''    time_t days = epoch / SECONDS_PER_DAY;
    tm->tm_sec = epoch''', '''    static struct tm last_tm;
    static time_t last_epoch = -1;
    if (epoch == last_epoch) {
        *tm = last_tm;
        return tm;
    }
    time_t days = epoch / SECONDS_PER_DAY;
    tm->tm_sec = epoch'''),
   ('''    tm->tm_mday = info->mday;
    return tm;''', '''    tm->tm_mday = info->mday;
    last_epoch = epoch;
    last_tm = *tm;
    return tm;''')],
  'two threads converting times at the same time, one of them the time the other has just converted',
  'a thread gets a mixture of two broken-down times out of an unlocked cache', '#include <fsdyn/date.h>\n#include <time.h>\n' + TH + r'''
static void *worker(void *arg)
{
    static const time_t at[3] = { 86399 + 86400L * 364, 1000000000, 1700000000 };
    unsigned seed = (long) arg + 1;
    for (int i = 0; i < 30000000 && !bad; i++) {
        time_t t = at[(i + (seed = seed * 1103515245 + 12345) / 65536) % 3];
        struct tm x, y;
        epoch_to_utc(t, &x);
        gmtime_r(&t, &y);
        if (x.tm_sec != y.tm_sec || x.tm_min != y.tm_min || x.tm_hour != y.tm_hour ||
            x.tm_mday != y.tm_mday || x.tm_mon != y.tm_mon || x.tm_year != y.tm_year)
            bad = 1;
    }
    return NULL;
}
int main() { return run(8, 100); }
''')
S('c26-copy-static', 'C26', 'src/avltree.c',
  [('''static avl_elem_t *copy_tree(avl_elem_t *element)
{
    avl_elem_t *copy = make_element(element->key, element->value);
    copy->balance = element->balance;
''', '''static avl_elem_t *copy_tree(avl_elem_t *element)
{
    static int balance;
    balance = element->balance;
    avl_elem_t *copy = make_element(element->key, element->value);
    copy->balance = balance;
''')],
  'copying a tree while another tree is copied: in another thread, or inside the installed reallocator',
  'the copy gets balance factors of the other tree', r'''
#include <stdio.h>
#include <stdlib.h>
#include <fsdyn/avltree.h>
#include <fsdyn/fsalloc.h>
#include <avltree_imp.h>
static int cmp(const void *a, const void *b) { return *(int *) a - *(int *) b; }
static int k[4096];
static avl_tree_t *other;
static int inside, armed;
static void *re(void *p, size_t n)
{
    if (armed && !inside && n) {
        inside = 1;
        destroy_avl_tree(avl_tree_copy(other));
        inside = 0;
    }
    if (!n) { free(p); return NULL; }
    return realloc(p, n);
}
static int height(avl_elem_t *e)
{
    if (!e) return 0;
    int l = height(e->left), r = height(e->right);
    if (r - l != e->balance) exit(1);
    return 1 + (l > r ? l : r);
}
int main()
{
    fs_set_reallocator(re);
    avl_tree_t *t = make_avl_tree(cmp);
    other = make_avl_tree(cmp);
    for (int i = 0; i < 100; i++) { k[i] = i; avl_tree_put(t, k + i, k + i); if (i < 12) avl_tree_put(other, k + i, k + i); }
    armed = 1;
    avl_tree_t *c = avl_tree_copy(t);
    armed = 0;
    height(c->root);
    destroy_avl_tree(c); destroy_avl_tree(t); destroy_avl_tree(other);
    return 0;
}
''')
S('c26-prio-static', 'C26', 'src/priority_queue.c',
  [('''    const void *value = prq->storage[0];
    lower(prq, 0, prq->storage[--prq->capacity]);
    return value;''', '''    static const void *value;
    value = prq->storage[0];
    lower(prq, 0, prq->storage[--prq->capacity]);
    return value;''')],
  'a comparator or relocation callback that uses another priority queue, or two threads',
  'dequeueing returns the element that was dequeued from the other queue', r'''
#include <fsdyn/priority_queue.h>
static int k[100];
static priorq_t *inner;
static int cmp0(const void *a, const void *b) { return *(int *) a - *(int *) b; }
static int cmp(const void *a, const void *b)
{
    const void *v = priorq_dequeue(inner);
    if (v) priorq_enqueue(inner, v);
    return cmp0(a, b);
}
int main()
{
    inner = make_priority_queue(cmp0, 0);
    priorq_t *q = make_priority_queue(cmp, 0);
    for (int i = 0; i < 100; i++) k[i] = i;
    for (int i = 0; i < 10; i++) priorq_enqueue(inner, k + i);
    for (int i = 50; i < 80; i++) priorq_enqueue(q, k + i);
    for (int i = 50; i < 80; i++)
        if (priorq_dequeue(q) != k + i) return 1;
    return 0;
}
''')
S('c26-base64-lazy', 'C26', 'src/base64.c',
  [('''    if (pos62 == -1)
        pos62 = '+';
    if (pos63 == -1)
        pos63 = '/';
    size_t dest_body_counter''', '''    if (pos62 == -1)
        pos62 = '+';
    if (pos63 == -1)
        pos63 = '/';
    /* the digits in use */
    static char alphabet[64];
    if (alphabet[62] != pos62 || alphabet[63] != pos63) {
        memcpy(alphabet, base64_bitfield_encoding, 62);
        alphabet[62] = pos62;
        alphabet[63] = pos63;
    }
    size_t dest_body_counter'''),
   ('''        dest[i++] = base64_char(bits >> 18, pos62, pos63);
        dest[i++] = base64_char(bits >> 12, pos62, pos63);
        dest[i++] = base64_char(bits >> 6, pos62, pos63);
        dest[i++] = base64_char(bits, pos62, pos63);
''', '''        dest[i++] = alphabet[bits >> 18 & 0x3f];
        dest[i++] = alphabet[bits >> 12 & 0x3f];
        dest[i++] = alphabet[bits >> 6 & 0x3f];
        dest[i++] = alphabet[bits & 0x3f];
''')],
  'two threads encoding at the same time with different characters for 62 and 63',
  'an encoding contains the other thread\'s characters', '#include <fsdyn/base64.h>\n' + TH + r'''
static void *worker(void *arg)
{
    long me = (long) arg;
    char in[3000], out[4100];
    memset(in, 0xff, sizeof in);
    for (int i = 0; i < 20000 && !bad; i++) {
        base64_encode_buffer(in, sizeof in, out, sizeof out, -1, me % 2 ? '_' : '/');
        for (int j = 0; j < 4000; j++)
            if (out[j] != (me % 2 ? '_' : '/')) { bad = 1; break; }
    }
    return NULL;
}
int main() { return run(8, 60); }
''')
S('c26-idna-static', 'C26', 'src/charstr_puny.c',
  [('    char encoding[MAX_DNS_NAME_LENGTH + 1];', '    static char encoding[MAX_DNS_NAME_LENGTH + 1];')],
  'two threads encoding hostnames at the same time',
  'a hostname gets the encoding of another one, or none', '#include <fsdyn/charstr.h>\n#include <fsdyn/fsalloc.h>\n' + TH + r"""
static void *worker(void *arg)
{
    long me = (long) arg;
    for (int i = 0; i < 20000 && !bad; i++) {
        char *e = charstr_idna_encode(me % 2 ? "b\xc3\xbc" "cher.example" : "\xc3\xa5ngstr\xc3\xb6m.test.example");
        if (!e || strcmp(e, me % 2 ? "xn--bcher-kva.example" : "xn--ngstrm-hua5l.test.example")) bad = 1;
        fsfree(e);
    }
    return NULL;
}
int main() { return run(8, 60); }
""")
