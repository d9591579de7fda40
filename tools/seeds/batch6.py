# Limits on depth, width and length; shortcuts that are nearly right
S('c01-deep-copy', 'C01', 'src/avltree.c',
  [('''static avl_elem_t *copy_tree(avl_elem_t *element)
{
    avl_elem_t *copy = make_element(element->key, element->value);
    copy->balance = element->balance;
    if (element->left) {
        copy->left = copy_tree(element->left);
        copy->left->parent = copy;
    }
    if (element->right) {
        copy->right = copy_tree(element->right);
        copy->right->parent = copy;
    }
    return copy;
}
''', '''static avl_elem_t *copy_element(avl_elem_t *element, avl_elem_t *parent)
{
    avl_elem_t *copy = make_element(element->key, element->value);
    copy->balance = element->balance;
    copy->parent = parent;
    return copy;
}

/* without recursion: the path fits easily as the tree is balanced */
static avl_elem_t *copy_tree(avl_elem_t *element)
{
    enum { MAX_DEPTH = 25 };
    struct {
        avl_elem_t *from, *to;
    } stack[MAX_DEPTH];
    int depth = 1;
    avl_elem_t *root = copy_element(element, NULL);
    stack[0].from = element;
    stack[0].to = root;
    while (depth) {
        avl_elem_t *from = stack[depth - 1].from;
        avl_elem_t *to = stack[depth - 1].to;
        avl_elem_t *next = NULL, *copy;
        if (depth < MAX_DEPTH && from->left && !to->left) {
            next = from->left;
            copy = to->left = copy_element(next, to);
        } else if (depth < MAX_DEPTH && from->right && !to->right) {
            next = from->right;
            copy = to->right = copy_element(next, to);
        }
        if (next) {
            stack[depth].from = next;
            stack[depth++].to = copy;
        } else depth--;
    }
    return root;
}
''')],
  'a tree of height 26 or more (317810 elements at least, 2^25 - 1 if it is full) that is copied',
  'the copy lacks the elements below the 25th level', r'''
#include <fsdyn/avltree.h>
#include <stdint.h>
static int cmp(const void *a, const void *b)
{
    return (intptr_t) a < (intptr_t) b ? -1 : (intptr_t) a > (intptr_t) b;
}
static avl_tree_t *t;
static intptr_t key;
/* all positions of a sparsest tree of height h, level by level */
static void level(int h, int depth)
{
    if (h <= 0)
        return;
    intptr_t k;
    (void) k;
    level(h - 1, depth - 1);
    key++;
    if (depth == 0)
        avl_tree_put(t, (void *) key, (void *) key);
    level(h - 2, depth - 1);
}
int main()
{
    t = make_avl_tree(cmp);
    for (int d = 0; d < 27; d++) {
        key = 0;
        level(27, d);
    }
    avl_tree_t *c = avl_tree_copy(t);
    for (intptr_t k = 1; k <= key; k++)
        if (!avl_tree_get(c, (void *) k))
            return 1;
    destroy_avl_tree(c);
    destroy_avl_tree(t);
    return 0;
}
''')
S('c11-chunk', 'C11', 'src/base64.c',
  [('''    const uint8_t *tail = q + source_size - source_size % 3;
    uint32_t bits;''', '''    const uint8_t *tail = q + source_size - source_size % 3;
    uint16_t blocks = 0;
    uint32_t bits;'''),
   ('''    i += (tail - q) / 3 * 4;
    q = tail;
    switch''', '''    blocks = (tail - q) / 3;
    i += (size_t) blocks * 4;
    q = tail;
    switch''')],
  'a source more than 3 * 65536 bytes longer than what the destination holds',
  'the returned length is short by a multiple of 2^18', r'''
#include <fsdyn/base64.h>
#include <stdlib.h>
int main()
{
    size_t n = 3 * 70000 + 1;
    char *s = calloc(1, n), d[40];
    return base64_encode_buffer(s, n, d, sizeof d, -1, -1) != base64_encoding_size(n);
}
''')
S('c16-maybe-early', 'C16', 'src/charstr_unicode.c',
  [('''        if (check & maybe_flag)
            result = maybe_flag;
        last_canonical_class = ccc;
''', '''        if (check & maybe_flag) {
            /* nothing more to learn unless a mark follows */
            if (!ccc)
                return maybe_flag;
            result = maybe_flag;
        }
        last_canonical_class = ccc;
''')],
  'a Hangul vowel jamo (a starter that may compose) and behind it a disallowed character, misplaced mark or bad UTF-8',
  'the detector says maybe without looking at the rest of the text', r'''
#include <fsdyn/charstr.h>
#include <string.h>
int main()
{
    const char *s = "\xE1\x85\xA1x\xE2\x84\xAB";        /* U+1161 x U+212B */
    const char *b = "\xE1\x85\xA1x\xFF";
    return charstr_detect_unicode_normal_form(s, s + strlen(s), UNICODE_NFC_DISALLOWED, UNICODE_NFC_MAYBE) !=
        UNICODE_NFC_DISALLOWED ||
        charstr_detect_unicode_normal_form(b, b + strlen(b), UNICODE_NFC_DISALLOWED, UNICODE_NFC_MAYBE) != -1;
}
''')
S('c24-decode-leak', 'C24', 'src/charstr.c',
  [('''    size_t length;
    for (length = 0; *ep; length++)
        if (*ep++ == '%' &&''', '''    size_t length;
    /* the decoding is never longer */
    char *decoding = fsalloc(strlen(encoding) + 1);
    if (!decoding)
        return NULL;
    for (length = 0; *ep; length++)
        if (*ep++ == '%' &&'''), ('''            errno = EILSEQ;
            return NULL;
        }
    char *decoding = fsalloc(length + 1);
    if (!decoding)
        return NULL;
    char *dp = decoding;''', '''            if (ep > encoding + length + 2)
                fsfree(decoding);
            errno = EILSEQ;
            return NULL;
        }
    char *dp = decoding;''')],
  'a bad first digit in the very first percent sequence of the string',
  'the buffer is not freed when decoding fails there', r'''
#include <fsdyn/charstr.h>
#include <fsdyn/fsalloc.h>
#include <stdlib.h>
static int balance;
static void *counting(void *p, size_t n)
{
    if (p) balance--;
    if (n) balance++;
    if (!n) { free(p); return NULL; }
    return realloc(p, n);
}
int main()
{
    static const char *const bad[] = { "%", "abc%xx", "a%4", "%41%4g", "%20b%zz" };
    fs_set_reallocator(counting);
    for (int i = 0; i < 5; i++)
        if (charstr_url_decode(bad[i], true, NULL))
            return 2;
    return balance != 0;
}
''')
