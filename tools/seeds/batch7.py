# Sizes beyond 32 bits, also where only the bound is far away
MAP = r"""
#define _GNU_SOURCE
#include <sys/mman.h>
#include <string.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdio.h>
#include <fsdyn/fsalloc.h>
static char *room(size_t n)
{
    char *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) exit(0);
    return p;
}
/* n bytes c, taking 2 MB */
static char *filled(size_t n, char c)
{
    size_t unit = 2 << 20, total = (n + unit - 1) / unit * unit;
    char *p = mmap(NULL, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    int fd = memfd_create("x", 0);
    if (p == MAP_FAILED || fd < 0 || ftruncate(fd, unit)) exit(0);
    for (size_t i = 0; i < total; i += unit)
        if (mmap(p + i, unit, PROT_READ | PROT_WRITE, MAP_FIXED | KIND, fd, 0) == MAP_FAILED) exit(0);
    char *w = mmap(NULL, unit, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    memset(w, c, unit);
    return p;
}
"""
MAP = MAP.replace('#include <sys/mman.h>', '#include <sys/mman.h>\n#ifndef KIND\n#define KIND MAP_PRIVATE\n#endif')
MAPU = MAP.replace('#include <sys/mman.h>', '#include <sys/mman.h>\n#include <unistd.h>')
S('c04-blob-width', 'C04', 'src/hashtable.c',
  [('''    const uint8_t *p = blob;
    uint64_t hash = 0;
    while (size--)
        hash = hash * 9973 + *p++ + 9999991;
''', '''    const uint8_t *p = blob;
    uint64_t hash = 0;
    for (unsigned rest = size; rest--;)
        hash = hash * 9973 + *p++ + 9999991;
''')],
  'a blob of 2^32 bytes or more',
  'only the first size modulo 2^32 bytes take part in the hash', MAPU + r"""
#include <fsdyn/hashtable.h>
int main()
{
    size_t n = ((size_t) 1 << 32) + 20;
    char *p = filled(n, 'x');
    uint64_t a = hash_blob(p, n);
    p[n - 5] = 'y';
    return hash_blob(p, n) == a;
}
""")
S('c12-width', 'C12', 'src/base64.c',
  [('''    size_t si = 0;
    uint8_t *buffer = dest;
    size_t pi = 0;
''', '''    size_t si = 0;
    uint8_t *buffer = dest;
    int pi = 0;
''')],
  'a text whose decoding has 2^31 bytes or more (or a destination of that size)',
  'decoding stops storing, fails with EOVERFLOW or writes before its destination', MAPU + r"""
#include <fsdyn/base64.h>
int main()
{
    size_t n = ((size_t) 3 << 30);
    char *p = filled(n, 'Q');
    char buf[8];
    return base64_decode_buffer(p, n, buf, 4, -1, -1, 0) != (ssize_t) (n / 4 * 3) || memcmp(buf, "A\x04\x10" "A", 4);
}
""")
S('c13-room-int', 'C13', 'src/charstr.c',
  [('''        if (codepoint >= 0x800) {
            if (codepoint >= 0x10000) {
                *s++ = 0xf0 |''', '''        if (codepoint >= 0x800) {
            int room = end ? end - s : 4;
            if (room < 3)
                return NULL;
            if (codepoint >= 0x10000) {
                *s++ = 0xf0 |''')],
  'a three or four-byte code point encoded into a buffer whose end is 2^31 or more bytes away',
  'the encoder reports that there is no room', MAP + r"""
#include <fsdyn/charstr.h>
int main()
{
    size_t n = ((size_t) 1 << 31) + 100;
    char *p = room(n);
    return charstr_encode_utf8_codepoint(0x20AC, p, p + n) != p + 3;
}
""")
S('c15-room-int', 'C15', 'src/charstr_decompose.c',
  [('''    const int *dp = _charstr_unicode_decomposition(codepoint);
    if (!dp)
''', '''    const int *dp = _charstr_unicode_decomposition(codepoint);
    int room = end - s;
    if (s && room <= 0)
        return NULL;
    if (!dp)
''')],
  'an output buffer with 2^31 bytes or more',
  'decomposition fails with EOVERFLOW', MAP + r"""
#include <fsdyn/charstr.h>
int main()
{
    size_t n = ((size_t) 1 << 31) + 100;
    char *p = room(n);
    char *r = charstr_unicode_decompose("\xc3\xa4x", NULL, p, p + n);
    return !r || strcmp(p, "a\xcc\x88x");
}
""")
S('c18-strip-width', 'C18', 'src/charstr.c',
  [('''    const char *end = s + strlen(s);
    while (end > s && charstr_char_class(end[-1]) & CHARSTR_WHITESPACE)
        end--;
    return charstr_dupsubstr(s, end);
''', '''    int length = strlen(s);
    while (length > 0 && charstr_char_class(s[length - 1]) & CHARSTR_WHITESPACE)
        length--;
    return charstr_dupsubstr(s, s + length);
''')],
  'a string followed by 2^31 or more blanks',
  'the result is not stripped, empty or nonsense', MAPU + r"""
#include <fsdyn/charstr.h>
int main()
{
    size_t n = ((size_t) 1 << 32) + 100;
    char *p = filled(n, ' ');
    memcpy(p, "  some text", 11);
    memcpy(p + 4096, "more text", 9);
    p[((size_t) 1 << 32) + 30] = 0;
    char *r = charstr_strip(p);
    return !r || strlen(r) != 4096 + 9 - 2;
}
""")
S('c19-substr-width', 'C19', 'src/charstr.c',
  [('''    char *p;
    for (p = s; p != end; p++)
        *p = charstr_lcase_char(*p);
    return s;
    
''', '''    unsigned length = end - s;
    for (unsigned i = 0; i < length; i++)
        s[i] = charstr_lcase_char(s[i]);
    return s;
''')],
  'a substring of 2^32 bytes or more',
  'the end of the substring is left as it was', '#define KIND MAP_SHARED\n' + MAPU + r"""
#include <fsdyn/charstr.h>
int main()
{
    size_t n = ((size_t) 1 << 32) + 8192;
    char *p = filled(n, 'a');   /* one stretch again and again, but the last pages are separate */
    char *tail = p + ((size_t) 1 << 32);
    if (mmap(tail, 8192, PROT_READ | PROT_WRITE, MAP_FIXED | MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) == MAP_FAILED) return 0;
    memset(tail, 'A', 8192);
    charstr_lcase_substr(p, p + n);
    return tail[0] != 'a' || tail[8191] != 'a';
}
""")
ASK = MAPU + r"""
static size_t want;
/* whoever asks for a block of the right size knew how much it is */
static void *ask(void *p, size_t n)
{
    if (n >= want)
        _exit(0);
    if (n)
        return realloc(p, n);
    free(p);
    return NULL;
}
"""
S('c17-decode-width', 'C17', 'src/charstr.c',
  [('''    size_t length;
    for (length = 0; *ep; length++)
''', '''    unsigned length;
    for (length = 0; *ep; length++)
''')],
  'an encoding of 2^32 characters or more',
  'the decoding is written past the end of a block far too small', ASK + r"""
#include <fsdyn/charstr.h>
int main()
{
    size_t n = ((size_t) 1 << 32) + 100, size;
    char *p = filled(n, 'x');
    p[n - 1] = 0;
    want = n;
    fs_set_reallocator(ask);
    (void) charstr_url_decode(p, 0, &size);
    return 1;
}
""")
S('c17-encode-width', 'C17', 'src/charstr.c',
  [('''    size_t length = 0;
    const char *sp;
    for (sp = string''', '''    unsigned length = 0;
    const char *sp;
    for (sp = string''')],
  'a string whose encoding has 2^32 characters or more',
  'the encoding is written past the end of a block far too small', ASK + r"""
#include <fsdyn/charstr.h>
int main()
{
    size_t n = ((size_t) 1 << 31) + 100;
    char *p = filled(n, '%');
    p[n - 1] = 0;
    want = 3 * (n - 1) + 1;
    fs_set_reallocator(ask);
    (void) charstr_url_encode(p);
    return 1;
}
""")
S('c13-sanitize-width', 'C13', 'src/charstr.c',
  [('''    size_t sane_length =
        t - s +''', '''    unsigned sane_length =
        t - s +''')],
  'a string that takes 2^32 bytes or more when sanitized',
  'the sanitized string is written past the end of a block far too small', ASK + r"""
#include <fsdyn/charstr.h>
int main()
{
    size_t n = ((size_t) 3 << 29) + 100;
    char *p = filled(n, '\xff');
    p[n - 1] = 0;
    want = 3 * (n - 1) + 1;
    fs_set_reallocator(ask);
    (void) charstr_sanitize_utf8(p);
    return 1;
}
""")
S('c18-dup-width', 'C18', 'src/charstr.c',
  [('''    size_t length = end - s;
    char *dup =''', '''    unsigned length = end - s;
    char *dup =''')],
  'a copy of 2^32 bytes or more',
  'only the first bytes are copied', ASK + r"""
#include <fsdyn/charstr.h>
int main()
{
    size_t n = ((size_t) 1 << 32) + 100;
    char *p = filled(n, 'x');
    p[n - 1] = 0;
    want = n;
    fs_set_reallocator(ask);
    (void) charstr_dupstr(p);
    return 1;
}
""")
S('c11-simple-width', 'C11', 'src/base64.c',
  [('''    size_t encoding_size = base64_encoding_size(size);
    if (encoding_size == -1)
        return NULL;
''', '''    if (base64_encoding_size(size) == -1)
        return NULL;
    unsigned encoding_size = base64_encoding_size(size);
''')],
  'data of 3 GB or more',
  'base64_encode_simple() returns only the beginning of the encoding', ASK + r"""
#include <fsdyn/base64.h>
int main()
{
    size_t n = ((size_t) 3 << 30) + 120;
    char *p = filled(n, 'x');
    want = n / 3 * 4 + 1;
    fs_set_reallocator(ask);
    (void) base64_encode_simple(p, n);
    return 1;
}
""")
S('c12-simple-width', 'C12', 'src/base64.c',
  [('''    uint8_t *result = fsalloc(count + 1);
    (void) base64_decode_buffer(encoding, -1, result, count, -1, -1, true);
    result[count] = '\\0';
    *binary_size = count;
''', '''    unsigned size = count;
    uint8_t *result = fsalloc(size + 1);
    (void) base64_decode_buffer(encoding, -1, result, size, -1, -1, true);
    result[size] = '\\0';
    *binary_size = size;
''')],
  'an encoding of 2^32 bytes or more',
  'base64_decode_simple() returns only the beginning', ASK + r"""
#include <fsdyn/base64.h>
int main()
{
    size_t n = (((size_t) 1 << 32) + 120) / 3 * 4, size;
    char *p = filled(n + 1, 'x');
    p[n] = 0;
    want = n / 4 * 3;
    fs_set_reallocator(ask);
    (void) base64_decode_simple(p, &size);
    return 1;
}
""")
