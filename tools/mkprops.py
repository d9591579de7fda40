#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the prose lives here so that it can be edited comfortably)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "AVL tree behaves as an ordered map under every history",
  "After any sequence of put, pop, pop-first/last, detach, remove and copy operations, every query on an AVL tree (size, emptiness, exact lookup, the four nearest-neighbour lookups, first/last, forward and backward traversal) gives exactly what an ordered map holding the same key/value objects would give, for every comparator obeying the memcmp sign convention, with or without a context object. A put on an existing key hands back the replaced association (old key and value objects) unless that very value is already stored, in which case it changes nothing and returns NULL; popped and detached associations keep their key and value. A shallow copy is independent: changing or destroying either tree never shows in the other.",
  ["histories", "inputs"], "all operation sequences, key orders, duplicate keys, comparators (any sign-convention magnitude, with or without context), tree sizes",
  "avltest inserts one million random distinct keys, then pops all of them; it never replaces a key, never detaches by element, never calls the neighbour lookups, pop_first/pop_last, or modifies a copy.",
  ["include/avltree.h", "src/avltree.c"],
  [("put/replace with substitution of the node in place", "src/avltree.c: put, substitute, avl_tree_put"), ("detach by exchanging with an adjacent descendant", "src/avltree.c: exchange, avl_tree_detach"), ("recursive shallow copy", "src/avltree.c: copy_tree, avl_tree_copy"), ("neighbour searches", "src/avltree.c: avl_tree_get_before/_on_or_before/_after/_on_or_after")],
  [("tree", "root, size, comparator and context", "include/avltree_imp.h")],
  ["return values of the public AVL functions"])
p("C02", "AVL tree stays height-balanced after every insertion and removal",
  "After any history of insertions, replacements, removals and copies, an AVL tree is height-balanced: as seen through the comparator calls of lookups, at every node the heights of the two subtrees differ by at most one. Hence no lookup in a tree of n elements compares with more than about 1.44 log2(n+2) elements.",
  ["histories"], "all operation sequences, in particular one-sided insertions and removals and removals of inner nodes",
  "avltest only checks a height bound of 1.45*log2(n+2) after bulk loading and after popping half of the elements in insertion order; it does not look at individual nodes or at other removal patterns.",
  ["src/avltree.c", "include/avltree.h"],
  [("rotations on insertion", "src/avltree.c: put_left, put_right, rotate_left, rotate_right"), ("rebalancing towards the root on removal", "src/avltree.c: lighten_left, lighten_right, lighten_parent"), ("balance factors copied with the nodes", "src/avltree.c: put (replacement), exchange, copy_tree")],
  [("balance", "right height minus left height of a node", "include/avltree_imp.h")],
  ["sequence of keys passed to the comparator during avl_tree_get"])
p("C03", "Hash table behaves as a map for every history and hash function",
  "After any sequence of put, pop, pop-any, detach and remove operations, size, emptiness and lookup on a hash table give exactly what a map of the same key/value objects gives, whatever the requested capacity, hash function (however badly colliding) and equality comparator. Traversal with get_any/get_other visits every element exactly once and pop_any drains the table. A put on an existing key returns the replaced association unless that very value is already stored, in which case it changes nothing and returns NULL; popped, detached and replaced associations keep their key and value.",
  ["histories", "inputs", "configurations"], "all operation sequences, capacities, hash functions (constant, low/high bits, well mixed), key sets",
  "The repository has no test of the hash table at all.",
  ["include/hashtable.h", "src/hashtable.c", "include/hashtable_imp.h"],
  [("bucket lists indexed by hash modulo capacity", "src/hashtable.c: hash_table_get, hash_table_put, add_element"), ("detach through the element's recorded bucket", "src/hashtable.c: hash_table_detach"), ("bucket scan", "src/hashtable.c: get_next, hash_table_get_other, hash_table_pop_any")],
  [("table", "array of bucket lists, size and capacity", "include/hashtable_imp.h")],
  ["return values of the public hash table functions"])
p("C04", "Integer boxing, integer comparators and hash functions are consistent",
  "Every intptr_t and uintptr_t value survives the round trip through its boxed object; the signed and unsigned comparators order boxed values exactly as the numbers are ordered over the whole range. The string and blob hash functions depend on nothing but the content (not on address, alignment or bytes beyond the end), equal keys hash equally, changing any single byte changes the hash, and the integer hashes are injective.",
  ["inputs"], "all integer pairs, all strings and blobs, all alignments",
  "No test exercises integer.h, the comparators or the hash functions.",
  ["include/integer.h", "src/integer.c", "src/hashtable.c"],
  [("pointer casts", "include/integer.h: as_integer, as_intptr, as_unsigned, as_uintptr"), ("three-way comparison", "src/integer.c: integer_cmp, unsigned_cmp"), ("polynomial hashes", "src/hashtable.c: hash_string, hash_blob, hash_integer, hash_unsigned")],
  (), ["return values"])
p("C05", "List behaves as a sequence under every history",
  "After any sequence of append, prepend, insert-before, remove, pop-first and pop-last operations, a list holds exactly the sequence of values a plain sequence model holds: size, emptiness, first/last, lookup by value (first occurrence), lookup by index (NULL when out of range, including negative), forward and backward traversal and foreach order all agree, and duplicate and NULL values are allowed. Element handles stay valid and keep their value until that element is removed, popping from an empty list returns NULL, and a shallow copy has the same values and is independent of the original.",
  ["histories", "inputs"], "all operation sequences, list lengths, values (duplicates, NULL), indices",
  "No test targets the list; it is only used incidentally by the string splitting tests.",
  ["include/list.h", "src/list.c", "include/list_imp.h"],
  [("doubly linked insertion/removal", "src/list.c: list_append, list_prepend, list_insert_before, list_remove"), ("linear searches", "src/list.c: list_get, list_get_by_index"), ("copy by foreach", "src/list.c: list_copy, list_foreach")],
  [("list", "first, last, size", "include/list_imp.h")],
  ["return values of the public list functions"])
p("C06", "Priority queue always yields a highest-priority element, losing none",
  "After any interleaving of enqueue, dequeue, pop and remove operations, peek and dequeue return an element than which no queued element compares less, dequeue and pop remove exactly the element they return, and the multiset of queued elements (ties and repeated elements included) is exactly what was enqueued minus what was removed. Size and emptiness follow that multiset, and peek, dequeue and pop return NULL on an empty queue. This holds for every comparator obeying the sign convention, with or without a context object and with or without a relocation callback.",
  ["histories", "inputs"], "all operation interleavings, priorities (ties, duplicates), comparators, queue sizes",
  "priorq_test enqueues a million distinct random keys and dequeues them all; it never interleaves operations, never has ties, never uses pop, peek, remove or the context variant.",
  ["include/priority_queue.h", "src/priority_queue.c"],
  [("sift up and down", "src/priority_queue.c: raise, lower"), ("storage growth", "src/priority_queue.c: priorq_enqueue"), ("removal at the root / the end", "src/priority_queue.c: priorq_dequeue, priorq_pop")],
  [("storage", "binary heap in an array", "src/priority_queue.c: struct priorq")],
  ["return values of the public priority queue functions"])
p("C07", "Priority queue locators always identify their element for removal",
  "If every relocation callback stores the locator it is given, then after any history the stored locator of each element still in the queue, passed to remove, removes and returns exactly that element, and the remaining elements keep being delivered in priority order with valid locators. Distinct queued elements never share a locator, and the callback is invoked only with elements that are in the queue (or just being taken out) and with the queue's context object.",
  ["histories", "inputs"], "all operation interleavings with removals of arbitrary elements (first, last, middle, ties)",
  "priorq_remove is never called by any test; relocation callbacks are only exercised without ever using the stored locator.",
  ["include/priority_queue.h", "src/priority_queue.c"],
  [("every placement reports its slot", "src/priority_queue.c: assign"), ("removal re-inserts the last element at the hole, up or down", "src/priority_queue.c: priorq_remove")],
  [("loc", "slot of the element", "src/priority_queue.c: assign")],
  ["relocation callback", "priorq_remove return value"])
p("C08", "Integer set behaves as a subset of its declared range",
  "For an integer set of any declared size, after any sequence of fill, add and remove operations, membership of every unsigned number, emptiness, next-hit and next-miss answers agree with a plain model set over the numbers below the declared size. Numbers at or beyond the declared size are never members, never change the set and are never reported as hit or miss, and next-hit/next-miss return -1 exactly when no such number exists.",
  ["histories", "inputs", "configurations"], "all sizes (0, word boundaries, large, beyond INT_MAX for all answers an int can hold), all operation sequences, all query numbers up to UINT_MAX",
  "intset_test uses one size (256, a multiple of the word size), random adds below it, and never fills, never queries out of range, and never checks the completeness of next-hit/next-miss.",
  ["include/intset.h", "src/intset.c", "include/intset_imp.h"],
  [("bit words with range checks", "src/intset.c: intset_add, intset_remove, intset_has"), ("word-wise scan", "src/intset.c: intset_find_next"), ("fill", "src/intset.c: intset_fill")],
  [("data,size", "bit array", "include/intset_imp.h")],
  ["return values of the public intset functions"])
p("C09", "Byte array is an exact, bounded, NUL-terminated byte string",
  "After any sequence of copy, copy-string, append, append-string, resize and clear operations, a byte array holds exactly the bytes and size that a model byte string holds, contiguously and followed by a NUL byte, and never more than max_size bytes including that NUL. An operation that would exceed the limit fails with ENOSPC, a copy beyond the current end fails, every operation that fits succeeds, and a failed operation leaves size and content unchanged; a copy whose source overlaps the array's current content behaves like memmove. A shared array stays alive and common to all holders until the last holder destroys it.",
  ["histories", "inputs", "configurations"], "all operation sequences, lengths around the growth and max_size boundaries, offsets, contents with embedded NULs, share/destroy orders",
  "bytearray_test runs one fixed script with max_size 8, so the storage never grows; sharing is never tested.",
  ["include/bytearray.h", "src/bytearray.c"],
  [("limit check and doubling growth", "src/bytearray.c: ensure_space"), ("positioned copy", "src/bytearray.c: byte_array_copy"), ("resize/clear", "src/bytearray.c: byte_array_resize, byte_array_clear"), ("reference count", "src/bytearray.c: share_byte_array, destroy_byte_array")],
  [("cursor,max_size,size,ref_count", "used bytes, limit, storage size, holders", "src/bytearray.c: struct byte_array")],
  ["byte_array_data", "byte_array_size", "return values and errno"])
p("C10", "Byte array streaming append honours the limit and the reader's result",
  "A streaming append asks the reader for at most the requested count and at most the room left below max_size (keeping one byte for the NUL), hands it a buffer of at least that many writable bytes, and fails with ENOSPC without calling the reader when data is requested but no room is left. The reader's return value is passed through: a positive count extends the content by exactly the bytes it stored, while zero or a negative result leaves size and content unchanged; in every case the content stays followed by a NUL byte, even if the reader scribbled into its buffer.",
  ["histories", "inputs", "fault_sequences"], "all request lengths, fill levels, limits, reader behaviours (full, short, zero, error with or without scribbling)",
  "bytearray_test calls the streaming append twice with a reader that always succeeds.",
  ["include/bytearray.h", "src/bytearray.c"],
  [("clamping to the available room", "src/bytearray.c: byte_array_append_stream"), ("growth before the callback", "src/bytearray.c: ensure_space")],
  (), ["arguments seen by the read callback", "byte_array_data", "return value and errno"])
p("C11", "Base64 encoding is canonical, exactly sized and bounded by the buffer",
  "For every binary input, Base64 encoding produces the RFC 4648 encoding (with the caller's characters for values 62 and 63, or '+' and '/' by default), returns its full length whatever the destination size, writes as much of it as fits, NUL-terminates whenever the destination is not empty and never touches memory beyond the destination. The size function returns that length for every input size and reports overflow as -1, and the allocating variant returns the complete NUL-terminated encoding.",
  ["inputs"], "all byte strings, all destination sizes, all replacement characters, all sizes for the size function",
  "base64_test uses five short texts with the default alphabet.",
  ["include/base64.h", "src/base64.c"],
  [("body/tail encoding with bounded puts", "src/base64.c: base64_encode_buffer, put4"), ("size computation", "src/base64.c: base64_encoding_size")],
  (), ["return value, destination buffer"])
p("C12", "Base64 decoding inverts encoding and accepts nothing else",
  "Decoding accepts exactly the canonical padded Base64 encodings over the chosen alphabet, ended by the source size or a NUL and, when whitespace is to be ignored, with space, tab, newline, form feed and carriage return inserted anywhere; everything else (foreign characters, bad or missing padding, nonzero leftover bits, trailing garbage) is rejected with EILSEQ. On success it returns the full decoded length whatever the destination size and stores the leading bytes that fit, never reading beyond the source or writing beyond the destination. The allocating variant returns the decoded bytes with a complimentary NUL, and the published decoding table agrees with the alphabet.",
  ["inputs"], "all byte strings as source, all source/destination sizes, alphabets and whitespace placements",
  "base64_test decodes five valid short texts; no invalid input, whitespace or alternative alphabet is ever tried.",
  ["include/base64.h", "src/base64.c"],
  [("bit accumulator", "src/base64.c: base64_decode_buffer"), ("character classification table", "src/base64.c: base64_bitfield_decoding, get_bits"), ("padding and termination check", "src/base64.c: good_base64_tail, good_termination")],
  (), ["return value, errno, destination buffer"])
p("C13", "UTF-8 decoding, encoding, validation and sanitizing follow the standard",
  "For every byte sequence and bound, decoding a code point succeeds exactly on well-formed UTF-8 (no overlong forms, no surrogates, nothing above U+10FFFF, no truncation at the bound) and then yields the right code point and end; encoding any Unicode code point yields its UTF-8 form if it fits and otherwise NULL without writing past the end, and the two are inverse. Bounded and NUL-terminated validation accept exactly the well-formed strings. Sanitizing copies well-formed sequences unchanged and replaces every other byte by U+FFFD, so its result is always valid UTF-8 and valid strings come back unchanged.",
  ["inputs"], "all byte strings, all bounds, all code points, all buffer capacities",
  "charstr_test decodes one four-character string and sanitizes one Latin-1 string; overlong, surrogate, truncated and boundary encodings are never tried.",
  ["include/charstr.h", "src/charstr.c"],
  [("decoder state ladder", "src/charstr.c: charstr_decode_utf8_codepoint, valid_unicode"), ("encoder", "src/charstr.c: charstr_encode_utf8_codepoint"), ("sanitizer with two passes", "src/charstr.c: charstr_sanitize_utf8"), ("validators", "src/charstr.c: charstr_valid_utf8, charstr_valid_utf8_bounded")],
  (), ["return values, output buffers"])
p("C14", "Unicode character properties match the Unicode 13 data for every code point",
  "For every code point from 0 to 10FFFF, the general category, the canonical combining class, the normal form quick-check flags, and the naive lower-case (of Lu) and upper-case (of Ll) mappings are exactly those of the Unicode 13.0 Character Database, with unassigned code points reported as Cn, class 0 and no case mapping.",
  ["inputs"], "all 1,114,112 code points",
  "charstr_test checks the case mapping of about twenty letters; categories and combining classes are tested only through normalization of the conformance file.",
  ["include/charstr.h", "src/categorize.py", "src/canonical_combining_classes.py", "src/allowed_in_normal_form.py", "src/lower_case.py", "src/upper_case.py"],
  [("generated lookup functions", "src/categorize.py, src/canonical_combining_classes.py, src/allowed_in_normal_form.py, src/lower_case.py, src/upper_case.py")],
  (), ["charstr_unicode_category, charstr_unicode_canonical_combining_class, charstr_allowed_unicode_normal_forms, charstr_naive_lcase_unicode, charstr_naive_ucase_unicode"])
p("C15", "Canonical decomposition yields NFD for every string and respects its buffer",
  "For every valid UTF-8 string (ended by a NUL or the given end), decomposition stores the NUL-terminated Unicode NFD form of the string and returns the position of that NUL, whenever the form and its NUL fit the output buffer; a buffer of three times the input size plus one always suffices. If they do not fit it returns NULL with EOVERFLOW and never writes outside the buffer, and invalid UTF-8 yields NULL with EILSEQ. Decomposing an NFD string changes nothing.",
  ["inputs"], "all UTF-8 strings (combining sequences in any order, Hangul, nested decompositions), all output capacities, all bounds",
  "The conformance file has about 18,000 short strings, always with a 1000-byte buffer; tight buffers, bounds, invalid input and long combining runs are never tried.",
  ["include/charstr.h", "src/charstr_decompose.c", "src/decomposition.py"],
  [("recursive decomposition and Hangul arithmetic", "src/charstr_decompose.c: decompose_fully, decompose_hangul"), ("stable canonical ordering", "src/charstr_decompose.c: sort_combining_characters"), ("generated decompositions", "src/decomposition.py")],
  (), ["charstr_unicode_decompose return value, errno and output"])
p("C16", "Canonical composition yields NFC and the form detectors are sound",
  "For every canonically decomposed (or already composed) UTF-8 string, recomposition stores the NUL-terminated NFC form and returns the position of its NUL whenever that fits the output buffer (input size plus one always suffices), and otherwise returns NULL with EOVERFLOW without writing outside the buffer; invalid UTF-8 yields NULL with EILSEQ. The composed/decomposed detectors return true only for valid UTF-8 strings that are in NFC/NFD, the decomposed detector recognizes every NFD string, and the general detector reports disallowed, maybe, allowed or a decoding error as the Unicode quick-check algorithm prescribes for each of the four forms.",
  ["inputs"], "all UTF-8 strings (blocked and unblocked marks, composition exclusions, Hangul), all output capacities, all bounds",
  "The conformance file has short strings and a 1000-byte buffer; the detectors are tested on three strings.",
  ["include/charstr.h", "src/charstr_recompose.c", "src/charstr_unicode.c", "src/recomposition.py"],
  [("streaming recomposer with blocking rule", "src/charstr_recompose.c: recomposer_feed, recomposer_blocked"), ("Hangul recomposer", "src/charstr_recompose.c: hangul_recomposer_feed"), ("generated primary composites minus exclusions", "src/recomposition.py"), ("quick check", "src/charstr_unicode.c: charstr_detect_unicode_normal_form")],
  [("recomposer", "pending starter and combining characters", "src/charstr_recompose.c: recomposer_t")],
  ["charstr_unicode_recompose and detector results"])
p("C17", "URL encoding round-trips and decoding rejects malformed input",
  "For every NUL-terminated byte string, URL-encoding gives the concatenation of the per-byte encodings (space as '+', digits, letters and the documented punctuation as themselves, any other byte as %XX in upper-case hexadecimal), and decoding it with plus-as-space gives back the string and its length; for every custom encoder exactly the reserved bytes become %XX, the unreserved bytes stay literal and all others are encoded as by default. Decoding turns %XX (either case) into the byte and '+' into a space only on request, leaves everything else alone, reports the decoded length even with embedded %00, and returns NULL with EILSEQ exactly when some '%' is not followed by two hexadecimal digits.",
  ["inputs", "configurations"], "all byte strings, all reserve/unreserve sets, both plus modes, truncated escapes at the end of the string",
  "charstr_test encodes one string with the default and one custom encoder and decodes only valid input.",
  ["include/charstr.h", "src/charstr.c"],
  [("encoding table", "src/charstr.c: url_encoder, charstr_create_url_encoder"), ("two-pass encoder", "src/charstr.c: charstr_url_custom_encode, url_encoding_width"), ("two-pass decoder", "src/charstr.c: charstr_url_decode")],
  (), ["return values, decoded size, errno"])
p("C18", "String splitting, stripping, copying and affix tests match their definition",
  "For every string, splitting at a nonzero delimiter byte or nonempty delimiter string (as list or into an array, with any split limit, 0 giving one copy and -1 no limit) yields at most limit+1 pieces which rejoined with the delimiter give the original, with no delimiter left in a piece except past the limit. Splitting into atoms yields exactly the maximal runs of non-whitespace, stripping removes exactly the leading and trailing whitespace, where whitespace is tab, newline, form feed, carriage return and space. Copies equal their source (sub)string and are NUL-terminated, and the prefix (case-sensitive or ASCII-case-insensitive) and suffix tests return the remainder or verdict of the plain definition.",
  ["inputs"], "all strings, delimiters, limits, affixes",
  "Only ends_with has a direct test (seven cases on one string); splitting and stripping are used incidentally by test drivers on well-formed data lines.",
  ["include/charstr.h", "src/charstr.c"],
  [("split loops", "src/charstr.c: charstr_split, charstr_split_into_array, charstr_split_str, charstr_split_atoms"), ("whitespace class", "src/charstr.c: char_class"), ("strip/dup", "src/charstr.c: charstr_strip, charstr_dupstr, charstr_dupsubstr"), ("affix tests", "src/charstr.c: charstr_skip_prefix, charstr_case_skip_prefix, charstr_ends_with")],
  (), ["return values"])
p("C19", "ASCII classification, case mapping and caseless comparison are locale-free",
  "For each of the 256 byte values, the character class bits are exactly the documented ASCII sets (none for non-ASCII bytes), hexadecimal digits have their value, and lower/upper-casing changes exactly the ASCII letters, whatever the locale. In-place case conversion of a string or substring applies that byte by byte, returns its argument and touches nothing else. Caseless comparison (optionally limited to n bytes) has the sign of comparing the lower-cased strings as unsigned bytes, so it is a total order consistent with equality up to ASCII case.",
  ["inputs", "configurations"], "all bytes, all string pairs, all limits n, locales",
  "No test touches the ASCII classification, case conversion or caseless comparison functions.",
  ["include/charstr.h", "src/charstr.c"],
  [("class table", "src/charstr.c: char_class"), ("case table", "src/charstr.c: case_table"), ("digit table", "src/charstr.c: digit_value"), ("comparison loops", "src/charstr.c: charstr_case_cmp, charstr_ncase_cmp")],
  (), ["return values, converted strings"])
p("C20", "IDNA encoding gives the UTS #46 ASCII form or NULL, and never crashes",
  "For every NUL-terminated byte string, encoding a hostname terminates normally; an all-ASCII hostname comes back lower-cased, and any other result is exactly the UTS #46 non-transitional ToASCII form: mapped, NFC-normalized, each non-ASCII label Punycode-encoded (RFC 3492) behind \"xn--\", separators as '.', every label at most 63 and the whole at most 253 characters plus an optional final dot. Hostnames with invalid UTF-8, disallowed code points or too long an encoding give NULL, and every hostname valid under UTS #46 (with STD3 rules) is encoded. Hence canonically equivalent and case-variant valid hostnames get the same encoding.",
  ["inputs"], "all byte strings as hostnames: label counts and lengths, scripts, mapped/ignored/deviation code points, combining sequences",
  "charstr_idna_test runs the IdnaTestV2 file, where NULL always passes and escaped lines are not unescaped, so long labels, mapped characters followed by combining marks and rejected-but-valid names go unnoticed.",
  ["include/charstr.h", "src/charstr_puny.c"],
  [("mapping and filtering", "src/charstr_puny.c: encode_nfc, encode_nfd, charstr_idna_encode"), ("Punycode", "src/charstr_puny.c: punycode_encode_pass1, punycode_encode_pass2, adapt"), ("length limits", "src/charstr_puny.c: encode_filtered, emit")],
  (), ["charstr_idna_encode return value"])
p("C21", "IDNA status and mapping match the UTS #46 table for every code point",
  "For every code point from 0 to 10FFFF, exactly one of the seven IDNA status predicates holds, it is the one the UTS #46 version 13.0 mapping table assigns, the status name agrees with it, and the mapping is the table's nonempty replacement as a UTF-8 string, or NULL where the table gives none.",
  ["inputs"], "all 1,114,112 code points",
  "charstr_idna_test only sees statuses through whole hostnames and accepts NULL for any of them.",
  ["include/charstr.h", "src/gen_idna_table.c", "src/charstr_puny.c"],
  [("generated range tests and bit sets", "src/gen_idna_table.c: generate_test, generate_set"), ("generated sorted mapping with biased binary search", "src/gen_idna_table.c: generate_mappings"), ("status name", "src/charstr_puny.c: charstr_idna_status")],
  (), ["charstr_idna_status*, charstr_idna_mapping"])
p("C22", "Epoch to UTC conversion equals gmtime over the whole calendar",
  "For every time value whose year fits in struct tm, before or after 1970, the broken-down second, minute, hour, day of month, month, year and weekday are those of the proleptic Gregorian calendar in UTC (as gmtime_r gives them), the DST flag is 0 and the returned pointer is the argument. Consecutive instants therefore never go backwards or skip a day.",
  ["inputs"], "all time_t values with a representable year",
  "date_test samples one instant every 4.75 hours between 1970 and 2037 only, so century rules, negative times and most leap days' exact seconds are never reached.",
  ["include/date.h", "src/date.c"],
  [("400/100/4-year cycle arithmetic from 1600-03-01", "src/date.c: epoch_to_utc"), ("day-of-year table", "src/date.c: YDAY_INFO")],
  (), ["struct tm fields"])
p("C23", "Binary64 to integer conversion is exact or refused",
  "For every 64-bit pattern read as an IEEE 754 binary64, conversion to a signed (unsigned) 64-bit integer succeeds exactly if the number is a mathematical integer representable in that type, and then delivers that integer, both zeros giving 0. Fractions, subnormals, infinities, NaNs and out-of-range numbers are refused.",
  ["inputs"], "all 2^64 bit patterns",
  "float_test tries twelve doubles per function, including none near the range limits except 2^53+1 and 1e20.",
  ["include/float.h", "src/float.c"],
  [("exponent/significand arithmetic", "src/float.c: binary64_to_integer, binary64_to_unsigned")],
  (), ["return value, *n"])
p("C24", "All memory goes through the installed reallocator and is given back",
  "Whatever sequence of library operations is run, every block the library obtains, resizes or hands to its caller comes from the currently installed reallocator and every block is released through it exactly once: after destroying all objects and freeing all returned strings and detached elements, the balance (corrected by reported skews) is zero, including on failing calls. fsalloc, fscalloc and fsrealloc give independent writable blocks of the requested size, zeroed by fscalloc, content preserved by fsrealloc, released at size zero; fscalloc never hands out a block smaller than the product of its arguments. Freeing NULL is harmless, the installed reallocator and counter can be read back, skew reports reach the counter unchanged, and the C++ smart pointers release exactly once.",
  ["histories", "inputs", "fault_sequences"], "all call sequences over all modules, successful and failing; allocator implementations that always move blocks and hand out dirty memory",
  "Tests run under valgrind leak checking with the default allocator on the scripted paths only; no test installs a reallocator or counter.",
  ["include/fsalloc.h", "src/fsalloc.c", "include/bytearray.h", "include/charstr.h"],
  [("single reallocator hook", "src/fsalloc.c: fsalloc, fsfree, fsrealloc, fscalloc"), ("counter hook", "src/fsalloc.c: fs_reallocator_skew"), ("error-path cleanup", "src/charstr_puny.c: encode_nfd, charstr_idna_encode; src/charstr.c: charstr_url_decode"), ("C++ deleters", "include/fsalloc.h, include/bytearray.h, include/charstr.h")],
  [("reallocator, reallocator_counter", "installed hooks", "src/fsalloc.c")],
  ["calls into a recording reallocator and counter"])
p("C25", "Formatted strings equal the C library's formatting at any length",
  "For every legal printf format and matching arguments, the allocated string equals what the C library's formatted printing produces, complete and NUL-terminated at any output length, through both the variadic and the va_list variant. A format the C library refuses gives NULL with errno EILSEQ.",
  ["inputs"], "all conversion specifications, flags, widths, precisions, argument values and result lengths",
  "No test calls the formatting functions.",
  ["include/charstr.h", "src/charstr.c"],
  [("measure, allocate, print", "src/charstr.c: charstr_vprintf, charstr_printf")],
  (), ["return value, errno"])
p("C26", "Objects and calls are independent: no hidden shared state, const data intact",
  "Apart from the installed reallocator and counter the library keeps no state outside its objects: operations on distinct objects, and the conversion, classification and formatting functions, give the results they give alone whatever other library calls are interleaved with them, be it between calls, from inside a callback (comparator, hash, reader, relocation, reallocator) working on other objects, or in other threads running at the same time without any lock. Data handed over through pointers to const is only read: it may live in write-protected memory or be shared by concurrent callers.",
  ["schedules", "histories", "inputs"], "all pairs and triples of uses of the library on distinct objects, all interleavings at call, callback and allocation boundaries, all thread schedules",
  "Each test driver uses one object of one module at a time in a single thread, so a result kept in a static variable, a shared scratch buffer or a temporary write into the caller's text never shows.",
  ["src/charstr.c", "src/charstr_puny.c", "src/charstr_unicode_recompose.c", "src/charstr_unicode_decompose.c", "src/avltree.c", "src/hashtable.c", "src/priority_queue.c", "src/list.c", "src/bytearray.c", "src/base64.c", "src/date.c", "src/fsalloc.c"],
  [("per-object state only", "src/avltree.c, src/hashtable.c, src/list.c, src/priority_queue.c, src/intset.c, src/bytearray.c: the struct of each module"), ("working buffers on the stack", "src/charstr_unicode_recompose.c, src/charstr_unicode_decompose.c, src/charstr_puny.c"), ("read-only tables", "src/charstr.c, src/base64.c, generated Unicode tables"), ("length-delimited reading of const text", "src/charstr.c: charstr_split, charstr_strip, charstr_unicode_*")],
  [("reallocator, reallocator_counter", "the only state outside objects", "src/fsalloc.c")],
  ["return values and buffers of interleaved and concurrent calls", "memory protection of const inputs", "thread sanitizer reports"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P), "properties")
