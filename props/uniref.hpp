// Reference implementation of the Unicode and IDNA definitions over tables
// derived from the Unicode 13.0 data files (data/unidata.inc).
#pragma once
#include "utf8ref.hpp"
#include <string>
#include <vector>

namespace uni {
typedef std::vector<uint32_t> Text;

const char *gc(uint32_t c);             // general category
int ccc(uint32_t c);
const char *bidi(uint32_t c);           // bidi class, NULL if unassigned
int qc(uint32_t c);                     // quick check bits as in charstr.h
uint32_t lower(uint32_t c);             // simple mapping of Lu, else c
uint32_t upper(uint32_t c);             // simple mapping of Ll, else c
const Text *decomposition(uint32_t c);  // canonical, one step, NULL if none
enum Status { VALID, MAPPED, IGNORED, DEVIATION, DISALLOWED, STD3_VALID, STD3_MAPPED };
Status idna(uint32_t c);
const char *idna_name(Status s);
const Text &idna_mapping(uint32_t c);   // empty if none

Text nfd(const Text &t);
Text nfc(const Text &t);
std::string enc(const Text &t);
std::string puny(const Text &label);    // RFC 3492

// quick check result: 0 yes, 1 no, 2 maybe
int quick_check(const Text &t, int no_bit, int maybe_bit);

// code points with a canonical decomposition, combining marks, second parts
// of composites, exclusions, ... for the generators
const Text &decomposables();
const Text &marks();                    // ccc != 0
const Text &seconds();                  // second code point of a composite
const Text &starters_of_composites();
const Text &odd();                      // quick-check NFC no or maybe
const Text &idna_of(Status s);          // sample list, up to 4000 per status

struct Idna {
    enum Verdict { MUST_REJECT, MUST_ENCODE, MAY } verdict;
    std::string a, b;           // acceptable results, if has_a/has_b
    bool has_a, has_b;
    const char *why;
};
// x: the code points of a hostname with at least one non-ASCII character
Idna idna_encode(const Text &x);
} // namespace uni
