#!/usr/bin/env python3
"""Compact reference tables for the Unicode and IDNA checks, from the pinned
Unicode 13.0 files of the repository's base commit.  The result is committed:
the checks never read the working tree's copy of these files as an oracle."""
import os
import subprocess
import sys

REPO = '/repo'
BASE = '0ea641c'
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'data', 'unidata.inc')
GC = ('Cn Cc Cf Co Cs Ll Lm Lo Lt Lu Mc Me Mn Nd Nl No Pc Pd Pe Pf Pi Po Ps '
      'Sc Sk Sm So Zl Zp Zs').split()
BIDI = 'L R AL EN ES ET AN CS NSM BN B S WS ON LRE LRO RLE RLO PDF LRI RLI FSI PDI'.split()
STATUS = ('valid mapped ignored deviation disallowed disallowed_STD3_valid '
          'disallowed_STD3_mapped').split()


def text(name):
    return subprocess.run(['git', '-C', REPO, 'show', '%s:%s' % (BASE, name)],
                          check=True, stdout=subprocess.PIPE).stdout.decode()


def rows(name):
    for line in text(name).splitlines():
        line = line.split('#')[0].strip()
        if line:
            yield [f.strip() for f in line.split(';')]


def span(s):
    a, _, b = s.partition('..')
    return int(a, 16), int(b or a, 16)


def runs(arr, default):
    res, i = [], 0
    while i < len(arr):
        j = i
        while j + 1 < len(arr) and arr[j + 1] == arr[i]:
            j += 1
        if arr[i] != default:
            res.append((i, j, arr[i]))
        i = j + 1
    return res


def main():
    N = 0x110000
    gc, ccc, bidi = ['Cn'] * N, [0] * N, [None] * N
    lower, upper, decomp = {}, {}, {}
    first = None
    for line in text('unicode/UnicodeData.txt').splitlines():
        f = line.split(';')
        cp = int(f[0], 16)
        lo = cp
        if f[1].endswith(', First>'):
            first = cp
            continue
        if f[1].endswith(', Last>'):
            lo = first
        for c in range(lo, cp + 1):
            gc[c], ccc[c], bidi[c] = f[2], int(f[3]), f[4]
        if f[13] and f[2] == 'Lu':
            lower[cp] = int(f[13], 16)
        if f[12] and f[2] == 'Ll':
            upper[cp] = int(f[12], 16)
        if f[5] and not f[5].startswith('<'):
            decomp[cp] = [int(x, 16) for x in f[5].split()]
    excl = []
    qc = [0] * N
    bit = {'NFC_QC': (1, 2), 'NFD_QC': (4, 8), 'NFKC_QC': (16, 32), 'NFKD_QC': (64, 128)}
    for r in rows('unicode/DerivedNormalizationProps.txt'):
        a, b = span(r[0])
        if r[1] == 'Full_Composition_Exclusion':
            excl += range(a, b + 1)
        elif r[1] in bit:
            v = bit[r[1]][{'N': 0, 'M': 1}[r[2]]]
            for c in range(a, b + 1):
                qc[c] |= v
    idna = []
    for r in rows('idna/IdnaMappingTable.txt'):
        a, b = span(r[0])
        m = r[2].split() if len(r) > 2 else []
        idna.append((a, b, STATUS.index(r[1]), [int(x, 16) for x in m]))
    assert idna[0][0] == 0 and idna[-1][1] == N - 1
    assert all(x[1] + 1 == y[0] for x, y in zip(idna, idna[1:]))
    with open(OUT, 'w') as o:
        o.write('// made by tools/mkdata.py from the Unicode 13.0 data files\n')
        o.write('static const char *const gc_names[] = {%s};\n' % ', '.join('"%s"' % g for g in GC))
        o.write('static const char *const bidi_names[] = {%s};\n' % ', '.join('"%s"' % g for g in BIDI))

        def table(name, rs):
            o.write('static const unsigned %s[][%d] = {\n' % (name, len(rs[0])))
            for r in rs:
                o.write('{%s},\n' % ','.join('%u' % x for x in r))
            o.write('};\n')
        table('t_gc', [(a, b, GC.index(v)) for a, b, v in runs(gc, 'Cn')])
        table('t_ccc', runs(ccc, 0))
        table('t_bidi', [(a, b, BIDI.index(v)) for a, b, v in runs(bidi, None)])
        table('t_qc', runs(qc, 0))
        table('t_lower', sorted(lower.items()))
        table('t_upper', sorted(upper.items()))
        table('t_decomp', [(c, *(d + [0])[:2]) for c, d in sorted(decomp.items())])
        table('t_excl', [(c, ) for c in excl])
        pool = []
        rs = []
        for a, b, st, m in idna:
            rs.append((a, b, st, len(pool), len(m)))
            pool += m
        table('t_idna', rs)
        o.write('static const unsigned idna_pool[] = {%s};\n' % ','.join(map(str, pool)))


if __name__ == '__main__':
    main()
