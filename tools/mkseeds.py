#!/usr/bin/env python3
"""Make seeded/<id>/ from the definitions in tools/seeds/*.py.

A definition file holds S(id, property, file, [(old, new), ...], needs, breaks, demo_c)
calls; extra=[(file, [(old, new)])] changes further files."""
import glob, json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEFS = []
def S(id, prop, file, edits, needs, breaks, demo, extra=()):
    DEFS.append((id, prop, [(file, edits)] + list(extra), needs, breaks, demo))
SH = r'''#!/bin/bash
# exit 0 iff the demonstration's expectations hold; run with cwd /repo after the build
here=$(cd "$(dirname "$0")" && pwd)
b=$PWD/stage/linux64/build/components/avltree
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
gcc -w -g -O0 -I"$b/include" -I"$PWD/include" -o "$w/demo" "$here/demo.c" -L"$b/lib" -lfsdyn -lm || exit 2
cd "$w" || exit 2
timeout 120 ./demo
'''
for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
    exec(compile(open(f).read(), f, 'exec'), {'S': S})
only = set(sys.argv[1:])
for id, prop, files, needs, breaks, demo in DEFS:
    if only and id not in only: continue
    d = V + '/seeded/' + id
    if os.path.exists(d) and not only: continue
    w = tempfile.mkdtemp()
    subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
    try:
        for file, edits in files:
            p = w + '/r/' + file
            t = open(p).read()
            for o, n in edits:
                if t.count(o) != 1:
                    sys.exit('%s: %d matches of %r' % (id, t.count(o), o))
                t = t.replace(o, n)
            open(p, 'w').write(t)
        diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'])
    finally:
        shutil.rmtree(w)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.sh', 'w').write(SH); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.c', 'w').write(demo.lstrip('\n'))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
              open(d + '/meta.json', 'w'), indent=1)
    print(id)
