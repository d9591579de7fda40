#!/usr/bin/env python3
"""tryrefactors.py [--all-checks] [--tests] ID...: apply behaviour-preserving rewrites (tools/refactors/*.py)
to scratch copies of /repo and run the checks on them; every check must stay quiet."""
import glob, os, shutil, subprocess, sys, tempfile, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEFS = []
def R(id, checks, file, edits, extra=()): DEFS.append((id, checks.split(), [(file, edits)] + list(extra)))
for f in sorted(glob.glob(V + '/tools/refactors/*.py')):
    exec(compile(open(f).read(), f, 'exec'), {'R': R})
only = {a for a in sys.argv[1:] if not a.startswith('--')}
opt = {a for a in sys.argv[1:] if a.startswith('--')}
ALL = ['C%02d' % i for i in range(1, 27)]
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for id, checks, files in DEFS:
    if only and id not in only: continue
    w = tempfile.mkdtemp(prefix='refac-'); r = w + '/repo'
    try:
        subprocess.check_call(['cp', '-a', '/repo', r])
        for file, edits in files:
            t = open(r + '/' + file).read()
            for o, n in edits:
                if t.count(o) != 1: sys.exit('%s: %d matches of %r' % (id, t.count(o), o))
                t = t.replace(o, n)
            open(r + '/' + file, 'w').write(t)
        if '--tests' in opt:
            os.mkdir(w + '/vp')
            for f in os.listdir('/opt/vp'):
                if os.path.isfile('/opt/vp/' + f):
                    t = open('/opt/vp/' + f).read().replace('/repo', r).replace('/opt/vp', w + '/vp')
                    open(w + '/vp/' + f, 'w').write(t)
            p = subprocess.run(['bash', w + '/vp/build.sh'], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode: print(id, 'NOBUILD', p.stdout.decode()[-500:])
            subprocess.run(['bash', w + '/vp/test.sh', w + '/o.json'], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            print(id, 'failed tests:', sorted(stable - set(json.load(open(w + '/o.json'))['passed'])))
        for pid in (ALL if '--all-checks' in opt else checks):
            p = subprocess.run(['python3', V + '/check.py', pid, '--tier', 'quick'], cwd=V, env=dict(os.environ, FSDYN_REPO=r, VERIF_SEED=os.environ.get('VERIF_SEED', '1')),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = p.stdout.decode('utf-8', 'replace')
            print(id, pid, 'quiet' if p.returncode == 0 else 'ALARM rc=%d %s' % (p.returncode, o[-700:]), flush=True)
    finally:
        shutil.rmtree(w)
