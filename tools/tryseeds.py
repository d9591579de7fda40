#!/usr/bin/env python3
"""tryseeds.py [--no-tests] [--no-check] [--all-checks] ID...: validate planted bugs in scratch copies of /repo
(build, stable tests, demo with and without) and run the property's quick check on them."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('--')]
opt = {a for a in sys.argv[1:] if a.startswith('--')}
ids = args or sorted(os.listdir(V + '/seeded'))
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
lock = threading.Lock()
def sh(cmd, cwd, env=None, timeout=1500):
    r = subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode('utf-8', 'replace')
def one(id):
    d = V + '/seeded/' + id
    m = json.load(open(d + '/meta.json'))
    w = tempfile.mkdtemp(prefix='seed-')
    r = w + '/repo'
    out = [id, m['property']]
    try:
        subprocess.check_call(['cp', '-a', '/repo', r])
        os.mkdir(w + '/vp')
        for f in os.listdir('/opt/vp'):
            p = '/opt/vp/' + f
            if os.path.isfile(p):
                t = open(p).read().replace('/repo', r).replace('/opt/vp', w + '/vp')
                open(w + '/vp/' + f, 'w').write(t)
        if '--no-tests' not in opt:
            rc, o = sh(['bash', d + '/demo.sh'], r)
            out.append('demo-clean=%d' % rc)
        rc, o = sh(['git', 'apply', d + '/patch.diff'], r)
        if rc: out.append('NOAPPLY'); return out
        if '--no-tests' not in opt:
            rc, o = sh(['bash', w + '/vp/build.sh'], r)
            if rc: out.append('NOBUILD ' + o[-300:]); return out
            rc, o = sh(['bash', d + '/demo.sh'], r)
            out.append('demo-bug=%d' % rc)
            sh(['bash', w + '/vp/test.sh', w + '/o.json'], r)
            res = json.load(open(w + '/o.json'))
            failed = sorted(stable - set(res['passed']))
            out.append('tests=' + ('ok' if not failed else 'FAIL:' + ','.join(failed)))
        if '--no-check' not in opt:
            with lock:
                env = dict(os.environ, FSDYN_REPO=r, VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
                props = ['C%02d' % i for i in range(1, 27)] if '--all-checks' in opt else [m['property']]
                for pid in props:
                    rc, o = sh(['python3', V + '/check.py', pid, '--tier', 'quick'], V, env)
                    v = re.search(r'^VIOLATION.*$', o, re.M)
                    if pid == m['property'] or rc:
                        out.append('%s:%s' % (pid, {0: 'MISSED', 1: 'caught'}.get(rc, 'rc%d' % rc)))
                    if rc == 1 and pid == m['property']:
                        i = o.find('VIOLATION'); out.append(o[max(0, i - 160):i].strip().replace('\n', ' | ')[-160:])
        return out
    except Exception as e:
        out.append('ERR %r' % e); return out
    finally:
        shutil.rmtree(w, ignore_errors=True)
with cf.ThreadPoolExecutor(4) as ex:
    for f in cf.as_completed([ex.submit(one, i) for i in ids]):
        print(' '.join(f.result()), flush=True)
