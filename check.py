#!/usr/bin/env python3
"""Decide one property of fsdyn by generated-input search.

usage: check.py ID [--tier quick|thorough] [--stage NAME] [--no-fuzz] [--scale F]
       check.py --replay FILE
       check.py --build-all

Builds the harness of the property from /repo's working tree (out of tree, in
/verif/build), runs its generator stages in parallel in an optimised and in a
sanitizer flavour plus coverage-guided fuzzing of the same case function,
shrinks and replays any failure, and writes evidence/<ID>.json.
Exit status: 0 held, 1 violated (with a VIOLATION line), 2 cannot tell.
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('FSDYN_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
REPLAYS = os.path.join(VERIF, 'replays')
EVIDENCE = os.path.join(VERIF, 'evidence')
NCPU = min(8, os.cpu_count() or 8)

SAN = ['-fsanitize=address,bounds,null,return,unreachable,integer-divide-by-zero',
       '-fno-sanitize-recover=all']
FLAVOURS = {
    'prod': dict(cc='gcc', cxx='g++', cflags=['-O2', '-g1'], xflags=['-O1', '-g1'], ld=[]),
    'asan': dict(cc='clang', cxx='clang++',
                 cflags=['-O1', '-gline-tables-only', '-fno-omit-frame-pointer'] + SAN,
                 xflags=['-O1', '-gline-tables-only', '-fno-omit-frame-pointer'] + SAN,
                 ld=SAN),
    'fuzz': dict(cc='clang', cxx='clang++',
                 cflags=['-O1', '-gline-tables-only', '-fno-omit-frame-pointer',
                         '-fsanitize=fuzzer-no-link'] + SAN,
                 xflags=['-O1', '-gline-tables-only', '-fno-omit-frame-pointer',
                         '-DPBT_FUZZ=1'] + SAN,
                 ld=['-fsanitize=fuzzer'] + SAN),
    'tsan': dict(cc='clang', cxx='clang++',
                 cflags=['-O1', '-gline-tables-only', '-fsanitize=thread'],
                 xflags=['-O1', '-gline-tables-only', '-fsanitize=thread'],
                 ld=['-fsanitize=thread']),
}
# checks whose harness contains all other harnesses
ALL_HARNESSES = ('C24', 'C26')
CHECK_FLAVOURS = {'C26': ['prod', 'tsan']}
COMMON_C = ['-w', '-fexceptions', '-fPIC']
COMMON_X = ['-std=c++17', '-w']
# generated tables: (output, generator, inputs)
TABLES = [
    ('unicode_categories.c', 'categorize.py', ['unicode/UnicodeData.txt']),
    ('unicode_lower_case.c', 'lower_case.py', ['unicode/UnicodeData.txt']),
    ('unicode_upper_case.c', 'upper_case.py', ['unicode/UnicodeData.txt']),
    ('unicode_canonical_combining_classes.c', 'canonical_combining_classes.py',
     ['unicode/UnicodeData.txt']),
    ('unicode_allowed_in_normal_form.c', 'allowed_in_normal_form.py',
     ['unicode/DerivedNormalizationProps.txt']),
    ('unicode_decomposition.c', 'decomposition.py', ['unicode/UnicodeData.txt']),
    ('unicode_recomposition.c', 'recomposition.py',
     ['unicode/UnicodeData.txt', 'unicode/CompositionExclusions.txt']),
]
ENV = dict(os.environ, LANG='C.UTF-8', LC_ALL='C.UTF-8', TZ='UTC',
           ASAN_OPTIONS='detect_leaks=0:exitcode=77:allocator_may_return_null=1:'
                        'detect_stack_use_after_return=1:abort_on_error=0:handle_abort=0:check_printf=0',
           TSAN_OPTIONS='exitcode=77:halt_on_error=1:report_signal_unsafe=0:report_thread_leaks=0:check_printf=0',
           UBSAN_OPTIONS='exitcode=77:print_stacktrace=1')


# allocation functions the library must not use behind the reallocator
DIRECT = ('malloc calloc realloc reallocarray free strdup strndup aligned_alloc posix_memalign '
          'asprintf vasprintf').split()
LOCALES = [('tr_TR', 'ISO-8859-9'), ('en_US', 'ISO-8859-1'), ('ru_RU', 'KOI8-R')]


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(hashlib.sha256(p).digest())
    return h.hexdigest()[:20]


def read(path):
    with open(path, 'rb') as f:
        return f.read()


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stderr.decode(errors='replace')[-4000:]))
    return r.stdout


def atomic(path, make):
    """Run make(tmp) and move the result to path, unless path exists."""
    if os.path.exists(path):
        return path
    tmp = '%s.%d.%d.tmp' % (path, os.getpid(), threading.get_ident())
    try:
        make(tmp)
        os.replace(tmp, path)
    finally:
        if os.path.exists(tmp):
            os.unlink(tmp)
    return path


class Builder:
    def __init__(self):
        os.makedirs(os.path.join(BUILD, 'inc'), exist_ok=True)
        link = os.path.join(BUILD, 'inc', 'fsdyn')
        inc = os.path.join(REPO, 'include')
        if not os.path.islink(link) or os.readlink(link) != inc:
            try:
                os.unlink(link)
            except OSError:
                pass
            try:
                os.symlink(inc, link)
            except FileExistsError:
                pass
        self.headers = b''.join(read(f) for f in sorted(
            glob.glob(os.path.join(REPO, 'include', '*.h')) +
            glob.glob(os.path.join(REPO, 'src', '*.h'))))
        self.harness_headers = b''.join(read(f) for f in sorted(
            glob.glob(os.path.join(VERIF, 'engine', '*.hpp')) +
            glob.glob(os.path.join(VERIF, 'props', '*.hpp')) +
            glob.glob(os.path.join(VERIF, 'data', '*.inc'))))
        self.pool = concurrent.futures.ThreadPoolExecutor(NCPU)
        self.prune()
        self.locales()

    def locales(self):
        """8-bit locales in which the C library's character functions differ
        from ASCII.  Without them (no localedef) only the C locales are used."""
        top = os.path.join(BUILD, 'locale')
        ENV['LOCPATH'] = top
        os.makedirs(top, exist_ok=True)
        for lang, charset in LOCALES:
            out = os.path.join(top, '%s.%s' % (lang, charset))
            if os.path.isdir(out) or not shutil.which('localedef'):
                continue
            tmp = tempfile.mkdtemp(dir=BUILD)
            try:
                loc = os.path.join(tmp, 'l')
                subprocess.run(['localedef', '-i', lang, '-f', charset, loc],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if os.path.isdir(loc):
                    os.rename(loc, out)
            except OSError:
                pass
            finally:
                shutil.rmtree(tmp, ignore_errors=True)

    def prune(self):
        """Keep the cache small."""
        try:
            files = [(os.path.getmtime(f), f) for f in glob.glob(os.path.join(BUILD, 'obj', '*'))]
            if len(files) > 1500:
                for _, f in sorted(files)[:-700]:
                    os.unlink(f)
        except OSError:
            pass
        os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)

    def obj(self, flavour, src, text=None):
        """Compile one C or C++ source."""
        fl = FLAVOURS[flavour]
        cxx = src.endswith('.cpp')
        base = os.path.basename(src)
        if cxx:
            cc = [fl['cxx']] + COMMON_X + fl['xflags'] + [
                '-I', os.path.join(BUILD, 'inc'), '-I', os.path.join(VERIF, 'engine'),
                '-I', os.path.join(VERIF, 'props')]
            dep = self.harness_headers
        else:
            comp, flags = fl['cc'], fl['cflags']
            if base.startswith('unicode_'):
                # clang's sanitizers need minutes for these switch tables
                comp, flags = 'gcc', ['-O1', '-g1']
            elif base == 'gen_idna_table.c':
                pass
            cc = [comp] + COMMON_C + flags + [
                '-I', os.path.join(REPO, 'include'), '-I', os.path.join(REPO, 'src')]
            dep = b''
        content = read(src)
        key = sha(' '.join(cc), self.headers, dep, content, base)
        out = os.path.join(BUILD, 'obj', '%s-%s.o' % (base, key))
        return atomic(out, lambda tmp: run(cc + ['-c', src, '-o', tmp], env=ENV))

    def redirected(self, obj):
        """The object with its references to the C library's allocation
        functions renamed, for the allocation check."""
        cmd = ['objcopy']
        for f in DIRECT:
            cmd += ['--redefine-sym', '%s=pbtlib_%s' % (f, f)]
        out = os.path.join(BUILD, 'obj', 'redir-%s-%s' % (sha(' '.join(cmd)), os.path.basename(obj)))
        return atomic(out, lambda tmp: run(cmd + [obj, tmp]))

    def tables(self):
        """Generate the table sources with the repository's own generators."""
        gen_inputs = [os.path.join(REPO, 'src', t[1]) for t in TABLES]
        gen_inputs += sorted({os.path.join(REPO, i) for t in TABLES for i in t[2]})
        gen_inputs += [os.path.join(REPO, 'idna', 'IdnaMappingTable.txt')]
        gen_inputs += sorted(glob.glob(os.path.join(REPO, 'src', '*.c')))
        key = sha(self.headers, *[read(f) for f in gen_inputs])
        out = os.path.join(BUILD, 'gen-' + key)
        if os.path.isdir(out):
            return out
        tmp = tempfile.mkdtemp(dir=BUILD)
        try:
            with open(os.path.join(tmp, 'fsdyn_version.c'), 'w') as f:
                f.write('const char *fsdyn_version_tag = "F-S_v:: fsdyn 1.0.9999";\n')

            def table(t):
                data = run(['python3', os.path.join(REPO, 'src', t[1])] +
                           [os.path.join(REPO, i) for i in t[2]], env=ENV)
                with open(os.path.join(tmp, t[0]), 'wb') as f:
                    f.write(data)

            def idna():
                exe = os.path.join(tmp, 'gen_idna_table')
                srcs = [os.path.join(REPO, 'src', n) for n in
                        ('gen_idna_table.c', 'charstr.c', 'list.c', 'fsalloc.c')]
                run(['gcc', '-O1', '-w', '-I', os.path.join(REPO, 'include'),
                     '-I', os.path.join(REPO, 'src')] + srcs +
                    [os.path.join(tmp, 'fsdyn_version.c'), '-o', exe], env=ENV)
                data = run([exe, os.path.join(REPO, 'idna', 'IdnaMappingTable.txt')], env=ENV)
                with open(os.path.join(tmp, 'idna_table.c'), 'wb') as f:
                    f.write(data)
                os.unlink(exe)
            fs = [self.pool.submit(table, t) for t in TABLES] + [self.pool.submit(idna)]
            for f in fs:
                f.result()
            try:
                os.rename(tmp, out)
            except OSError:
                pass
        finally:
            if os.path.isdir(tmp):
                shutil.rmtree(tmp)
        for old in glob.glob(os.path.join(BUILD, 'gen-*')):
            if old != out and time.time() - os.path.getmtime(old) > 3600:
                shutil.rmtree(old, ignore_errors=True)
        return out

    def lib_sources(self):
        gen = self.tables()
        srcs = [f for f in sorted(glob.glob(os.path.join(REPO, 'src', '*.c')))
                if os.path.basename(f) != 'gen_idna_table.c']
        return srcs + sorted(glob.glob(os.path.join(gen, '*.c')))

    def harness_sources(self, prop):
        srcs = [os.path.join(VERIF, 'engine', 'pbt.cpp')]
        if prop in ALL_HARNESSES:
            srcs += sorted(glob.glob(os.path.join(VERIF, 'props', 'c*.cpp')))
        else:
            srcs += [os.path.join(VERIF, 'props', prop.lower() + '.cpp')]
        text = b''.join(read(s) for s in srcs)
        if b'uniref.hpp' in text or b'uni_common.hpp' in text:
            srcs.append(os.path.join(VERIF, 'props', 'uniref.cpp'))
        return srcs

    def binaries(self, prop, flavours):
        libs = self.lib_sources()
        har = self.harness_sources(prop)
        futs = {}
        for src in har + libs:          # slow ones (harness) first
            for fl in flavours:
                futs[fl, src] = self.pool.submit(self.obj, fl, src)
        out = {}
        for fl in flavours:
            objs = [futs[fl, s].result() for s in har]
            lobjs = [futs[fl, s].result() for s in libs]
            if prop == 'C24':
                lobjs = list(self.pool.map(self.redirected, lobjs))
            objs += lobjs
            key = sha(fl, ' '.join(FLAVOURS[fl]['ld']), *objs)
            exe = os.path.join(BUILD, 'obj', '%s-%s-%s.exe' % (prop, fl, key))
            out[fl] = atomic(exe, lambda tmp: run(
                [FLAVOURS[fl]['cxx']] + objs + ['-o', tmp, '-lm', '-lpthread'] +
                FLAVOURS[fl]['ld'], env=ENV))
        return out


def tail(path, n=3000):
    try:
        return read(path)[-n:].decode(errors='replace')
    except OSError:
        return ''


class Job:
    def __init__(self, kind, stage, flavour, cmd, out, log, env=None, cost=0):
        self.kind, self.stage, self.flavour = kind, stage, flavour
        self.cmd, self.out, self.log, self.env = cmd, out, log, env or ENV
        self.cost = cost
        self.rc = None
        self.handled = False
        self.artifacts = None


def run_jobs(jobs, stop):
    """Run jobs NCPU at a time; stop starting and kill the rest on a failure."""
    running = {}
    queue = sorted(jobs, key=lambda j: -j.cost)
    while queue or running:
        while queue and len(running) < NCPU and not stop['failed']:
            j = queue.pop(0)
            log = open(j.log, 'wb')
            p = subprocess.Popen(j.cmd, stdout=log, stderr=log, env=j.env,
                                 start_new_session=True)
            log.close()
            running[p] = j
        if stop['failed']:
            queue = []
        for p in list(running):
            rc = p.poll()
            if rc is not None:
                j = running.pop(p)
                j.rc = rc
                if rc != 0 and stop['failed'] is None:
                    stop['failed'] = j
        if stop['failed'] and running:
            for p in list(running):
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                running.pop(p).rc = 'killed'
        time.sleep(0.02)


def known_findings(prop):
    res = []
    try:
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding: property=%s ' % prop):
                    res.append(line.split(' ', 2)[2])
    except OSError:
        pass
    return res


def usable(exe):
    return subprocess.run([exe, 'list'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                          env=ENV).returncode == 0


def replay_once(exe, prop, stage, choices, trace=None):
    cmd = [exe, 'replay', prop, stage, choices] + ([trace] if trace else [])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV)
    return r.returncode, r.stdout.decode(errors='replace').strip(), \
        r.stderr.decode(errors='replace')


def write_replay(prop, stage, flavour, choices, msg, trace, report, extra=None):
    os.makedirs(REPLAYS, exist_ok=True)
    data = dict(property=prop, stage=stage, flavour=flavour, message=msg,
                choices=choices, trace=trace.split('\n'),
                report=report.split('\n')[:60],
                how_to_replay='python3 check.py --replay <this file>')
    if extra:
        data.update(extra)
    path = os.path.join(REPLAYS, '%s-%s.json' % (prop, sha(prop, stage, flavour, str(choices),
                                                             str(extra))[:12]))
    with open(path, 'w') as f:
        json.dump(data, f, indent=1)
    return path


def handle_failure(job, prop, bins, work, seed):
    """Shrink, replay three times, write the replay file.  None: not reproduced."""
    fl = job.flavour
    stage = job.stage['name']
    raw = os.path.join(work, 'raw.choices')
    extra = None
    if job.kind == 'run':
        try:
            info = json.loads(read(job.out))
        except (OSError, ValueError):
            return None, 'worker failed without a record: %s' % tail(job.log)
        with open(raw, 'w') as f:
            f.write('\n'.join(map(str, info['choices'])) + '\n')
        extra = dict(batch=job.cmd[1:])
    else:
        fl = 'asan'
        # crashes rather than slow units
        arts = sorted(glob.glob(job.artifacts + '*'), key=lambda a: '.art-slow' in a)
        if not arts:
            return None, 'fuzzer failed without an artifact: %s' % tail(job.log)
        subprocess.run([bins[fl], 'bytes', prop, stage, arts[0], raw],
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=ENV)
    exe = bins[fl]
    best = os.path.join(work, 'best.choices')
    r = subprocess.run([exe, 'shrink', prop, stage, raw, best, '60'],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV)
    for cand in ([best] if r.returncode == 0 else []) + [raw]:
        trace = os.path.join(work, 'trace')
        if os.path.exists(trace):
            os.unlink(trace)
        # a schedule of threads is not the same each time
        loose = fl == 'tsan'
        res = [replay_once(exe, prop, stage, cand, trace) for _ in range(8 if loose else 3)]
        if all(x[0] == 1 for x in res) or loose and any(x[0] == 1 for x in res):
            res = [x for x in res if x[0] == 1]
            choices = [int(x) for x in read(cand).split()]
            path = write_replay(prop, stage, fl, choices, res[0][1],
                                tail(trace, 60000), res[0][2])
            return path, res[0][1]
    if job.kind == 'run':
        # not reproducible in a fresh process: does the whole batch fail again?
        ok = 0
        for k in range(3):
            cmd = list(job.cmd)
            cmd[-1] = os.path.join(work, 'again%d' % k)
            r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=ENV)
            if r.returncode == 1:
                again = json.loads(read(cmd[-1]))
                if again['index'] == info['index'] or fl == 'tsan':
                    ok += 1
        if ok == 3 or ok and fl == 'tsan':
            extra['note'] = 'depends on earlier cases of the batch; replay runs the batch'
            path = write_replay(prop, stage, fl, [], info['msg'], '', tail(job.log), extra)
            return path, info['msg']
    return None, 'failure did not reproduce: %s' % tail(job.log)


def do_replay(path):
    d = json.loads(read(path))
    bins = Builder().binaries(d['property'], [d['flavour']])
    exe = bins[d['flavour']]
    with tempfile.TemporaryDirectory() as work:
        if d.get('batch') and not d['choices']:
            cmd = [exe] + d['batch']
            cmd[-1] = os.path.join(work, 'out')
            r = subprocess.run(cmd, env=ENV)
            return r.returncode
        ch = os.path.join(work, 'c')
        with open(ch, 'w') as f:
            f.write('\n'.join(map(str, d['choices'])) + '\n')
        tr = os.path.join(work, 't')
        rc, out, err = replay_once(exe, d['property'], d['stage'], ch, tr)
        sys.stdout.write(tail(tr, 60000))
        sys.stderr.write(err)
        print('%s: %s' % ('FAILED' if rc else 'PASSED', out))
        return rc


def check(prop, tier, only_stage, fuzz, scale, quiet=False):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    b = Builder()
    try:
        bins = b.binaries(prop, CHECK_FLAVOURS.get(prop, ['prod', 'asan'] + (['fuzz'] if fuzz else [])))
    except BuildError as e:
        sys.stderr.write('BUILD FAILED\n%s\n' % e)
        return 2
    t_build = time.time() - t0
    info = [p for p in json.loads(run([bins['prod'], 'list'], env=ENV)) if p['id'] == prop][0]
    work = tempfile.mkdtemp(dir=BUILD)
    try:
        jobs = []
        wall = '240' if tier == 'quick' else '3600'
        for st in info['stages']:
            if only_stage and st['name'] != only_stage:
                continue
            n = st['quick'] if tier == 'quick' else st['thorough']
            if not st['enum']:
                n = max(1, int(n * scale))
            for fl in ('prod', 'asan', 'tsan'):
                if not st[fl]:
                    continue
                if fl == 'tsan' and not usable(bins[fl]):
                    sys.stderr.write('ThreadSanitizer does not run here; stage %s left out\n' % st['name'])
                    continue
                m = n if fl != 'asan' else (n + st['asan_div'] - 1) // st['asan_div']
                if m == 0:
                    continue
                # an exhaustive stage under ASan takes every asan_div-th chunk
                step = st['asan_div'] if (st['enum'] and fl == 'asan') else 1
                shards = min(NCPU // 2 if fl == 'asan' else NCPU, m)
                for k in range(shards):
                    cnt = (m - k + shards - 1) // shards
                    tag = os.path.join(work, '%s-%s-%d' % (st['name'], fl, k))
                    jobs.append(Job('run', st, fl, [
                        bins[fl], 'run', prop, st['name'], str(seed), str(k * step), str(cnt),
                        str(shards * step), wall, tag + '.json'], tag + '.json', tag + '.log',
                        cost=1))
            if st['fuzz'] and fuzz and not st['enum']:
                procs = 2 if tier == 'quick' else 4
                runs = max(1, int(st['fuzz_runs'] * (1 if tier == 'quick' else 40) * scale))
                for k in range(procs):
                    tag = os.path.join(work, '%s-fuzz-%d' % (st['name'], k))
                    os.makedirs(tag + '.corpus')
                    if k % 2 == 0:      # one process starts from generated cases
                        subprocess.run([bins['prod'], 'corpus', prop, st['name'], str(seed + k),
                                        '60', tag + '.corpus'], env=ENV,
                                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                    j = Job('fuzz', st, 'fuzz', [
                        bins['fuzz'], '-runs=%d' % runs, '-seed=%d' % (seed * 16 + k + 1),
                        '-max_len=4096', '-len_control=20', '-use_value_profile=%d' % (k % 2),
                        '-timeout=60', '-rss_limit_mb=4096', '-print_final_stats=1',
                        '-max_total_time=%s' % ('60' if tier == 'quick' else '900'),
                        '-artifact_prefix=' + tag + '.art-', tag + '.corpus'],
                        tag + '.json', tag + '.log',
                        env=dict(ENV, PBT_PROP=prop, PBT_STAGE=st['name'],
                                 PBT_STATS=tag + '.json'), cost=2)
                    j.artifacts = tag + '.art-'
                    jobs.append(j)
        violation = None
        inconclusive = None
        while True:
            stop = {'failed': None}
            run_jobs([j for j in jobs if j.rc is None or j.rc == 'killed'], stop)
            if not stop['failed']:
                break
            for j in jobs:
                if j.rc not in (None, 'killed', 0) and not j.handled and not violation:
                    j.handled = True
                    violation, msg = handle_failure(j, prop, bins, work, seed)
                    if not violation:
                        inconclusive = inconclusive or msg
            # unless one can be repeated, something else may fail that can
            if violation or time.time() - t0 > (300 if tier == 'quick' else 7200):
                break
        # evidence
        ev = nontriv = fuzz_execs = 0
        labels, samples, per_stage, hashes = {}, [], {}, []
        for j in jobs:
            if j.rc != 0:
                continue
            try:
                s = json.loads(read(j.out))
            except (OSError, ValueError):
                continue
            ev += s['evaluations']
            nontriv += s['nontrivial']
            key = '%s/%s' % (j.stage['name'], j.flavour)
            per_stage[key] = per_stage.get(key, 0) + s['evaluations']
            for k, v in s['labels'].items():
                labels[k] = labels.get(k, 0) + v
            if len(samples) < 8 and j.kind == 'run':
                samples += s['samples'][:1]
            hashes.append(j.out + '.hashes')
        distinct = int(run([bins['prod'], 'merge'] + hashes, env=ENV) or 0)
        evidence = dict(
            property=prop, tier=tier, seed=seed, level='exploration',
            coverage=dict(evaluations=ev, distinct_nontrivial=distinct, rule=info['rule'],
                          samples=samples, nontrivial=nontriv,
                          cases_by_stage_and_flavour=per_stage, classes=labels,
                          build_s=round(t_build, 1)),
            assumptions=['gcc and clang, ASan and libFuzzer are trusted',
                         'the reference model in props/%s.cpp is trusted' % prop.lower(),
                         'out-of-domain inputs are listed in DESIGN.md'],
            wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
        if all(s['enum'] for s in info['stages']):
            evidence['coverage']['exhaustive'] = True
        os.makedirs(EVIDENCE, exist_ok=True)
        if not only_stage:
            with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as f:
                json.dump(evidence, f, indent=1)
        for k in known_findings(prop):
            print('KNOWN-FINDING: property=%s %s' % (prop, k))
        if not quiet:
            print('%s: %d cases (%d distinct non-trivial) in %.1f s (build %.1f s)' % (
                prop, ev, distinct, time.time() - t0, t_build))
            for k in sorted(labels):
                print('   %-40s %d' % (k, labels[k]))
        if violation:
            print('%s: %s' % (prop, msg))
            print('VIOLATION property=%s replay=%s' % (prop, violation))
            return 1
        if inconclusive:
            sys.stderr.write('inconclusive: %s\n' % inconclusive)
            return 2
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main(argv):
    if argv[:1] == ['--replay']:
        return do_replay(argv[1])
    if argv[:1] == ['--build-all']:
        b = Builder()
        props = sorted(os.path.basename(f)[:-4].upper()
                       for f in glob.glob(os.path.join(VERIF, 'props', 'c[0-9]*.cpp')))
        try:
            for p in props:
                b.binaries(p, CHECK_FLAVOURS.get(p, ['prod', 'asan', 'fuzz']))
        except BuildError as e:
            sys.stderr.write('%s\n' % e)
            return 2
        return 0
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only, fuzz, scale = None, True, 1.0
    i = 1
    while i < len(argv):
        if argv[i] == '--tier':
            tier = argv[i + 1]
            i += 1
        elif argv[i] == '--stage':
            only = argv[i + 1]
            i += 1
        elif argv[i] == '--no-fuzz':
            fuzz = False
        elif argv[i] == '--scale':
            scale = float(argv[i + 1])
            i += 1
        i += 1
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    return check(prop, tier, only, fuzz, scale)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
