#!/usr/bin/env python3
"""mutate.py [--sample N] [--seed S] [--jobs J] [--out FILE] [--list] [--deep] SOURCE...

Mutation analysis: small syntactic changes to the library's sources, one at a
time, in scratch copies of /repo; each runs through the checks of its source.
A first pass uses few cases; what survives it runs through the whole quick tier.
Survivors are either equivalent or show something no check looks at.
The stable tests play no part here."""
import argparse, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    'avltree.c': 'C01 C02 C24 C26', 'base64.c': 'C11 C12 C24', 'bytearray.c': 'C09 C10 C24',
    'charstr.c': 'C18 C19 C13 C17 C25 C14 C21 C24 C26', 'charstr_decompose.c': 'C15 C24',
    'charstr_recompose.c': 'C16 C24', 'charstr_puny.c': 'C20 C21 C24', 'charstr_unicode.c': 'C14',
    'date.c': 'C22 C24', 'float.c': 'C23', 'fsalloc.c': 'C24 C25', 'gen_idna_table.c': 'C21 C20',
    'hashtable.c': 'C03 C04 C24', 'integer.c': 'C04', 'intset.c': 'C08 C24', 'list.c': 'C05 C24',
    'priority_queue.c': 'C06 C07 C24',
}
TOK = re.compile(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|^[ \t]*#(?:\\\n|[^\n])*|'
                 r'0[xX][0-9a-fA-F]+[uUlL]*|\d+[uUlL]*|[A-Za-z_]\w*|<<=|>>=|\.\.\.|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||'
                 r'[-+*/%&|^]=|\S|\s+', re.S | re.M)
SWAP = {'<': ['<=', '>='], '<=': ['<', '>'], '>': ['>=', '<='], '>=': ['>', '<'], '==': ['!=', '>='], '!=': ['=='],
        '&&': ['||'], '||': ['&&'], '+': ['-'], '-': ['+'], '*': ['/'], '/': ['*'], '%': ['/'],
        '<<': ['>>'], '>>': ['<<'], '&': ['|'], '|': ['&'], '^': ['|'], '++': ['--'], '--': ['++'],
        '+=': ['-='], '-=': ['+='], '|=': ['&='], '&=': ['|='], '<<=': ['>>='], '>>=': ['<<='],
        'true': ['false'], 'false': ['true'], 'break': ['continue'], 'continue': ['break'],
        'size_t': ['uint16_t', 'uint8_t'], 'ssize_t': ['int'], 'int64_t': ['int32_t'], 'uint64_t': ['uint32_t'],
        'uintptr_t': ['uint32_t'], 'intptr_t': ['int32_t'], 'unsigned': ['signed', 'unsigned short'], 'int': ['short'],
        'uint8_t': ['int8_t'], 'long': ['int']}


def mutants(text):
    toks = [(m.group(0), m.start()) for m in TOK.finditer(text)]
    sig = [(t, p) for t, p in toks if not t.isspace() and not t.startswith(('//', '/*'))]
    out = []

    def add(a, b, new, what):
        out.append((a, b, new, what))
    for i, (t, p) in enumerate(sig):
        e = p + len(t)
        prev = sig[i - 1][0] if i else ''
        binary = bool(re.match(r'[\w)\]\'"]', prev[-1:])) and prev not in ('return', 'case')
        if t.lstrip().startswith('#'):
            for m in re.finditer(r'(?<![\w"])(0[xX][0-9a-fA-F]+|\d+)(?![\w"])', t):
                if '#include' not in t and '#if' not in t:
                    add(p + m.start(), p + m.end(), str(int(m.group(0), 0) + 1), 'const+1')
                    add(p + m.start(), p + m.end(), str(int(m.group(0), 0) - 1), 'const-1')
            continue
        if t in SWAP:
            if t in ('-', '*', '&', '+') and not binary:
                if t == '-':
                    add(p, e, '', 'drop -')
                continue
            for n in SWAP[t]:
                add(p, e, n, 'swap')
        elif t == '!':
            add(p, e, '', 'drop !')
        elif re.fullmatch(r'(0[xX][0-9a-fA-F]+|\d+)[uUlL]*', t):
            v = int(re.match(r'0[xX][0-9a-fA-F]+|\d+', t).group(0), 0)
            suf = re.search(r'[uUlL]*$', t).group(0)
            add(p, e, '%d%s' % (v + 1, suf), 'const+1')
            if v:
                add(p, e, '%d%s' % (v - 1, suf), 'const-1')
        elif re.fullmatch(r"'[^\\]'", t):
            add(p, e, "'%s'" % {"'": '!', '\\': 'x'}.get(chr(ord(t[1]) ^ 1), chr(ord(t[1]) ^ 1)), 'char')
        elif t == 'if' or t == 'while':
            # find the condition
            d, j = 0, i + 1
            while j < len(sig):
                d += (sig[j][0] == '(') - (sig[j][0] == ')')
                if d == 0:
                    break
                j += 1
            a, b = sig[i + 1][1] + 1, sig[j][1]
            if t == 'if':
                add(a, b, '1', 'if 1')
            add(a, b, '0', t + ' 0')
        elif t == 'return' and sig[i + 1][0] != ';':
            j = i
            while sig[j][0] != ';':
                j += 1
            a, b = sig[i + 1][1], sig[j][1]
            add(a, b, '0', 'return 0')
        elif t == ';' and prev not in (';', '{', '}'):
            # delete the statement that ends here
            j = i - 1
            d = 0
            while j >= 0 and not (d == 0 and sig[j][0] in ('{', '}', ';', ':', 'else')):
                if sig[j][0] == ')':
                    d += 1
                if sig[j][0] == '(':
                    d -= 1
                    if d < 0:
                        break
                j -= 1
            if d < 0:
                continue
            a = sig[j + 1][1]
            stm = text[a:p]
            if re.match(r'(if|while|for|else|do|switch)\b', stm):
                # the simple statement behind the heading
                m = re.search(r'\)\s*\n?\s*([^()]*?(?:\([^;]*\))?[^()]*)$', stm)
                if not m or not m.group(1).strip():
                    continue
                a += m.start(1)
            add(a, p, '', 'delete')
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--sample', type=int, default=0)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--scale', default='0.03')
    ap.add_argument('--out', default='/tmp/mutants.jsonl')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--skip', default=r'[-{}\s\d,xa-fA-F]*(/\*.*\*/)?', help='lines left alone (tables)')
    ap.add_argument('src', nargs='*')
    o = ap.parse_args()
    srcs = o.src or sorted(CHECKS)
    seen = set()
    if os.path.exists(o.out):
        for l in open(o.out):
            seen.add(json.loads(l)['key'])
    todo = []
    for s in srcs:
        path = os.path.join(o.repo, 'src', s)
        text = open(path).read()
        ms = mutants(text)
        if o.sample and len(ms) > o.sample:
            ms = random.Random(o.seed).sample(ms, o.sample)
        for a, b, n, w in ms:
            key = '%s:%d:%d:%s' % (s, a, b, n)
            line = text.count('\n', 0, a) + 1
            l0 = text.rfind('\n', 0, a) + 1
            l1 = text.find('\n', b)
            before = text[l0:l1].strip()
            if re.fullmatch(o.skip, before):
                continue
            after = (text[l0:a] + n + text[b:l1]).strip()
            if key not in seen:
                todo.append((s, text[:a] + n + text[b:], dict(key=key, src=s, line=line, what=w, before=before, after=after)))
    print('%d mutants' % len(todo))
    if o.list:
        for s, t, d in todo:
            print(d['src'], d['line'], d['what'], '|', d['before'], '=>', d['after'])
        return
    top = tempfile.mkdtemp(prefix='mutate-')
    q = queue.Queue()
    for t in todo:
        q.put(t)
    lock = threading.Lock()
    asm = {}

    def codehash(repo, s, text):
        r = subprocess.run(['gcc', '-O2', '-w', '-S', '-x', 'c', '-o', '-', '-I', repo + '/include', '-I', repo + '/src', '-'],
                           input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        return hashlib.sha1(r.stdout).hexdigest() if r.returncode == 0 else None
    for s in srcs:
        asm.setdefault(s, {})[codehash(o.repo, s, open(os.path.join(o.repo, 'src', s)).read())] = 'original'

    def worker(k):
        w = os.path.join(top, 'w%d' % k)
        os.mkdir(w)
        repo, ver = w + '/repo', w + '/verif'
        subprocess.check_call(['cp', '-a', o.repo, repo])
        os.mkdir(ver)
        for n in ('engine', 'props', 'data', 'build', 'check.py', 'known_findings.txt'):
            subprocess.check_call(['cp', '-al' if n == 'build' else '-a', os.path.join(V, n), ver])
        c = open(ver + '/check.py').read()
        c = c.replace('NCPU = min(8, os.cpu_count() or 8)', 'NCPU = 2')
        c = c.replace("gen_inputs += sorted(glob.glob(os.path.join(REPO, 'src', '*.c')))",
                      "gen_inputs += [os.path.join(REPO, 'src', n) for n in ('gen_idna_table.c', 'charstr.c', 'list.c', 'fsalloc.c')]")
        c = c.replace("len(files) > 1500", "len(files) > 900").replace('[:-700]', '[:-500]')
        open(ver + '/check.py', 'w').write(c)
        while True:
            try:
                s, text, d = q.get_nowait()
            except queue.Empty:
                return
            h = codehash(repo, s, text)
            with lock:
                dup = asm[s].get(h)
                asm[s].setdefault(h, d['key'])
            d['killed'] = None
            if h is None:
                d['killed'] = 'nobuild'
            elif dup:
                d['killed'] = 'same code as ' + dup
            else:
                path = os.path.join(repo, 'src', s)
                orig = open(path).read()
                open(path, 'w').write(text)
                try:
                    for opts in (['--no-fuzz', '--scale', o.scale], ['--scale', '0.5']):
                        for pid in CHECKS[s].split():
                            if d['killed']:
                                break
                            p = subprocess.Popen(['python3', 'check.py', pid, '--tier', 'quick'] + opts, cwd=ver,
                                                 env=dict(os.environ, FSDYN_REPO=repo, VERIF_SEED='1'), start_new_session=True,
                                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                            try:
                                out = p.communicate(timeout=600)[0].decode(errors='replace')
                            except subprocess.TimeoutExpired:
                                os.killpg(p.pid, 9)
                                p.communicate()
                                d['killed'] = pid + ' timeout'
                                continue
                            if p.returncode == 1:
                                m = re.search(r'^%s: (.*)' % pid, out[out.rfind('\n' + pid + ': '):].strip(), re.M)
                                d['killed'] = '%s%s: %s' % (pid, ' deep' if opts[0] == '--scale' else '', m.group(1) if m else '')
                            elif p.returncode != 0:
                                d['killed'] = '%s rc=%d %s' % (pid, p.returncode, out[-300:])
                        if d['killed']:
                            break
                finally:
                    open(path, 'w').write(orig)
                    shutil.rmtree(ver + '/replays', ignore_errors=True)
                    for n in os.listdir(ver + '/build'):
                        if n.startswith('tmp'):
                            shutil.rmtree(ver + '/build/' + n, ignore_errors=True)
            with lock:
                with open(o.out, 'a') as f:
                    f.write(json.dumps(d) + '\n')
                if not d['killed']:
                    print('SURVIVED %s:%d %s | %s => %s' % (s, d['line'], d['what'], d['before'], d['after']), flush=True)
    try:
        ts = [threading.Thread(target=worker, args=(k,)) for k in range(o.jobs)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        shutil.rmtree(top, ignore_errors=True)


if __name__ == '__main__':
    main()
