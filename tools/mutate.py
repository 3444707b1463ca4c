#!/usr/bin/env python3
"""Mutation survey: small automatic changes of /repo/src in scratch copies; which survive the tests and all checks?
usage: mutate.py OUT.jsonl [--files a.c,b.c] [--max N] [--seed N] [--workers N] [--ops op,..]
A development aid only; no check uses it."""
import sys, os, re, random, subprocess, tempfile, shutil, json, argparse
from concurrent.futures import ThreadPoolExecutor, as_completed
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
ap = argparse.ArgumentParser()
ap.add_argument('out'); ap.add_argument('--files', default='crasm.c,macro.c,label.c,scode.c,xref.c,output.c,parse.c,operator.c,filter.c,pseudos.c')
ap.add_argument('--max', type=int, default=200); ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--workers', type=int, default=8); ap.add_argument('--lines', default='')
A = ap.parse_args()
ORDER = ['C01', 'C18', 'C09', 'C03', 'C13', 'C08', 'C02', 'C05', 'C07', 'C12', 'C16', 'C14', 'C10', 'C06', 'C15', 'C04', 'C11', 'C17', 'C19', 'C20', 'C21', 'C22', 'C23']
CASES = {'C17': 300, 'C11': 1500, 'C04': 2000, 'C21': 600}

def strip(l):  # no comments/strings
    return re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])+\'', lambda m: '~' * len(m.group()), l)

def mutants(f):
    ls = open(f'{R}/src/{f}').read().split('\n'); out = []; incom = False
    for i, l in enumerate(ls):
        s = strip(l)
        if incom:
            if '*/' in s: incom = False
            continue
        if '/*' in s:
            if '*/' not in s: incom = True; continue
            s = re.sub(r'/\*.*?\*/', lambda m: '~' * len(m.group()), s)
        s = re.sub(r'//.*', lambda m: '~' * len(m.group()), s)
        t = s.strip()
        if not t or t.startswith('#') or t in '{}': continue
        def sub(a, b, new): out.append((f, i, l[:a] + new + l[b:]))
        for m in re.finditer(r'==|!=|<=|>=|&&|\|\||(?<![-<>])(?<![<>=!])[<>](?![<>=])', s):
            o = m.group()
            for n in {'==': ['!='], '!=': ['=='], '<=': ['<'], '>=': ['>'], '<': ['<='], '>': ['>='], '&&': ['||'], '||': ['&&']}[o]: sub(*m.span(), n)
        for m in re.finditer(r'\+\+|--', s): sub(*m.span(), '--' if m.group() == '++' else '++')
        for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])', s):
            v = int(m.group(), 0); sub(*m.span(), str(v + 1));
            if v > 0: sub(*m.span(), str(v - 1))
        m = re.match(r'(\s*)((?:else )?if|while) ?\((.*)\)(\s*\{?)$', s)
        if m and l[m.start(3):m.end(3)].count('(') == l[m.start(3):m.end(3)].count(')'):
            sub(m.start(3), m.end(3), '!(' + l[m.start(3):m.end(3)] + ')')
            if m.group(2) != 'while': sub(m.start(3), m.end(3), '1'); sub(m.start(3), m.end(3), '0')
        if t.endswith(';') and (re.match(r'[\w\[\]\->.*()+ ]+ ?([-+|&]?=)(?!=)', t) or re.match(r'(\w+ ?\(.*\)|[\w>.\-]+(\+\+|--)|break|continue|return.*);$', t)) \
           and not re.match(r'(static|int|char|struct|register|unsigned|short|long|void|extern)\b', t):
            sub(len(l) - len(l.lstrip()), len(l), ';')
    return out

def run(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)

def one(m):
    f, i, new = m
    T = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    try:
        for d in ('src', 'test'): shutil.copytree(f'{R}/{d}', f'{T}/{d}')
        p = f'{T}/src/{f}'; ls = open(p).read().split('\n'); old = ls[i]; ls[i] = new; open(p, 'w').write('\n'.join(ls))
        os.remove(p[:-1] + 'o') if os.path.exists(p[:-1] + 'o') else None
        r = {'file': f, 'line': i + 1, 'old': old.strip(), 'new': new.strip()}
        if run(['make', 'CC=gcc', 'all'], cwd=T + '/src').returncode: return {**r, 'state': 'nobuild'}
        if open(T + '/src/crasm', 'rb').read() == open(R + '/src/crasm', 'rb').read(): return {**r, 'state': 'same'}
        for t in sorted(os.listdir(T + '/test')):
            if t.endswith('.asm'):
                try:
                    if run(['make', '-B', t[:-4] + '.out'], cwd=T + '/test', timeout=10, stdin=subprocess.DEVNULL).returncode: return {**r, 'state': 'test'}
                except subprocess.TimeoutExpired: return {**r, 'state': 'test'}
        B = T + '/v/build'; os.makedirs(B)
        for x in os.listdir(V + '/build'):
            if x.startswith('u'): shutil.copytree(f'{V}/build/{x}', f'{B}/{x}')
            elif x.endswith('.o') or x.endswith('.sum'): os.link(f'{V}/build/{x}', f'{B}/{x}') if x.endswith('.o') else shutil.copy(f'{V}/build/{x}', f'{B}/{x}')
        for x in ('corpus', 'known', 'known-findings'): os.symlink(f'{V}/{x}', f'{T}/v/{x}')
        os.makedirs(T + '/v/evidence'); os.makedirs(T + '/v/out')
        b = run(['bash', V + '/build.sh'], env={**os.environ, 'CRASM_SRC': T + '/src', 'SIM_BUILD': B})
        if b.returncode: return {**r, 'state': 'simbuild', 'text': b.stdout[-300:]}
        for mult in (1,):
            for c in ORDER:
                n = CASES.get(c, 3000) * mult
                try: x = run([B + ('/simsan' if c == 'C11' else '/simcheck'), '--check', c, '--cases', str(n), '--workers', '1'], env={**os.environ, 'SIM_VERIF': T + '/v'}, timeout=900, cwd=T)
                except subprocess.TimeoutExpired: return {**r, 'state': 'timeout', 'by': c}
                if x.returncode == 1: return {**r, 'state': 'caught', 'by': c, 'mult': mult, 'text': [l for l in x.stdout.split('\n') if l][:1]}
                if x.returncode and 'no such' not in x.stdout: return {**r, 'state': 'trouble', 'by': c, 'text': x.stdout[-300:]}
        return {**r, 'state': 'SURVIVED'}
    except Exception as e: return {'file': f, 'line': i + 1, 'new': new.strip(), 'state': 'exception', 'text': repr(e)}
    finally: shutil.rmtree(T, ignore_errors=True)

M = [m for f in A.files.split(',') for m in mutants(f)]
if A.lines:
    lo, hi = map(int, A.lines.split('-')); M = [m for m in M if lo <= m[1] + 1 <= hi]
random.Random(A.seed).shuffle(M)
print(len(M), 'candidates'); M = M[:A.max]
from collections import Counter
cnt = Counter()
with open(A.out, 'a') as o, ThreadPoolExecutor(A.workers) as ex:
    for fu in as_completed([ex.submit(one, m) for m in M]):
        r = fu.result()
        cnt[r['state']] += 1
        o.write(json.dumps(r) + '\n'); o.flush()
        if r['state'] in ('SURVIVED', 'trouble', 'timeout', 'simbuild', 'exception'): print(json.dumps(r)); sys.stdout.flush()
print(dict(cnt))
