"""C06: emission is pure, repeatable, independent of hash seed, process history and of other emissions."""
import glob
import json
import os
import random
import subprocess
import sys
import veriloggen
from vlib import designs
from vlib.harness import Violation, Inconclusive, REPO
from checks import c09, c10, c11

PID = 'C06'
RULE = ('a case is a set of 3..6 design programs (repository examples and test designs, random whole-design programs and random thread '
        'programs) built in 2 processes with different hash seeds, in different orders and multiplicities, with global resets between, '
        'aborted builds, repeated, sub-module-first, to-file and verilator emissions; distinct = program set and order')
ASSUMPTIONS = ['a program is a function of its source alone', 'the fresh reference build runs in a forked child of the same interpreter and hash seed']
MIN_EVENTS = {'emissions': 100, 'programs': 20}
TIMEOUT = 300
ACTS = ['plain', 'again', 'subs_first', 'verilator', 'file', 'str', 'held', 'abort']
WORKER = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vlib', 'emitw.py')


def counts(tier):
    return 20 if tier == 'quick' else 1500


def corpus():
    fs = []
    for d in ('tests', 'examples'):
        for f in sorted(glob.glob(os.path.join(REPO, d, '**', '*.py'), recursive=True)):
            b = os.path.basename(f)
            if b.startswith('test_') or b == 'conftest.py':
                continue
            try:
                if '\ndef mk' in open(f).read():
                    fs.append(os.path.relpath(f, REPO))
            except Exception:
                pass
    return fs


_C = []


def gen(rng, i, tier):
    if not _C:
        _C.extend(corpus())
    n = rng.randint(3, 5)
    P = []
    fam = rng.choice(designs.TEMPLATES)
    for k in range(n):
        x = rng.random()
        if x < .45 and _C:
            j = rng.randrange(len(_C))
            P.append({'kind': 'file', 'path': _C[j]})
            if rng.random() < .4 and k + 1 < n:            # a neighbour shares names, helper modules and features
                P.append({'kind': 'file', 'path': _C[min(len(_C) - 1, j + 1)]})
        elif x < .9:
            f = fam if rng.random() < .5 else rng.choice(designs.TEMPLATES)
            P.append({'kind': 'src', 'src': '\n'.join(f(rng)) + '\n', 't': f.__name__})
        else:
            c = c11.gen(rng, i, tier)
            P.append({'kind': 'src', 'src': '\n'.join(c11.source(c)) + '\n', 't': 'c11'})
    P = P[:n]
    orders = []
    for h in range(2):
        o = []
        for _ in range(rng.randint(2, len(P))):
            o.append([rng.randrange(len(P)), rng.choice(ACTS)])
        for j in range(len(P)):
            o.append([j, rng.choice(ACTS[:7])])
        if h:
            rng.shuffle(o)
        orders.append(o)
    return {'programs': P, 'orders': orders, 'hash': [rng.randint(1, 10 ** 6), rng.choice([0, rng.randint(1, 10 ** 6)])], 'seed': rng.randint(0, 10 ** 9)}


def directed():
    D = []
    r = random.Random(7)
    for t in designs.TEMPLATES:
        P = [{'kind': 'src', 'src': '\n'.join(t(r)) + '\n', 't': t.__name__} for _ in range(3)]
        o = [[j, a] for q, a in enumerate(ACTS) for j in range(3) if (q + j) % 2]
        D.append({'programs': P, 'orders': [o, o[::-1]], 'hash': [0, 12345], 'seed': 5})
    return D


def one(job, hs, ctx, k):
    jf, of = os.path.join(ctx.scratch, 'job%d.json' % k), os.path.join(ctx.scratch, 'out%d.json' % k)
    json.dump(job, open(jf, 'w'))
    env = dict(os.environ, PYTHONHASHSEED=str(hs), PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, WORKER, jf, of], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=TIMEOUT - 20)
    if not os.path.exists(of):
        raise Inconclusive('worker failed: ' + p.stderr.decode()[-400:])
    return json.load(open(of))


def run(case, ctx):
    P = []
    for k, p in enumerate(case['programs']):
        if p['kind'] == 'src':
            f = os.path.join(ctx.scratch, 'src%d.py' % k)
            with open(f, 'w') as o:
                o.write(p['src'])
            P.append({'kind': 'src', 'path': f, 'fn': 'mk'})
        else:
            P.append({'kind': 'file', 'path': os.path.join(REPO, p['path'])})
    res = []
    for k, hs in enumerate(case['hash']):
        res.append(one({'programs': P, 'order': case['orders'][k], 'seed': case['seed'] + k, 'cwd': ctx.scratch, 'nosim': True}, hs, ctx, k))

    def text(h):
        f = os.path.join(ctx.scratch, 'txt_' + h)
        return open(f).read() if os.path.exists(f) else h

    def diff(a, b):
        import difflib
        return '\n'.join(list(difflib.unified_diff(text(a).splitlines(), text(b).splitlines(), lineterm='', n=1))[:25])

    def name(i):
        p = case['programs'][i]
        return p.get('path') or p.get('t')
    for i in range(len(P)):
        a, b = res[0]['fresh'][str(i)], res[1]['fresh'][str(i)]
        if a != b and not a.startswith('EXC') and not b.startswith('EXC'):
            raise Violation('hash-seed', 'program %s emits different text under hash seeds %s:\n%s' % (name(i), case['hash'], diff(a, b)))
        ctx.ev('programs')
        if a.startswith('EXC'):
            ctx.ev('unbuildable')
            ctx.sample = {'unbuildable': name(i), 'why': a}; print('UNB', name(i), a)
    for k, r in enumerate(res):
        for rec in r['seq']:
            i = rec['i']
            ref = r['fresh'][str(i)]
            if ref.startswith('EXC'):
                continue
            if rec['act'] == 'abort':
                ctx.ev('aborted')
                continue
            if 'exc' in rec:
                raise Violation('build-after-history:' + rec['exc'], 'program %s builds in a fresh process, but not after %s\n%s' % (name(i), [s for s in case['orders'][k]], rec['msg']))
            for j, h in enumerate(rec['texts']):
                ctx.ev('emissions')
                ctx.evaluations += 1
                if h != ref:
                    raise Violation('repeat' if j else 'history', 'program %s (%s, emission %d) emits text different from a fresh build:\n%s' % (name(i), rec['act'], j, diff(ref, h)))
            for n, (a, b) in rec.get('sub', {}).items():
                ctx.ev('sub_emissions', 2)
                if a != b:
                    raise Violation('sub-repeat', 'module %s of %s emits different text after its parent was emitted:\n%s' % (n, name(i), diff(a, b)))
            if 'file' in rec and rec['file'] != rec['texts'][0]:
                raise Violation('file', 'file emission of %s differs from the returned text' % name(i))
    ctx.sig([name(i) for i in range(len(P))], case['orders'])
    ctx.sample = {'programs': [name(i) for i in range(len(P))], 'hash': case['hash'], 'orders': [len(o) for o in case['orders']], 'first_text_md5': res[0]['fresh']['0']}
