"""C18: thread.Stream kernels: access patterns of sources and sinks, parameters, repeated / overlapped runs, back-pressure"""
import copy
import veriloggen
import veriloggen.thread as vthread
import veriloggen.types.util as util
from vlib.harness import Violation, Inconclusive
from vlib import thr, strm

PID = 'C18'
RULE = ('a case is a thread program with one thread.Stream of random operators run 1-4 times; sources and sinks use random access modes (normal, pattern, '
        'multidim, multipattern, generator, FIFO, constant, immediate, conditional), runs are joined or overlapped, the pipeline is stalled at random; '
        'the final contents of every RAM and FIFO must be what the sequential loop over the items gives; distinct = modes and operators')
ASSUMPTIONS = ['iverilog simulates the emitted Verilog faithfully', 'the regions read and written by one run (or by overlapped runs) are disjoint',
               'all sources of one run carry the same number of items (or are constant)',
               'only the bits of a sink value which fit the RAM word are specified']
MIN_EVENTS = {'runs': 200, 'items': 1500, 'words_checked': 10000, 'stalled_kernels': 20}
TIMEOUT = 200
KINDS = [k for k in strm.DEFAULT if k != 'prev'] + ['Reduce'] * 5 + ['ReduceV', 'Counter', 'Counter', 'Pulse', 'DivMC', 'ReduceM']
AW = 8
NW = 1 << AW


def counts(tier):
    return 110 if tier == 'quick' else 2500


def factors(rng, n, k):
    """an ordered factorisation of n into k factors"""
    f = [1] * k
    p = 2
    while n > 1:
        while n % p == 0:
            f[rng.randrange(k)] *= p
            n //= p
        p += 1
    return f


def addrs(d):
    def pat(off, p):
        r = [off]
        for size, stride in reversed(p):
            r = [a + i * stride for a in r for i in range(size)]
        return r
    k = d['mode']
    if k == 'normal':
        return [d['off'] + i * d['stride'] for i in range(d['size'])]
    if k == 'pattern':
        return pat(d['off'], d['pat'])
    if k == 'multidim':
        sh = d['shape']
        order = d['order'] if d['order'] is not None else list(reversed(range(len(sh))))
        p = []
        for x in order:
            s = 1
            for y in sh[x + 1:]:
                s *= y
            p.append((sh[x], s))
        return pat(d['off'], p)
    if k == 'multipattern':
        return sum((pat(o, p) for o, p in zip(d['offs'], d['pats'])), [])
    if k == 'generator':
        return [d['off'] + i * d['step'] for i in range(d['size'])]
    return None


def access(rng, n, lo, hi, uniq, prev=None):
    """a random access description of n words, all addresses within [lo, hi); often of the kind which the variable had in the previous run"""
    for _ in range(60):
        k = rng.choice(['normal', 'normal', 'pattern', 'pattern', 'multidim', 'multipattern', 'generator'])
        if prev is not None and prev['mode'] in ('pattern', 'multidim', 'multipattern', 'generator') and rng.random() < 0.6:
            k = prev['mode']
        if k in ('normal', 'generator'):
            st = rng.choice([1, 1, 1, 2, 3, 5, 0, -1])
            d = {'mode': k, 'off': rng.randrange(lo, hi), 'size': n}
            d['stride' if k == 'normal' else 'step'] = st
        elif k == 'pattern':
            f = factors(rng, n, rng.randint(1, 4))
            d = {'mode': k, 'off': rng.randrange(lo, hi), 'pat': [(x, rng.choice([0, 1, 1, 2, 3, 4, 8, -1])) for x in f]}
            if rng.random() < 0.6:      # distinct addresses
                s, l = 1, []
                for x in f:
                    l.append((x, s))
                    s *= x
                rng.shuffle(l)
                d['pat'] = l
        elif k == 'multidim':
            f = factors(rng, n, rng.randint(1, 4))
            o = list(range(len(f)))
            rng.shuffle(o)
            d = {'mode': k, 'off': rng.randrange(lo, hi), 'shape': f, 'order': rng.choice([None, o])}
        else:
            if n < 2:
                continue
            a = rng.randrange(1, n)
            d = {'mode': k, 'offs': [rng.randrange(lo, hi), rng.randrange(lo, hi)],
                 'pats': [[(x, rng.choice([0, 1, 1, 2, 5])) for x in factors(rng, m, rng.randint(1, 3))] for m in (a, n - a)]}
        A = addrs(d)
        if len(A) == n and all(lo <= a < hi for a in A) and (not uniq or len(set(A)) == n):
            return d
    return {'mode': 'normal', 'off': lo, 'size': n, 'stride': 1}


def banned(n):
    """forms whose value under the implicit reset of every run is not specified"""
    kw = n.get('kw', {})
    if n['op'] in ('Counter', 'Pulse'):
        return 'enable' in kw or n.get('interval') is not None
    if n['op'].startswith('Reduce'):
        return n.get('size') is not None and ('enable' in kw or n.get('interval') is not None)
    return False


def directed():
    nodes = [{'op': 'var', 'name': 'x0', 'w': 8, 'p': 0, 's': False}, {'op': 'const', 'v': 0, 'raw': False},
             {'op': 'GreaterEq', 'a': [0, 1]}, {'op': 'Plus', 'a': [0, 0], 'py': True}]
    # more room than accepted items: the pipeline is drained with the last item still in the source register
    return [{'id': 'when-short', 'nodes': nodes, 'sinks': [{'node': 3, 'name': 'o0', 'when': 2}], 'overlap': False, 'stall': 0, 'seed': 5, 'asmod': False, 'order': 0,
             'runs': [{'n': 6, 'src': {'x0': {'mode': 'normal', 'off': 3, 'size': 6, 'stride': 1}}, 'snk': {'o0': {'mode': 'normal', 'off': 40, 'size': 9, 'stride': 1}},
                       'par': {}, 'swap': False, 'next': 'join', 'var': False}]}]


def gen(rng, i, tier):
    while True:
        g = strm.gen_graph(rng, nops=rng.randint(1, 7), kinds=KINDS, acc=False, wide=None)
        nodes = strm.fin(g)
        cand = [j for j in range(len(nodes)) if nodes[j]['op'] not in ('var', 'param', 'const')]
        if cand and not any(banned(n) for n in nodes):
            break
    vars_ = [n['name'] for n in nodes if n['op'] == 'var']
    extra = []
    if rng.random() < 0.2:
        w = [j for j in range(len(nodes)) if strm_at(nodes)[j][0] >= 4 and nodes[j]['op'] != 'const']
        if w:
            j = rng.choice(w)
            at = strm_at(nodes)[j]
            nodes.append({'op': 'Slice', 'a': [j], 'msb': min(at[0], AW) - 1, 'lsb': 0})
            c = rng.choice(cand)
            at = strm_at(nodes)[c]
            nodes.append({'op': 'readram', 'a': [len(nodes) - 1], 'w': 32, 's': at[2] if at[1] else rng.random() < 0.5, 'name': 'rr'})
            nodes.append({'op': 'Plus', 'a': [len(nodes) - 1, c]})
            extra.append(len(nodes) - 1)
            cand.append(len(nodes) - 1)
    used = set(x for n in nodes for x in n.get('a', []))
    outs = [j for j in cand if j not in used] or [cand[-1]]
    rng.shuffle(outs)
    outs = outs[:rng.randint(1, 3)]
    if extra and extra[0] not in outs:
        outs[0] = extra[0]
    at = strm_at(nodes)
    sinks = []
    for q, j in enumerate(outs):
        s = {'node': j, 'name': 'o%d' % q, 'when': None}
        if rng.random() < 0.25:
            c = [x for x in range(len(nodes)) if at[x][0] == 1 and nodes[x]['op'] not in ('var', 'const', 'param') and x not in outs]
            if c:
                s['when'] = rng.choice(c)
        sinks.append(s)
    # overlapped runs keep reading the source memory and writing the sink memory; joined runs may exchange them
    overlap = rng.random() < 0.5
    runs = []
    nruns = rng.choice([1, 1, 2, 3, 4])
    for r in range(nruns):
        n = rng.choice([1, 2, 3, 4, 5, 6, 8, 9, 12, 16, 18, 24, 30, 32, 36] + [24, 30, 36] * (2 if overlap else 0))
        swap = not overlap and rng.random() < 0.3
        R = {'n': n, 'src': {}, 'snk': {}, 'par': {}, 'swap': swap,
             'next': rng.choice(['source_join', 'source_join_and_run']) if overlap else 'join', 'var': rng.random() < 0.3}
        live = 0
        for v in vars_:
            c = rng.random()
            pm = [x['src'][v]['mode'] for x in runs if x['src'][v]['mode'] != 'empty']
            if overlap and pm:
                # overlapped runs keep the kind of memory of a variable
                c = rng.uniform(0.08, 0.2) if pm[0] == 'fifo' else rng.choice([0.05 if live else 0.3, 0.3, 0.3, 0.3])
            if c < 0.08 and live:
                R['src'][v] = {'mode': 'empty', 'value': rng.randrange(0, 64)}
            elif c < 0.2:
                R['src'][v] = {'mode': 'fifo', 'size': n, 'data': [rng.getrandbits(32) for _ in range(n)]}
                live = 1
            else:
                R['src'][v] = access(rng, n, 0, NW, False, runs[-1]['src'][v] if runs else None)
                live = 1
        lo = 0
        k = len(sinks)
        for q, s in enumerate(sinks):
            c = rng.random()
            if c < 0.12 and n <= 14 and not any(x['snk'].get(s['name'], {}).get('mode') == 'fifo' for x in runs) and not (overlap and nruns > 1):
                d = {'mode': 'fifo', 'size': n}
            elif c < 0.18 and not overlap:
                d = {'mode': 'immediate', 'size': n}
            else:
                d = access(rng, n, NW * q // k, NW * (q + 1) // k, rng.random() < 0.7, runs[-1]['snk'][s['name']] if runs else None)
            if s['when'] is not None and d['mode'] in ('normal', 'fifo', 'immediate') and rng.random() < 0.5:
                d['size'] = max(1, n // 2)
            R['snk'][s['name']] = d
        for nd in nodes:
            if nd['op'] == 'param':
                R['par'][nd['name']] = rng.getrandbits(nd['w'])
        runs.append(R)
    case = {'nodes': nodes, 'sinks': sinks, 'runs': runs, 'overlap': overlap, 'stall': rng.choice([0, 0, 0, 1, 2, 3]), 'seed': rng.randrange(1 << 30),
            'asmod': rng.random() < 0.1, 'order': rng.randrange(1000)}
    # the size of a conditional sink is at most the number of items it accepts (see the known finding when-short)
    c = accepted(case)
    for r, R in enumerate(runs):
        for s in sinks:
            d = R['snk'][s['name']]
            if s['when'] is None or c is None:
                continue
            if c[r][s['name']] == 0:
                s['when'] = None
    for r, R in enumerate(runs):
        for q, s in enumerate(sinks):
            d = R['snk'][s['name']]
            if s['when'] is None or c is None or c[r][s['name']] >= (d['size'] if 'size' in d else R['n']):
                continue
            if 'size' not in d or d['mode'] == 'generator':
                d = R['snk'][s['name']] = {'mode': 'normal', 'off': NW * q // len(sinks), 'stride': 1}
            d['size'] = c[r][s['name']]
    return case


def accepted(case):
    n = []
    return n if expected(case, n) is not None else None



def strm_at(nodes):
    at = []
    for n in nodes:
        at.append(strm.attr(n, at))
    return at


def mem0(case, k):
    import random
    r = random.Random(case['seed'] + k)
    return [r.getrandbits(32) for _ in range(NW)]


def call(kind, name, d, ram, port, fifo, pre, uid, var):
    k = d['mode']
    o = []
    ex = lambda x: str(x)
    if k == 'normal':
        if var:
            o.append('%s = %d' % (pre + 'o', d['off']))
            o.append('%s = %d' % (pre + 's', d['size']))
            o.append('strm.set_%s(%r, %s, %so, %ss, %d, port=%d)' % (kind, name, ram, pre, pre, d['stride'], port))
        elif d['stride'] == 1:
            o.append('strm.set_%s(%r, %s, %d, %d, port=%d)' % (kind, name, ram, d['off'], d['size'], port))
        else:
            o.append('strm.set_%s(%r, %s, %d, %d, stride=%d, port=%d)' % (kind, name, ram, d['off'], d['size'], d['stride'], port))
    elif k == 'pattern':
        o.append('strm.set_%s_pattern(%r, %s, %d, %s, port=%d)' % (kind, name, ram, d['off'], tuple(tuple(x) for x in d['pat']), port))
    elif k == 'multidim':
        od = '' if d['order'] is None else ', order=%r' % (tuple(d['order']),)
        o.append('strm.set_%s_multidim(%r, %s, %d, %s%s, port=%d)' % (kind, name, ram, d['off'], tuple(d['shape']), od, port))
    elif k == 'multipattern':
        o.append('strm.set_%s_multipattern(%r, %s, %s, %s, port=%d)' %
                 (kind, name, ram, tuple(d['offs']), tuple(tuple(tuple(x) for x in p) for p in d['pats']), port))
    elif k == 'generator':
        o.append('strm.set_%s_generator(%r, %s, func=gen%s, initvals=(%d, %d), args=(%d,), port=%d)' %
                 (kind, name, ram, uid, d['off'], d['size'], d['step'], port))
    elif k == 'fifo':
        o.append('strm.set_%s_fifo(%r, %s, %d)' % (kind, name, fifo, d['size']))
    elif k == 'empty':
        o.append('strm.set_source_empty(%r, %d)' % (name, d['value']))
    elif k == 'immediate':
        o.append('strm.set_sink_immediate(%r, %d)' % (name, d['size']))
    return o


def program(case):
    nodes, sinks, runs = case['nodes'], case['sinks'], case['runs']
    vs = [n for n in nodes if n['op'] == 'var']
    np_ = len(vs) + len(sinks) + 1
    L = ['import veriloggen as vg', 'import veriloggen.thread as vthread', 'import veriloggen.types.util as util',
         'from vlib import strm as S', 'from checks.c18 import mem0, buildk', 'def mk(case):',
         '    m = vg.Module("top")', '    clk = m.Input("CLK")', '    rst = m.Input("RST")']
    for k, nm in enumerate(('ra', 'rb', 'rr')):
        L.append('    %s = vthread.RAM(m, %r, clk, rst, 32, %d, numports=%d, initvals=mem0(case, %d))' % (nm, nm, AW, np_, k))
    fs = sorted(set([v for R in runs for v, d in R['src'].items() if d['mode'] == 'fifo']))
    fk = sorted(set([v for R in runs for v, d in R['snk'].items() if d['mode'] == 'fifo']))
    for v in fs + fk:
        L.append('    f_%s = vthread.FIFO(m, "f_%s", clk, rst, 32, 4)' % (v, v))
    L.append('    strm = vthread.Stream(m, "st", clk, rst%s)' % (', fsm_as_module=True' if case['asmod'] else ''))
    L.append('    buildk(case, strm)')
    if case['stall']:
        L += ['    lf = m.Reg("lf", 16, initval=%d)' % (case['seed'] % 65535 + 1), '    sq = vg.Seq(m, "sq", clk, rst)',
              '    sq(lf(vg.Cat(lf[0:15], lf[15] ^ lf[13] ^ lf[12] ^ lf[10])))',
              '    util.add_disable_cond(strm.oready, 1, %s)' % {1: 'lf[0:3] == 0', 2: 'lf[0:2] != 0', 3: 'lf[5]'}[case['stall']]]
    L += ['    def genf(addr, left, step):', '        last = left == 1', '        return last, addr + step, left - 1']
    ths = []
    for v in fs:
        data = [x for R in runs if R['src'][v]['mode'] == 'fifo' for x in R['src'][v]['data']]
        L.append('    def feed_%s():' % v)
        for x in data:
            L.append('        f_%s.enq(%d)' % (v, x))
        ths.append('feed_%s' % v)
    L.append('    def go():')
    order = case['order']
    T = []
    for r, R in enumerate(runs):
        a, b = ('rb', 'ra') if R['swap'] else ('ra', 'rb')
        C = []
        for q, n in enumerate(vs):
            C.append(call('source', n['name'], R['src'][n['name']], a, q, 'f_' + n['name'], 'v%d_%d_' % (r, q), 'f', R['var']))
        for q, s in enumerate(sinks):
            C.append(call('sink', s['name'], R['snk'][s['name']], b, len(vs) + q, 'f_' + s['name'], 'w%d_%d_' % (r, q), 'f', R['var']))
        for p, x in R['par'].items():
            C.append(['strm.set_parameter(%r, %d, raw=True)' % (p, x)])
        if any(n['op'] == 'readram' for n in nodes):
            C.append(['strm.set_read_RAM("rr", rr, port=1)'])
        k = (order + r) % len(C)
        for c in C[k:] + C[:k]:
            T += c
        prev = runs[r - 1]['next'] if r else None
        if prev == 'source_join_and_run':
            T.append('strm.source_join_and_run()')
        else:
            if prev == 'source_join':
                T.append('strm.source_join()')
            T.append('strm.run()')
        if R['next'] == 'join' or r == len(runs) - 1:
            T.append('strm.join()')
        for s in sinks:
            if R['snk'][s['name']]['mode'] == 'immediate':
                T += ['x = strm.read_sink(%r)' % s['name'], 'print("I", %d, %s, x)' % (r, s['name'][1:])]
    for nm in ('ra', 'rb'):
        T += ['for i in range(%d):' % NW, '    x = %s.read(i)' % nm, '    print("M", %d, i, x)' % (nm == 'rb')]
    for v in fk:
        T += ['for i in range(16):', '    e = f_%s.is_empty()' % v, '    if e:', '        print("E", %s)' % v[1:], '    else:',
              '        x = f_%s.deq()' % v, '        print("F", %s, x)' % v[1:]]
    L += ['        ' + t for t in T]
    L += ['    th = vthread.Thread(m, "th", clk, rst, go)', '    fsms = [th.start()]']
    for k, t in enumerate(ths):
        L += ['    t%d = vthread.Thread(m, "t%d", clk, rst, %s)' % (k, k, t), '    fsms.append(t%d.start())' % k]
    L.append('    return m, fsms')
    return L


def buildk(case, st):
    made = {}
    for n in case['nodes']:
        if n['op'] == 'var':
            made[n['name']] = st.source(n['name'], datawidth=n['w'], point=n['p'], signed=n['s'])
        elif n['op'] == 'param':
            made[n['name']] = st.parameter(n['name'], datawidth=n['w'], point=n['p'], signed=n['s'])
    E = strm.build(case['nodes'], st, made)
    for s in case['sinks']:
        if s['when'] is None:
            st.sink(E[s['node']], s['name'])
        else:
            st.sink(E[s['node']], s['name'], when=E[s['when']], when_name=s['name'] + '_when')


def get(x, w):
    if isinstance(x, tuple):        # written by a previous run: only its own bits are specified
        if x[0] is None or x[1] < w:
            return None
        x = x[0]
    return x & ((1 << w) - 1)


def expected(case, acc=None):
    nodes, sinks = case['nodes'], case['sinks']
    M = [mem0(case, 0), mem0(case, 1)]
    RR = mem0(case, 2)
    fifo, imm = {}, {}
    nitems = 0
    for r, R in enumerate(case['runs']):
        mod = strm.Model(nodes)
        mod.rams = {'rr': RR}
        a, b = (M[1], M[0]) if R['swap'] else (M[0], M[1])
        cols = {}
        for n in nodes:
            if n['op'] != 'var':
                continue
            d = R['src'][n['name']]
            if d['mode'] == 'fifo':
                c = d['data']
            elif d['mode'] == 'empty':
                c = [d['value']] * R['n']
            else:
                c = [a[x] for x in addrs(d)]
            cols[n['name']] = [get(x, n['w']) for x in c]
        W = {s['name']: [] for s in sinks}
        for t in range(R['n']):
            ins = {k: c[t] for k, c in cols.items()}
            ins.update(R['par'])
            V = mod.step(ins, True)
            nitems += 1
            for s in sinks:
                if s['when'] is not None and V[s['when']] is None:
                    return None
                if s['when'] is None or V[s['when']]:
                    W[s['name']].append((V[s['node']], mod.at[s['node']][0]))
        if acc is not None:
            acc.append({k: len(x) for k, x in W.items()})
        for s in sinks:
            d = R['snk'][s['name']]
            w = W[s['name']]
            if d['mode'] == 'fifo':
                fifo.setdefault(s['name'], []).extend(w[:d['size']])
            elif d['mode'] == 'immediate':
                if w:
                    imm[(r, s['name'])] = w[:d['size']][-1]
            else:
                for x, v in zip(addrs(d), w):
                    b[x] = v
    return M, fifo, imm, nitems


def same(got, exp):
    """exp: word, or (value or None, width)"""
    if isinstance(exp, tuple):
        v, w = exp
        if v is None:
            return None
        m = (1 << min(w, 32)) - 1
        return (got & m) == (v & m)
    return got == exp


def num(x):
    return None if 'x' in x.lower() or 'z' in x.lower() else int(x) & 0xffffffff


def run(case, ctx):
    ex = expected(case)
    if ex is None:
        return
    mod, src = thr.load(program(case), ctx)
    m, fsms = mod.mk(case)
    L = thr.simulate(m, fsms, ctx, maxcyc=40000, settle=40)
    M, fifo, imm, nitems = ex

    def bad(mech, msg):
        raise Violation(mech, msg, program=src, nodes=case['nodes'], sinks=case['sinks'], log=L.text)
    modes = sorted(set([d['mode'] for R in case['runs'] for d in list(R['src'].values()) + list(R['snk'].values())]))
    ctx.ev('runs', len(case['runs']))
    ctx.ev('items', nitems)
    ctx.ev('overlapped_runs', len(case['runs']) - 1 if case['overlap'] else 0)
    ctx.ev('stalled_kernels', bool(case['stall']))
    for x in modes:
        ctx.ev('mode_' + x, 1)
    ctx.sig(tuple(modes), tuple(sorted(n['op'] for n in case['nodes'])), case['overlap'])
    if not L.done:
        bad('hang', 'the kernel did not finish in %d cycles' % L.ncyc)
    gotf = {}
    n = 0
    for cyc, e in L.ev:
        if e[0] == 'M':
            k, i, v = int(e[1]), int(e[2]), num(e[3])
            exp = M[k][i]
            n += 1
            if isinstance(exp, tuple) and exp[0] is None:
                continue
            if v is None or not same(v, exp):
                s = 'untouched' if not isinstance(exp, tuple) else 'sink'
                bad('ram:' + s, 'ram %s word %d: got %s, expected %s' % ('ab'[k], i, e[3], exp))
        elif e[0] == 'F':
            gotf.setdefault('o' + e[1], []).append(num(e[2]))
        elif e[0] == 'I':
            exp = imm.get((int(e[1]), 'o' + e[2]))
            if exp is not None and exp[0] is not None and (num(e[3]) is None or not same(num(e[3]), exp)):
                bad('immediate', 'run %s sink o%s: read_sink gave %s, expected %s' % (e[1], e[2], e[3], exp))
            n += 1
    if n < 2 * NW:
        bad('log', 'only %d words were read back' % n)
    for k, w in fifo.items():
        g = gotf.get(k, [])
        if len(g) != len(w):
            bad('fifo', 'sink %s put %d items into its FIFO, expected %d' % (k, len(g), len(w)))
        for x, y in zip(g, w):
            n += 1
            if y[0] is not None and (x is None or not same(x, y)):
                bad('fifo', 'sink %s: FIFO items %s, expected %s' % (k, g, w))
    ctx.ev('words_checked', n)
    ctx.sample = {'modes': modes, 'ops': sorted(set(x['op'] for x in case['nodes'])), 'runs': len(case['runs']), 'items': nitems}
