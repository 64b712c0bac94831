"""C07: Seq."""
import itertools
import random
from vlib.harness import Violation, Inconclusive
from vlib import vexpr, vstmt
from vlib.trace import trace, b2i

PID = 'C07'
RULE = ('random sequences (If/Elif/Else chains, Then, nested If, Delay, Keep, LazyCond, EagerVal, Prev with and without '
        'condition, Case/If statements, bit/slice/array/concat targets, several merged sequences, as_module) run 40-80 '
        'cycles with random inputs and reset pulses; every register is compared every cycle with an event-queue '
        'interpreter; distinct by (feature set, cycle outcome of each assignment)')
ASSUMPTIONS = ['Icarus Verilog', 'an assignment issued d cycles ago is ordered before one issued later; ties in program order',
               'a delayed lazily-conditioned assignment is armed d cycles after reset']
MIN_EVENTS = {'reg_compares': 5000, 'delayed_fires': 200, 'resets': 30, 'prev_refs': 20, 'as_module': 5}

WID = [1, 1, 2, 3, 4, 8, 8, 16, 17, 32]


def counts(tier):
    return 110 if tier == 'quick' else 5000


def eager_lhs(rng, g, whole):
    """target of an assignment with a captured value: a register, constant parts of registers or a concatenation of those"""
    def part(n):
        w, x = g.env[n][0], rng.random()
        if whole or w == 1 or x < .6:
            return ['var', n]
        a = rng.randrange(w)
        return ['slice', n, a, rng.randrange(a + 1)] if x < .85 else ['ptr', n, ['int', a]]
    ns = list(g.nvars)
    rng.shuffle(ns)
    if not whole and len(ns) > 1 and rng.random() < .35:
        return ['cat', [part(n) for n in ns[:rng.choice([2, 2, 3])]]]
    return part(ns[0])


def has_target(x, n):
    if isinstance(x, dict):
        return any(has_target(y, n) for y in x.values())
    if isinstance(x, (list, tuple)):
        if len(x) == 4 and x[0] == 'as' and _lhs_has(x[1], n):
            return True
        return any(has_target(y, n) for y in x)
    return False


def _lhs_has(l, n):
    if l[0] == 'cat':
        return any(_lhs_has(y, n) for y in l[1])
    return l[0] == 'var' and l[1] == n


class Gen(vstmt.GenS):
    GEN = vexpr.SimpleGen
    PLAIN = True

    def lhs(self, blk):
        l = vstmt.GenS.lhs(self, blk)
        if l[0] == 'cat':
            # the reset value of a concatenated bit with a signal index can not be named
            l[1] = [['ptr', x[1], ['int', self.r.randrange(self.env[x[1]][0])]] if x[0] == 'ptr' else x for x in l[1]]
        return l


def gen(rng, i, tier):
    as_module = rng.random() < 0.2
    def shape():
        w = rng.choice(WID)
        return w, w > 1 and rng.random() < 0.3
    inputs = {'i%d' % k: shape() for k in range(rng.randrange(2, 5))}
    nv = {'n%d' % k: shape() for k in range(rng.randrange(2, 5))}
    arrays = {}
    if rng.random() < 0.35:
        arrays['mn'] = (rng.choice([4, 8]), rng.random() < 0.3, [rng.choice([2, 4])] if as_module else rng.choice([[4], [2, 3]]))
    env = dict(inputs)
    env.update(nv)
    prevs = []
    tabs = {}
    if rng.random() < 0.4:
        for k in range(rng.randrange(1, 3)):
            tabs['tab%d' % k] = (rng.choice([2, 4, 8]), rng.random() < 0.3, rng.choice([[4], [8], [2, 3], [3, 2], [2, 2, 2]]))
    g0 = Gen(rng, dict(env), dict(tabs), [], [], [], [], [], [])
    g0.G.nosel = ()
    for k in range(rng.choice([0, 0, 1, 2, 3])):
        e = ['var', rng.choice(sorted(env))]
        uns = [n for n in sorted(env) if not env[n][1]]
        if rng.random() < 0.4 and uns:      # operators whose width is the same in every context
            e, e2 = ['var', rng.choice(uns)], ['var', rng.choice(uns)]
            e = rng.choice([['bin', '&', e, e2], ['bin', '^', e, e2], ['bin', '==', e, e2], ['cat', [e, e2]], ['bin', '<', e, e2],
                            ['un', '~', e], ['mux', e2, e, e]])
        w, s = vexpr.Eval(env, tabs).ss(e)
        cond = g0.nonconst(1) if rng.random() < 0.4 else None
        prevs.append({'name': 'p%d' % k, 'expr': e, 'delay': rng.randrange(1, 4), 'initval': rng.choice([0, 0, 1]) if w > 0 else 0,
                      'cond': cond, 'w': w, 's': s})
    penv = dict(env)
    for p in prevs:
        penv[p['name']] = (p['w'], p['s'])
    # array cells are not reset, so they are written only (an unwritten cell is x)
    g = Gen(rng, penv, dict(tabs), [], sorted(nv), [], [], [], [])
    g.arrays = dict(tabs, **arrays)
    g.narr = [] if as_module else sorted(arrays)
    g.funcs = None
    g.G.nosel = [p['name'] for p in prevs if p['expr'][0] != 'var']   # their width is a parameter
    nseq = rng.choice([1, 1, 1, 2, 2])

    merge = nseq > 1 and not as_module and rng.random() < 0.7
    allnv = sorted(nv)
    mine = [allnv if merge else allnv[k::nseq] for k in range(nseq)]    # one driver per register
    if as_module:
        g.lhs = lambda blk: ['var', rng.choice(g.nvars)]
        g.lhs1 = g.lhs
    cur = [0]

    def pick():
        cur[0] = rng.randrange(nseq)
        g.nvars = mine[cur[0]]
        g.narr = [] if as_module or cur[0] else sorted(arrays)
        return cur[0]

    def opts():
        o = {}
        if rng.random() < (0.6 if merge else 0.35):
            o['delay'] = rng.randrange(1, 3 if merge else 5)
        if rng.random() < 0.15:
            o['keep'] = rng.randrange(1, 4)
        if o.get('delay') and rng.random() < 0.3:
            o['lazy_cond'] = True
        if (o.get('delay') or o.get('keep')) and rng.random() < 0.35:
            o['eager_val'] = True
        return o

    def stmts(o):
        if o.get('eager_val'):
            return [['as', eager_lhs(rng, g, as_module), g.expr(2), False] for _ in range(rng.randrange(1, 3))]
        return g.stmts(rng.choice([0, 0, 1, 2]), rng.randrange(1, 3))
    items = []
    for k in range(rng.randrange(2, 7)):
        x = rng.random()
        pick()
        if x < 0.3:
            o = opts()
            items.append({'k': 'plain', 'seq': cur[0], 'o': o, 'b': stmts(o)})
        elif x < 0.5:
            o = opts()
            it = {'k': 'cond', 'seq': cur[0], 'c': [g.nonconst(2) for _ in range(rng.choice([1, 1, 2]))], 'o': o,
                  'b': stmts(o), 'style': rng.randrange(3), 'then': None}
            if rng.random() < 0.3 and it['style'] != 2:
                o2 = opts()
                it['then'] = [o2, stmts(o2)]
            items.append(it)
        else:
            br = []
            for _ in range(rng.randrange(1, 4)):
                o = opts() if rng.random() < 0.5 else {}
                br.append([g.nonconst(2), o, stmts(o)])
                if rng.random() < 0.2:
                    o = opts() if rng.random() < 0.5 else {}
                    br[-1].append([o, stmts(o)])      # Then() in the middle of a chain
            o = opts() if rng.random() < 0.5 else {}
            items.append({'k': 'chain', 'seq': cur[0], 'br': br, 'els': [o, stmts(o)] if rng.random() < 0.7 else None})
    # a Seq resets what it assigns: every register is assigned somewhere
    miss = [n for n in sorted(nv) if not has_target(items, n)]
    for k in range(nseq):
        ms = [n for n in miss if n in mine[k]]
        miss = [n for n in miss if n not in ms]
        if not ms:
            continue
        items.append({'k': 'cond', 'seq': k, 'c': [g.nonconst(1)], 'o': {}, 'b': [['as', ['var', n], g.expr(2), False] for n in ms],
                      'style': 0, 'then': None})
    if nseq > 1:
        for it in items:     # capture registers of one target have one name per Seq
            for o in [it.get('o')] + ([it['then'][0]] if it.get('then') else []) + [b[1] for b in it.get('br', [])] + [b[3][0] for b in it.get('br', []) if len(b) > 3] + (
                    [it['els'][0]] if it.get('els') else []):
                if o:
                    o.pop('eager_val', None)
    rstm = 'none' if (not as_module and rng.random() < 0.1) else rng.choice(['once', 'pulses'])
    return {'as_module': as_module, 'inputs': inputs, 'nv': nv, 'arrays': arrays, 'tabs': tabs, 'prevs': prevs, 'items': items, 'nseq': nseq,
            'merge': merge, 'rst': rstm, 'seed': rng.getrandbits(32),
            'cycles': rng.choice([40, 80])}


def directed():
    """each chain/option combination in isolation"""
    out = []
    inp = {'i0': (1, False), 'i1': (1, False), 'i2': (8, False)}
    nv = {'n0': (8, False), 'n1': (8, False), 'n2': (8, False)}
    A, B, X = ['var', 'i0'], ['var', 'i1'], ['var', 'i2']
    as_ = lambda n, e: [['as', ['var', n], e, False]]
    inc = lambda n: ['bin', '+', ['var', n], ['lit', 1, 8, 10, False]]
    for o1 in ({}, {'delay': 2}, {'keep': 2}, {'delay': 1, 'keep': 2}, {'delay': 2, 'eager_val': True}, {'delay': 2, 'lazy_cond': True},
               {'delay': 2, 'eager_val': True, 'lazy_cond': True}):
        for o2 in ({}, {'delay': 1}, {'keep': 2}):
            for c in (A, X):
                out.append({'as_module': False, 'inputs': inp, 'nv': nv, 'arrays': {}, 'prevs': [], 'nseq': 1, 'merge': False,
                            'rst': 'pulses', 'seed': len(out), 'cycles': 60, 'items': [
                                {'k': 'chain', 'seq': 0, 'br': [[c, o1, as_('n0', X)], [B, o2, as_('n0', inc('n0'))]], 'els': [o1, as_('n1', X)]},
                                {'k': 'plain', 'seq': 0, 'o': {}, 'b': as_('n2', inc('n2'))}]})
    # previous-value references of one signal with and without a condition
    for cs, iv in [((None, A), (0, 0)), ((A, None), (0, 0)), ((A, B), (0, 0)), ((None, None), (0, 0)), ((None, None), (0, 1)),
                   ((None, None), (1, 0)), ((A, None), (5, 7))]:
        out.append({'as_module': False, 'inputs': inp, 'nv': nv, 'arrays': {}, 'nseq': 1, 'merge': False, 'rst': 'pulses', 'seed': 7,
                    'cycles': 60, 'items': [{'k': 'plain', 'seq': 0, 'o': {}, 'b': as_('n0', ['bin', '+', ['var', 'p0'], ['var', 'p1']]) + as_('n1', inc('n1')) + as_('n2', inc('n2'))}],
                    'prevs': [{'name': 'p%d' % j, 'expr': X, 'delay': 2, 'initval': iv[j], 'cond': c, 'w': 8, 's': False}
                              for j, c in enumerate(cs)]})
    return out


def run(case, ctx):
    import veriloggen as vg
    import veriloggen.core.vtypes as v
    rng = random.Random(case['seed'])
    if not all(has_target(case['items'], n) for n in case['nv']):
        raise Inconclusive('malformed case')
    st = random.Random(case['seed'] + 1)
    style = lambda: st.random() < 0.5
    T = lambda d: {k: (x[0], bool(x[1])) for k, x in d.items()}
    inputs, nv = T(case['inputs']), T(case['nv'])
    arrays = {k: (x[0], bool(x[1]), tuple(x[2])) for k, x in case['arrays'].items()}
    initv = {n: (rng.getrandbits(nv[n][0]) if rng.random() < 0.7 else 0) for n in sorted(nv)}
    m = vg.Module('dut')
    clk = m.Input('CLK')
    rst = m.Input('RST') if case['rst'] != 'none' else None
    sig = {}
    for n, (w, s) in sorted(inputs.items()):
        sig[n] = m.Input(n, w, signed=s) if w > 1 or s else m.Input(n)
    for n, (w, s) in sorted(nv.items()):
        iv = initv[n]
        if s and iv >> (w - 1) and style():
            iv -= 1 << w
        sig[n] = m.Reg(n, w, signed=s, initval=iv) if w > 1 or s else m.Reg(n, initval=iv)
    for n, (w, s, dims) in sorted(arrays.items()):
        sig[n] = m.Reg(n, w, dims=dims[0] if len(dims) == 1 else dims, signed=s)
    tabs = {k: (x[0], bool(x[1]), tuple(x[2])) for k, x in case.get('tabs', {}).items()}
    tabv = {}
    for n, (w, s, dims) in sorted(tabs.items()):
        sig[n] = m.Reg(n, w, dims=dims[0] if len(dims) == 1 else dims, signed=s)
        tabv[n] = []
        init = []
        for idx in itertools.product(*[range(d) for d in dims]):
            tabv[n].append(rng.getrandbits(w))
            x = sig[n]
            for j in idx:
                x = x[j]
            init.append(x(v.Int(tabv[n][-1], width=w, base=16)))
        m.Initial(*init)
    arrays.update(tabs)
    seqs = [vg.Seq(m, 'seq%d' % k, clk, rst, as_module=case['as_module']) for k in range(case['nseq'])]
    E = lambda e: vexpr.build(e, sig, v, lambda n: style())
    for p in case['prevs']:
        kw = {}
        if p['cond'] is not None:
            kw['cond'] = E(p['cond'])
        sig[p['name']] = seqs[0].Prev(E(p['expr']), p['delay'], initval=p['initval'], **kw)

    env = dict(inputs)
    env.update(nv)
    for p in case['prevs']:
        env[p['name']] = (p['w'], p['s'])
    B = lambda b: vstmt.build(b, sig, vg, v, style)

    def apply(s, o, b):
        t = s
        order = list(o.items())
        st.shuffle(order)
        kw = {}
        for k, val in order:
            if style():
                t = {'delay': t.Delay, 'keep': t.Keep, 'lazy_cond': t.LazyCond, 'eager_val': t.EagerVal}[k](val)
            else:
                kw[k] = val
        body = B(b)
        if style():
            t(*body, **kw)
        else:
            t.add(*body, **kw)

    entries = [[] for _ in seqs]     # (delay, condexpr or None, body, lazy, eager)

    def entry(k, o, cond, b):
        d0, kp = o.get('delay', 0) or 0, o.get('keep')
        for j in range(kp if kp is not None else 1):
            entries[k].append((d0 + j, cond, b, bool(o.get('lazy_cond')), bool(o.get('eager_val'))))

    def conj(cs):
        return ['andor', '&&', cs] if len(cs) > 1 else cs[0]
    for it in case['items']:
        s = seqs[it['seq']]
        if it['k'] == 'plain':
            apply(s, it['o'], it['b'])
            entry(it['seq'], it['o'], None, it['b'])
        elif it['k'] == 'cond':
            cs = [E(c) for c in it['c']]
            if it['style'] == 0:
                apply(s.If(*cs), it['o'], it['b'])
            elif it['style'] == 1:
                t = s
                for c in cs:
                    t = t.If(c)
                apply(t, it['o'], it['b'])
            else:
                kw = dict(it['o'])
                s.add(*B(it['b']), cond=cs if len(cs) > 1 else cs[0], **kw)
            entry(it['seq'], it['o'], conj(it['c']), it['b'])
            if it['then'] and it['style'] != 2:
                apply(s.Then(), it['then'][0], it['then'][1])
                entry(it['seq'], it['then'][0], conj(it['c']), it['then'][1])
        else:
            neg = []
            for j, (c, o, b, *then) in enumerate(it['br']):
                t = s.If(E(c)) if j == 0 else s.Elif(E(c))
                apply(t, o, b)
                entry(it['seq'], o, conj(neg + [c]), b)
                if then:
                    apply(s.Then(), then[0][0], then[0][1])
                    entry(it['seq'], then[0][0], conj(neg + [c]), then[0][1])
                neg = neg + [['un', '!', c]]
            if it['els'] is not None:
                apply(s.Else, it['els'][0], it['els'][1])
                entry(it['seq'], it['els'][0], conj(neg), it['els'][1])
    if case['merge']:
        seqs[0].update(seqs[1])
        entries = [entries[0] + entries[1]]
    if rst is None:
        m.Initial(*m.make_reset())
    code = m.to_verilog()

    # stimulus
    n = case['cycles']
    stim = []
    for t in range(n):
        s = {}
        if rst is not None:
            s['RST'] = int(t < 2 or case['rst'] == 'pulses' and rng.random() < 0.04)
        for k, (w, sg) in sorted(inputs.items()):
            s[k] = rng.choice([rng.getrandbits(w), rng.getrandbits(w), rng.getrandbits(min(w, 2)), 0])
        stim.append(s)
    peeks = [(k, k) for k in sorted(nv)]
    cells = []
    for k, (w, s, dims) in sorted(arrays.items()):
        if k in tabs:
            continue
        t = 1
        for d in dims:
            t *= d
        for x in range(t):
            idx, y = [], x
            for d in reversed(dims):
                idx.insert(0, y % d)
                y //= d
            cells.append((k, x))
            peeks.append(('%s_%d' % (k, x), k + ''.join('[%d]' % q for q in idx)))
    ins = ([('RST', 1)] if rst is not None else []) + [(k, inputs[k][0]) for k in sorted(inputs)]
    rows, _ = trace(code, 'dut', ins, [], stim, ctx, peeks=peeks)

    # reference
    ev = vexpr.Eval(env, arrays)
    vals = {k: 0 for k in env}
    I = vstmt.Interp(env, arrays)
    for k, (w, s, dims) in arrays.items():
        t = 1
        for d in dims:
            t *= d
        vals[k] = list(tabv[k]) if k in tabs else [None] * t

    class Cells(list):
        pass
    known = rst is None

    def do_reset():
        for k in nv:
            vals[k] = initv[k]
        for p in case['prevs']:
            p['pipe'] = [p['initval'] & vexpr.mask(p['w'])] * p['delay']
            vals[p['name']] = p['pipe'][-1]
        hist.clear()
    hist = {}
    if known:
        do_reset()
    since = 0
    for t, s in enumerate(stim):
        for k in inputs:
            vals[k] = s[k]
        if known:
            for k in sorted(nv):
                got = b2i(rows[t][k])
                if got != vals[k]:
                    raise Violation('register', 'cycle %d register %s: specified %s, design has %s\nitems: %r\nprevs: %r' %
                                    (t, k, bin(vals[k]), rows[t][k], case['items'], case['prevs']), code=code,
                                    trace='\n'.join('%d in=%s got=%s' % (q, stim[q], rows[q]) for q in range(max(0, t - 5), t + 1)))
                ctx.ev('reg_compares')
            for k, x in cells:
                e = vals[k][x]
                if e is not None and b2i(rows[t]['%s_%d' % (k, x)]) != e:
                    raise Violation('array', 'cycle %d word %s[%d]: specified %s, design has %s' % (t, k, x, bin(e), rows[t]['%s_%d' % (k, x)]), code=code)
                ctx.ev('reg_compares')
        if s.get('RST'):
            do_reset()
            known = True
            since = 0
            ctx.ev('resets')
            continue
        nxt = {}
        # conditions and captured values of this cycle
        newhist = {}
        fires = []
        for q, es in enumerate(entries):
            for x, (d, c, b, lazy, eager) in enumerate(es):
                now = True if c is None else ev.truth(c, vals)
                newhist[q, x] = (now, [ev.assign(a[2], I.lhs_width(a[1]), vals) for a in b] if eager else None)
                h = hist.get((q, x), [])
                old = h[-d] if d and len(h) >= d else None
                if d == 0:
                    go = now
                elif lazy:
                    go = now and old is not None
                else:
                    go = old is not None and old[0]
                if go:
                    body = b
                    if eager and d:
                        body = [['as', a[1], ['const', val, I.lhs_width(a[1])], False] for a, val in zip(b, old[1])]
                    fires.append((q, -d, x, body))
                    if d:
                        ctx.ev('delayed_fires')
                ctx.sig(case['seed'], q, x, d, lazy, eager, go)
        # value capture before any enabled issue: registers of the capture pipeline start at 0
        nb = []
        for q, md, x, body in sorted(fires, key=lambda f: f[:3]):
            for a in body:
                if a[0] == 'as' and a[2][0] == 'const':
                    nb.append((I.resolve(a[1], vals), a[2][1]))
                else:
                    I.stmt(a, vals, nb, (q, x))
        I.steps = 0
        newp = []
        for p in case['prevs']:
            val = ev.assign(p['expr'], p['w'], vals)
            if p['cond'] is None or ev.truth(p['cond'], vals):
                p['pipe'] = [val] + p['pipe'][:-1]
            newp.append((p['name'], p['pipe'][-1]))
            ctx.ev('prev_refs')
        for parts, val in nb:
            for name, idx, low, w in parts:
                part = val & vexpr.mask(w)
                val >>= w
                if idx is None:
                    vals[name] = vals[name] & ~(vexpr.mask(w) << low) | part << low
                elif w == arrays[name][0]:
                    vals[name][idx] = part
                elif vals[name][idx] is not None:
                    vals[name][idx] = vals[name][idx] & ~(vexpr.mask(w) << low) | part << low
        for k, val in newp:
            vals[k] = val
        for k, val in newhist.items():
            hist.setdefault(k, []).append(val)
            del hist[k][:-12]
    if case['as_module']:
        ctx.ev('as_module')
    ctx.evaluations = n
    ctx.sample = {'items': repr(case['items'])[:400], 'row': rows[5]}
