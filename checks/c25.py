"""C25: multiplier, multiply-adder and divider cores and the skid buffer: port traces under random enable/back-pressure, judged by
Python integers / a queue."""
import random
import veriloggen
from veriloggen import Module
import veriloggen.types.mul as tmul
import veriloggen.stream.mul as smul
import veriloggen.stream.madd as smadd
import veriloggen.stream.div as sdiv
import veriloggen.dataflow.mul as dmul
import veriloggen.dataflow.div as ddiv
from veriloggen.types.skidbuffer import SkidBuffer, make_skidbuffer
from vlib.harness import Violation, Inconclusive
from vlib.trace import trace, b2i

PID = 'C25'
RULE = ('a case is one core (the three multipliers, multiply-adder, both dividers, skid buffer) with random operand widths, signs and '
        'depth under a random update/enable/reset or valid/ready history with random and boundary operands; every cycle of the '
        'outputs is compared with Python integers delayed by the declared latency in enabled cycles; distinct = configuration')
ASSUMPTIONS = ['products and sums wrap at the declared result width; division by zero is unspecified; both divider operands have the '
               'same signedness', 'iverilog simulates the emitted Verilog faithfully']
MIN_EVENTS = {'products': 2000, 'sums': 500, 'quotients': 1500, 'stalls': 3000, 'skid_words': 800, 'skid_held': 500, 'valids': 1500}


def counts(tier):
    return 150 if tier == 'quick' else 2500


def gen(rng, i, tier):
    k = rng.choice(['tmul', 'tmul', 'smul', 'dmul', 'madd', 'madd', 'sdiv', 'sdiv', 'ddiv', 'skid', 'skid'])
    W = lambda: rng.choice([1, 2, 3, 4, 7, 8, 8, 16, 17, 31, 32, 33, 40, 64])
    c = {'kind': k, 'seed': rng.getrandbits(32), 'n': rng.randint(60, 160), 'lw': W(), 'rw': W(), 'cw': W(),
         'ls': rng.random() < .5, 'rs': rng.random() < .5, 'cs': rng.random() < .5, 'depth': rng.choice([2, 2, 3, 4, 5, 6, 6, 7, 9]),
         'rst': rng.choice([0, 0, 1, 2])}
    if k == 'tmul':
        c['upd'], c['en'] = rng.random() < .7, rng.random() < .7
        c['iw'] = [W(), W()] if rng.random() < .3 else None
        c['is'] = [rng.random() < .5, rng.random() < .5]
    if k in ('sdiv', 'ddiv'):
        c['lw'] = rng.choice([2, 3, 4, 5, 7, 8, 8, 13, 16, 32, 33])
        c['n'] += 3 * c['lw']
    if k == 'skid':
        c['vals'] = [[rng.choice([None, 1, 1, 2, 5, 8, 16, 32, 33, 64]), rng.random() < .4] for _ in range(rng.choice([1, 1, 2, 3, 5]))]
        c['low'] = rng.random() < .3
        c['pre'] = rng.random() < .5
    return c


def directed():
    D = []
    for k in ('tmul', 'smul', 'dmul', 'madd', 'sdiv', 'ddiv'):
        for ls in (True, False):
            for rs in (True, False):
                D.append({'kind': k, 'seed': 7, 'n': 120, 'lw': 4, 'rw': 3, 'cw': 9, 'ls': ls, 'rs': rs, 'cs': rs, 'depth': 3, 'rst': 1,
                          'upd': True, 'en': True, 'iw': None, 'is': [ls, rs]})
    D.append({'kind': 'skid', 'seed': 3, 'n': 200, 'vals': [[8, False]], 'low': True, 'pre': False, 'rst': 1})
    return D


def sgn(v, w, s):
    return v - (1 << w) if s and v >> (w - 1) & 1 else v


def pick(rng, w):
    return rng.choice([0, 1, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1] + [rng.getrandbits(w)] * 5) & ((1 << w) - 1)


def rates(rng, n, choices=(0, .1, .5, .9, 1, 1)):
    out = []
    while len(out) < n:
        p = rng.choice(choices)
        out += [1 if rng.random() < p else 0 for _ in range(rng.randint(2, 30))]
    return out[:n]


def run(case, ctx):
    veriloggen.reset()
    ctx.sample = dict(case)
    if case['kind'] == 'skid':
        return skid(case, ctx)
    rng = random.Random(case['seed'])
    k, n = case['kind'], case['n']
    lw, rw, ls, rs, depth = case['lw'], case['rw'], case['ls'], case['rs'], case['depth']
    ops = [('a', lw), ('b', rw)]
    has_upd, has_en, has_rst = True, False, False
    outs = []
    if k == 'tmul':
        has_upd, has_en, has_rst = case['upd'], case['en'], True
        m = Module('top')
        clk, rst = m.Input('CLK'), m.Input('RST')
        iw = case['iw'] or [lw, rw]
        if not case['iw']:
            case = dict(case, **{'is': [ls, rs]})
        a = m.Input('a', iw[0], signed=case['is'][0])
        b = m.Input('b', iw[1], signed=case['is'][1])
        u = m.Input('update') if has_upd else None
        e = m.Input('enable') if has_en else None
        kw = {'lwidth': lw, 'rwidth': rw} if case['iw'] else {}
        mu = tmul.Multiplier(m, 'mu', clk, rst, a, b, enable=e, update=u, lsigned=ls, rsigned=rs, depth=depth, **kw)
        c = m.Output('c', lw + rw)
        c.assign(mu.value)
        if has_en:
            v = m.Output('valid')
            v.assign(mu.valid)
        ops = [('a', iw[0]), ('b', iw[1])]
        code, top = m.to_verilog(), 'top'

        def conv(v, i, s, w):
            return sgn(sgn(v, iw[i], case['is'][i]) & ((1 << w) - 1), w, s)
        f = lambda s: {'c': conv(s['a'], 0, ls, lw) * conv(s['b'], 1, rs, rw)}
        outs = [('c', lw + rw)]
        lat = depth
    elif k in ('smul', 'dmul'):
        m = (smul.get_mul if k == 'smul' else dmul.get_mul)(lw, rw, ls, rs, depth)
        code, top = m.to_verilog(), m.name
        has_en = has_rst = k == 'dmul'
        f = lambda s: {'c': sgn(s['a'], lw, ls) * sgn(s['b'], rw, rs)}
        outs = [('c', lw + rw)]
        lat = depth
    elif k == 'madd':
        cw, cs = case['cw'], case['cs']
        m = smadd.get_madd(lw, rw, cw, ls, rs, cs, depth)
        code, top = m.to_verilog(), m.name
        ops = ops + [('c', cw)]
        f = lambda s: {'d': sgn(s['a'], lw, ls) * sgn(s['b'], rw, rs) + sgn(s['c'], cw, cs)}
        outs = [('d', max(lw + rw, cw))]
        lat = depth
    else:
        W = lw
        signed = ls or k == 'ddiv'
        d = sdiv.get_div() if k == 'sdiv' else ddiv.get_div()
        m = Module('top')
        pts = [m.Input(x, w) for x, w in [('CLK', None), ('RST', None), ('in_a', W), ('in_b', W), ('update', None), ('enable', None)]] + \
            [m.Output(x, w) for x, w in [('rslt', W), ('mod', W), ('valid', None)]]
        par = [('W_D', W)]
        if k == 'sdiv':
            par += [(x, 1 if signed else 0) for x in ('A_SIGNED', 'B_SIGNED', 'O_SIGNED')]
        m.Instance(d, 'd', params=par, ports=[(p.name, p) for p in pts])
        code, top = m.to_verilog(), 'top'
        ops = [('in_a', W), ('in_b', W)]
        has_en = has_rst = True

        def f(s):
            x, y = sgn(s['in_a'], W, signed), sgn(s['in_b'], W, signed)
            if y == 0:
                return {}
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return {'rslt': q, 'mod': x - q * y}
        outs = [('rslt', W), ('mod', W)]
        lat = W + 2
    upd = rates(rng, n) if has_upd else [1] * n
    en = rates(rng, n) if has_en else [0] * n
    rsts = set(range(2)) | set(rng.randrange(2, n) for _ in range(case['rst'])) if has_rst else set()
    st = []
    for c in range(n):
        s = {x: pick(rng, w) for x, w in ops}
        if case['lw'] <= 4 and case['rw'] <= 4 and k not in ('sdiv', 'ddiv'):
            s = {x: rng.getrandbits(w) for x, w in ops}
        if k in ('sdiv', 'ddiv') and rng.random() < .6:
            s['in_b'] = rng.randint(1, min(15, (1 << lw) - 1)) if rng.random() < .5 else ((-rng.randint(1, 9)) & ((1 << lw) - 1))
        s.update(update=upd[c], enable=en[c], RST=1 if c in rsts else 0)
        st.append(s)
    ins = list(ops) + ([('RST', 1)] if has_rst or k == 'tmul' else []) + ([('update', 1)] if has_upd else []) + ([('enable', 1)] if has_en else [])
    outl = outs + ([('valid', 1)] if has_en else [])
    rows, _ = trace(code, top, ins, outl, st, ctx)
    hist, vch = [], [0] * lat
    for c, (r, s) in enumerate(zip(rows, st)):
        if len(hist) >= lat:
            exp = f(hist[-lat])
            for x, w in outs:
                if x in exp:
                    want = exp[x] & ((1 << w) - 1)
                    if b2i(r[x]) != want:
                        raise Violation('value:' + k, 'cycle %d: %s = %s, expected %d for operands %s (%d enabled cycles earlier)' % (
                            c, x, r[x], want, {y: hist[-lat][y] for y, _ in ops}, lat), code=code)
            if exp:
                ctx.ev({'madd': 'sums', 'sdiv': 'quotients', 'ddiv': 'quotients'}.get(k, 'products'))
        if has_en and c > 1:
            if r['valid'] != str(vch[-1]):
                raise Violation('valid:' + k, 'cycle %d: valid = %s, expected %d' % (c, r['valid'], vch[-1]), code=code)
            ctx.ev('valids', vch[-1])
        if s['RST'] and has_en:
            vch = [0] * lat
        elif s['update']:
            vch = [s['enable']] + vch[:-1]
        if s['update']:
            if not (k in ('sdiv', 'ddiv') and s['RST']):
                hist.append(s)
            else:
                # the sign flags are cleared by reset while data advance: what passes through is not specified
                hist = [dict.fromkeys([x for x, _ in ops], 0) for _ in range(len(hist) + 1)]
        else:
            ctx.ev('stalls')
            if k in ('sdiv', 'ddiv') and s['RST']:
                hist = [dict.fromkeys([x for x, _ in ops], 0) for _ in hist]
    ctx.sig(k, lw, rw, ls, rs, depth, case.get('cw') if k == 'madd' else 0, has_upd, has_en)
    ctx.evaluations += len(rows)


def skid(case, ctx):
    rng = random.Random(case['seed'])
    n = case['n']
    m = Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    sv, mr = m.Input('s_valid'), m.Input('m_ready')
    vals = case['vals']
    xs = [m.Input('x%d' % i, w, signed=s) for i, (w, s) in enumerate(vals)]
    kw = {'prefix': 'pre'} if case['pre'] else {}
    ws = [w or 1 for w, _ in vals]
    if case['low'] and len(xs) == 1:
        data, valid, ready = make_skidbuffer(m, clk, rst, xs[0], sv, mr, **kw)
        ys = [data]
    else:
        sb = SkidBuffer(m, clk, rst, sv, mr, *xs, **kw)
        valid, ready = sb.valid, sb.ready
        ys = [sb[i] for i in range(len(xs))]
    for i, y in enumerate(ys):
        m.Output('y%d' % i, vals[i][0]).assign(y)
    m.Output('m_valid').assign(valid)
    m.Output('s_ready').assign(ready)
    code = m.to_verilog()
    vs, ms = rates(rng, n), rates(rng, n)
    rsts = {0, 1} | set(rng.randrange(2, n) for _ in range(case['rst']))
    st = []
    for c in range(n):
        s = {'x%d' % i: rng.getrandbits(w) for i, w in enumerate(ws)}
        s.update(s_valid=vs[c], m_ready=ms[c], RST=1 if c in rsts else 0)
        st.append(s)
    rows, _ = trace(code, 'top', [('x%d' % i, w) for i, w in enumerate(ws)] + [('s_valid', 1), ('m_ready', 1), ('RST', 1)],
                    [('y%d' % i, w) for i, w in enumerate(ws)] + [('m_valid', 1), ('s_ready', 1)], st, ctx)

    def bad(mech, msg):
        raise Violation(mech, msg, code=code)
    q = []
    moved = False      # the last cycle was one with m_ready or an empty output
    for c, (r, s) in enumerate(zip(rows, st)):
        if c < 2:
            continue
        if r['m_valid'] not in '01' or r['s_ready'] not in '01':
            bad('skid:x', 'cycle %d: valid %s ready %s' % (c, r['m_valid'], r['s_ready']))
        v, rd = r['m_valid'] == '1', r['s_ready'] == '1'
        if v != bool(q):
            bad('skid:valid', 'cycle %d: valid = %d with %d words inside' % (c, v, len(q)))
        if rd != (len(q) < 2):
            bad('skid:ready', 'cycle %d: ready = %d with %d words inside' % (c, rd, len(q)))
        if v:
            got = tuple(b2i(r['y%d' % i]) for i in range(len(ws)))
            if got != q[0]:
                bad('skid:data', 'cycle %d: %s, expected %s' % (c, got, q[0]))
            if not s['m_ready']:
                ctx.ev('skid_held')
        if s['RST']:
            q = []
            continue
        if s['s_valid'] and rd:
            q.append(tuple(s['x%d' % i] for i in range(len(ws))))
        if v and s['m_ready']:
            q.pop(0)
            ctx.ev('skid_words')
    ctx.sig('skid', tuple(map(tuple, vals)), case['low'])
    ctx.evaluations += len(rows)
