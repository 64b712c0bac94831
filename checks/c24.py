"""C24: hand-built pipelines (veriloggen.Pipeline). Random stage graphs under valid/ready histories; every delivered item is compared with the
value the stage expressions define for the accepted items."""
import random
import veriloggen
from veriloggen import Module, Pipeline
import veriloggen as v
import veriloggen.core.vtypes as vt
from vlib import vexpr
from vlib.harness import Violation, Inconclusive
from vlib.elastic import drive
from vlib.trace import trace, b2i

PID = 'C24'
RULE = ('a case is a random stage graph (expressions over variables of different stages, constant module signals, accumulators, previous '
        'values, several outputs) without handshake, with valid, or with valid and ready, driven by gappy producers and stalling consumers with '
        'resets in between; every delivered item of every output is compared with an item-indexed model; distinct = graph')
ASSUMPTIONS = ['iverilog simulates the emitted Verilog faithfully', 'values are unsigned; producers keep valid and data until accepted',
               'all inputs of a pipeline use the same handshake form; without ready all inputs are valid together',
               'an accumulator is cleared by its reset condition only while no item is in flight']
MIN_EVENTS = {'accepted': 3000, 'delivered': 4000, 'output_stalls': 2000, 'input_stalls': 2000, 'free_cycles': 500, 'acc_items': 1000, 'prev_items': 500}


def counts(tier):
    return 160 if tier == 'quick' else 4000


OPS = {'and': ['&'], 'or': ['|'], 'xor': ['^'], 'add': ['+'], 'sub': ['-'], 'mul': ['*'], 'nand': ['&', '~'], 'nor': ['|', '~'], 'xnor': ['^', '~']}


class G(vexpr.SimpleGen):
    """selects take signals only, not pipeline variables"""

    def _expr(self, d):
        while True:
            e = super()._expr(d)
            if e[0] not in ('ptr', 'slice'):
                return e


def gen(rng, i, tier):
    mode = rng.choice(['none', 'valid', 'elastic', 'elastic', 'elastic'])
    dw = rng.choice([32, 32, 32, 16, 8])
    clr = rng.random() < .3
    ins = [['x%d' % k, rng.choice([1, 4, 8, 8, 12, 16, 32])] for k in range(1 if clr else rng.choice([1, 1, 2, 2, 3]))]
    env = {n: w for n, w in ins}
    ks = [['k%d' % k, rng.choice([1, 4, 8])] for k in range(rng.choice([0, 0, 1, 2]))]
    nodes = []
    for k in range(rng.randint(1, 7)):
        n = 's%d' % k
        names = sorted(env)
        g = G(rng, {a: (w, False) for a, w in list(env.items()) + [tuple(q) for q in ks]}, maxw=60)
        x = rng.random()
        iv = rng.choice([0, 0, 1, 5])
        if x < .62 or mode == 'none' and x < .85:
            e = g.expr(rng.choice([1, 2, 2, 3]))
            w = rng.choice([None, None, None, 4, 8, 20, 32])
            nodes.append(['stage', n, e, w, iv if mode == 'none' and False else iv])
            env[n] = w or dw
        elif x < .85:
            e = g.expr(rng.choice([0, 1, 2]))
            w = rng.choice([None, None, 8, 16, 32])
            op = rng.choice(['and', 'nand', 'or', 'xor', 'xnor', 'nor', 'add', 'add', 'sub', 'mul', 'max', 'min', 'custom', 'div', 'mod'])
            nodes.append(['acc', n, op, e, w, rng.choice([0, 1, 200]) if op not in ('and', 'nand', 'mul', 'div', 'mod', 'min') else rng.choice([1, 255, 0xffff]), clr and rng.random() < .6])
            env[n] = w or dw
        else:
            s = rng.choice(names)
            nodes.append(['prev', n, s, rng.randint(1, 3), iv])
            env[n] = env[s]
    # names used somewhere
    used = set()

    def walk(t):
        if isinstance(t, list):
            if len(t) > 1 and t[0] in ('var', 'ptr', 'slice') and isinstance(t[1], str):
                used.add(t[1])
            for y in t:
                walk(y)
    for q in nodes:
        walk(q[2] if q[0] == 'stage' else q[3] if q[0] == 'acc' else ['var', q[2]])
    outs = [[q[1], rng.random() < .75] for q in nodes if q[1] not in used or rng.random() < .3]
    return {'mode': mode, 'dw': dw, 'ins': ins, 'ks': [k + [rng.getrandbits(k[1])] for k in ks], 'nodes': nodes, 'outs': outs, 'seed': rng.getrandbits(32),
            'resets': rng.random() < .3, 'style': rng.random() < .5, 'merge': rng.random() < .3}


def directed():
    b = {'dw': 32, 'ins': [['x0', 8]], 'ks': [], 'seed': 1, 'resets': False, 'style': False, 'merge': False}
    D = []
    for mode in ('none', 'valid', 'elastic'):
        D.append(dict(b, mode=mode, nodes=[['stage', 's0', ['un', '~', ['var', 'x0']], None, 0]], outs=[['s0', True]]))
        D.append(dict(b, mode=mode, nodes=[['stage', 's0', ['bin', '+', ['var', 'x0'], ['lit', 1, 8, 10, False]], None, 0], ['stage', 's1', ['bin', '*', ['var', 's0'], ['var', 'x0']], None, 0],
                                           ['stage', 's2', ['bin', '+', ['var', 's1'], ['bin', '+', ['var', 'x0'], ['var', 'x0']]], None, 0]], outs=[['s2', True], ['s0', False]]))
    return D


def model(case, seq, nseg_init=True, clears=()):
    """item-indexed values of every variable; seq: input name -> list of ints; clears: item counts at which clearable accumulators restart"""
    dw = case['dw']
    env = {n: (w, False) for n, w in case['ins']}
    env.update({k: (w, False) for k, w, _ in case['ks']})
    vals = {n: list(s) for n, s in seq.items()}
    kv = {k: x for k, _, x in case['ks']}
    deps = {n: {n} for n, _ in case['ins']}

    def names(t, out):
        if isinstance(t, list):
            if len(t) > 1 and t[0] in ('var', 'ptr', 'slice') and isinstance(t[1], str):
                out.add(t[1])
            for y in t:
                names(y, out)
        return out
    for q in case['nodes']:
        if q[0] == 'prev':
            _, n, s, d, iv = q
            env[n] = env[s]
            m = (1 << env[s][0]) - 1
            vals[n] = ([iv & m] * d + vals[s])[:len(vals[s])]
            continue
        e, w = (q[2], q[3]) if q[0] == 'stage' else (q[3], q[4])
        w = w or dw
        E = vexpr.Eval(dict(env, __acc=(w, False)), {})
        us = [u for u in names(e, set()) if u not in kv]
        ln = min([len(vals[u]) for u in us])
        out = []
        a = q[5] & ((1 << w) - 1) if q[0] == 'acc' else 0
        for t in range(ln):
            cur = {u: vals[u][t] for u in us}
            cur.update(kv)
            if q[0] == 'stage':
                out.append(E.assign(e, w, cur))
                continue
            if q[6] and t in clears:
                a = q[5] & ((1 << w) - 1)
            cur['__acc'] = a
            op = q[2]
            A = ['var', '__acc']
            if op in OPS:
                x = ['bin', OPS[op][0], A, e]
                if len(OPS[op]) > 1:
                    x = ['un', '~', x]
            elif op in ('div', 'mod'):
                x = ['bin', '/' if op == 'div' else '%', A, ['bin', '|', e, ['lit', 1, 1, 2, False]]]
            elif op in ('max', 'min'):
                x = ['mux', ['bin', '>' if op == 'max' else '<', A, e], A, e]
            else:
                x = ['bin', '-', ['bin', '+', A, e], ['lit', 3, 8, 10, False]]
            a = E.assign(x, w, cur)
            out.append(a)
        vals[n := q[1]] = out
        env[n] = (w, False)
    return vals, env


def run(case, ctx):
    veriloggen.reset()
    mode, dw = case['mode'], case['dw']
    rng = random.Random(case['seed'])
    # every stage must depend on an input
    m = Module('dut')
    clk, rst = m.Input('CLK'), m.Input('RST')
    sig = {}
    rc = m.Input('rc')
    for k, w, _ in case['ks']:
        sig[k] = m.Input(k, w)
    p = Pipeline(m, 'p', clk, rst, width=dw)
    pins, pouts = [], []
    for n, w in case['ins']:
        d = m.Input(n, w)
        vl = m.Input(n + '_v') if mode != 'none' else None
        rd = m.Output(n + '_r') if mode == 'elastic' else None
        sig[n] = p.input(d, valid=vl, ready=rd)
        pins.append({'name': n, 'width': w, 'valid': None if vl is None else n + '_v', 'ready': None if rd is None else n + '_r'})
        if mode == 'valid':
            pins[-1]['together'] = case['ins'][0][0]
    srng = random.Random(case['seed'] + 1)
    style = lambda n=None: case['style'] or srng.random() < .5
    ks = {k for k, _, _ in case['ks']}

    def build(e):
        r = vexpr.build(e, sig, v, style)
        return r

    def only_const(e):
        t = str(e)
        return not any("'%s'" % q in t for q in sig if q not in ks)
    for q in case['nodes']:
        e = q[2] if q[0] == 'stage' else q[3] if q[0] == 'acc' else None
        if e is not None and only_const(e):
            # a stage needs an item to belong to
            e = ['bin', '+', e, ['var', case['ins'][0][0]]]
            q[2 if q[0] == 'stage' else 3] = e
        if q[0] == 'stage':
            b = build(e)
            if q[3] is None and q[4] == 0 and style():
                sig[q[1]] = p(b)
            elif style():
                sig[q[1]] = p(b, initval=q[4], width=q[3])
            else:
                sig[q[1]] = p.stage(b, initval=q[4], width=q[3])
        elif q[0] == 'acc':
            b = build(e)
            if q[2] in ('div', 'mod'):
                b = vt.Or(b, vt.Int(1, 1))
            kw = {'initval': q[5], 'width': q[4]}
            if q[6]:
                kw['resetcond'] = rc
            if q[2] == 'custom':
                sig[q[1]] = p.acc_custom(b, lambda l, r: l + r - vt.Int(3, 8), **kw)
            else:
                sig[q[1]] = getattr(p, 'acc_' + q[2])(b, **kw)
        else:
            ivs = case.setdefault('_iv', {})
            iv = ivs.setdefault(q[2], q[4])
            q[4] = iv
            sig[q[1]] = sig[q[2]].prev(q[3], initval=iv)
    case.pop('_iv', None)
    _, env = model(case, {n: [] for n, _ in case['ins']})
    seen = set()
    case['outs'] = [o for o in case['outs'] if not (id(sig[o[0]]) in seen or seen.add(id(sig[o[0]])))]
    for n, r in case['outs']:
        w = env[n][0]
        d = m.Output('o_' + n, w)
        vl = m.Output('o_%s_v' % n) if mode != 'none' else None
        rd = m.Input('o_%s_r' % n) if mode == 'elastic' and r else None
        sig[n].output(d, valid=vl, ready=rd)
        pouts.append({'name': 'o_' + n, 'width': w, 'valid': None if vl is None else 'o_%s_v' % n, 'ready': None if rd is None else 'o_%s_r' % n})
    if len(set(n for n, _ in case['outs'])) != len(case['outs']) or not case['outs']:
        raise Inconclusive('no output')
    p.make_always()
    code = m.to_verilog()
    extra = [('rc', 1)] + [(k, w) for k, w, _ in case['ks']]
    kx = {k: x for k, _, x in case['ks']}
    N = 60
    items = {n: [rng.choice([rng.getrandbits(w), (1 << w) - 1, 0, rng.getrandbits(w)]) for _ in range(N)] for n, w in case['ins']}
    ctx.sig(mode, tuple((q[0], q[1], str(q[2:])[:80]) for q in case['nodes']))
    ctx.sample = {'mode': mode, 'nodes': [q[:2] for q in case['nodes']]}
    if mode == 'none':
        st = []
        for t in range(60):
            s = {'RST': int(t < 3), 'rc': 0}
            s.update(kx)
            for n, w in case['ins']:
                s[n] = items[n][t]
            st.append(s)
        rows, _ = trace(code, 'dut', [('RST', 1)] + extra + [tuple(q) for q in case['ins']], [(o['name'], o['width']) for o in pouts], st, ctx)
        L = p.max_stage_id
        vals, _ = model(case, {n: items[n] for n in items})
        skip = 3 + L + sum(q[3] for q in case['nodes'] if q[0] == 'prev')
        for t in range(skip + L, 60):
            for n, _ in case['outs']:
                got = rows[t]['o_' + n]
                exp = vals[n][t - L]
                ctx.ev('free_cycles')
                if b2i(got) != exp:
                    raise Violation('value', 'cycle %d (latency %d): output %s is %s, expected %d' % (t, L, n, got, exp), code=code)
        ctx.evaluations += len(rows)
        return
    cycles = 420
    quiet = (150, 150 + 30 + p.max_stage_id) if any(q[0] == 'acc' and q[6] for q in case['nodes']) else None
    resets = set(range(230, 233)) if case['resets'] else ()

    def more(t):
        d = dict(kx)
        d['rc'] = int(quiet is not None and t == quiet[1])
        return d
    acc, out, rows, st = drive(code, 'dut', pins, pouts, items, cycles, rng, ctx, resets=resets, extra_ins=extra, stim_extra=more,
                               quiet=[(quiet[0], quiet[1] + 1)] if quiet else ())
    for k, (A, O) in enumerate(zip(acc, out)):
        clears = set()
        if quiet and k == 0:
            cnt = {n: sum(1 for t, _ in A[n] if t <= quiet[1]) for n in A}
            clears = cnt
        vals, _ = model2(case, {n: [x for _, x in A[n]] for n in A}, clears)
        for n, _ in case['outs']:
            got = O['o_' + n]
            exp = vals[n]
            for j, (t, d) in enumerate(got):
                if j >= len(exp):
                    raise Violation('duplicate', 'output %s delivered item %d (cycle %d, %s) but only %d items were accepted (segment %d)' % (n, j, t, d, len(exp), k), code=code)
                if b2i(d) != exp[j]:
                    raise Violation('value', 'output %s item %d (cycle %d, segment %d) is %s, expected %d' % (n, j, t, k, d, exp[j]), code=code)
            last = k == len(acc) - 1
            if last and len(got) < min(len(A[i]) for i in A):
                raise Violation('lost', 'output %s delivered %d items, every input delivered at least %d' % (n, len(got), min(len(A[i]) for i in A)), code=code)
            if last and min(len(A[i]) for i in A) < 20 and not case['resets']:
                raise Violation('deadlock', 'only %s items were accepted' % {i: len(A[i]) for i in A}, code=code)
    ctx.ev('acc_items', sum(len(O['o_' + n]) for O in out for n, _ in case['outs']) if any(q[0] == 'acc' for q in case['nodes']) else 0)
    ctx.ev('prev_items', sum(len(O['o_' + n]) for O in out for n, _ in case['outs']) if any(q[0] == 'prev' for q in case['nodes']) else 0)
    ctx.evaluations += sum(len(O['o_' + n]) for O in out for n, _ in case['outs'])


def model2(case, seq, clears):
    """clears: items of each input accepted before the clear pulse (the pipeline was empty then)"""
    if not clears:
        return model(case, seq)
    # the k-th item of a variable combines the k-th items of its inputs; with unequal counts the joined prefix is what counts,
    # so the clear index of a variable is the smallest count of the inputs it depends on
    mins = sorted(set(clears.values()))
    if len(mins) > 1:
        raise Inconclusive('inputs were not aligned at the clear pulse')
    return model(case, seq, clears={mins[0]})
