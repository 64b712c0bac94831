"""C23: veriloggen.dataflow graphs as elastic pipelines: random operator graphs under valid/ready histories, compared item by item with an
independent integer model of the graph"""
import random
import veriloggen
import veriloggen.dataflow as df
from vlib import strm
from vlib.elastic import drive
from vlib.harness import Violation, Inconclusive
from vlib.trace import trace, b2i

PID = 'C23'
RULE = ('a case is a random graph of dataflow operators (arithmetic, comparison, logic, shift, selection, tables, multipliers, dividers, previous '
        'values, accumulators and counters), one or more outputs, each input and output without handshake, with valid, or with valid and ready; '
        'producers leave gaps, consumers stall, resets drop what is in flight; the k-th value every output delivers is compared with the model '
        'at the k-th accepted items; distinct = operators, handshake form')
ASSUMPTIONS = ['iverilog simulates the emitted Verilog faithfully', 'producers keep valid and data until accepted',
               'without ready all inputs are valid together', 'division by zero is unspecified',
               'where an operator joins a source that has another consumer, all inputs are valid together and all outputs are ready together '
               '(otherwise: listed finding)', 'unsigned dividends and divisors below half range, the lowest signed value not divided, positive divisors of remainders (otherwise: listed findings)', 'fixed-point operands of one operator are both signed']
MIN_EVENTS = {'accepted': 4000, 'delivered': 5000, 'output_stalls': 2000, 'input_stalls': 2000, 'free_cycles': 500, 'acc_items': 1000, 'prev_items': 500}

KINDS = (['Plus'] * 4 + ['Minus'] * 3 + ['Times'] * 3 + ['cmp'] * 2 + ['bits'] * 2 + ['logic', 'shc', 'shc', 'shv', 'Uminus', 'Unot', 'Ulnot', 'red', 'Abs',
         'Mux', 'Mux', 'Cat', 'Slice', 'Pointer', 'Repeat', 'LUT', 'prev', 'prev', 'div', 'Reduce', 'Reduce', 'Reduce', 'ReduceM', 'Counter', 'Pulse', 'ReduceV'])


def counts(tier):
    return 130 if tier == 'quick' else 4000


def directed():
    V = lambda n, w=8, s=True: {'op': 'var', 'name': n, 'w': w, 'p': 0, 's': s}
    # x + y joins x and y, the second output consumes x only: x may be consumed without y
    yield {'id': 'joined-source-forked', 'mode': 'elastic', 'apart': True, 'nodes': [V('x0'), V('x1'), {'op': 'Plus', 'a': [0, 1]}, {'op': 'Uminus', 'a': [0]}],
           'outs': [[2, True], [3, True]], 'seed': 1, 'resets': False, 'edge': False, 'mgr': False}
    yield {'id': 'div-unsigned-high', 'mode': 'elastic', 'apart': True, 'strict': True, 'nodes': [V('x0', 8, False), V('x1', 8, False),
           {'op': 'Divide', 'a': [0, 1], 'py': False}], 'outs': [[2, True]], 'seed': 2, 'resets': False, 'edge': False, 'mgr': False}
    yield {'id': 'div-lowest', 'mode': 'elastic', 'apart': True, 'strict': True, 'nodes': [V('x0', 8, True), {'op': 'const', 'v': 3, 'raw': False},
           {'op': 'Divide', 'a': [0, 1], 'py': False}], 'outs': [[2, True]], 'seed': 5, 'resets': False, 'edge': True, 'mgr': False}
    yield {'id': 'mod-negative', 'mode': 'elastic', 'apart': True, 'strict': True, 'nodes': [V('x0'), V('x1'),
           {'op': 'Mod', 'a': [0, 1], 'py': False}], 'outs': [[2, True]], 'seed': 3, 'resets': False, 'edge': False, 'mgr': False}
    # the sign and the width of every operator's result, made visible by a wider signed value
    ops = [{'op': 'Cat', 'a': [0, 1]}, {'op': 'Repeat', 'a': [0], 'n': 2}, {'op': 'Slice', 'a': [0], 'msb': 2, 'lsb': 0, 'py': False},
           {'op': 'Pointer', 'a': [0], 'pos': 1, 'py': False}, {'op': 'Unot', 'a': [0]}, {'op': 'Uminus', 'a': [0], 'py': False},
           {'op': 'Uxor', 'a': [0]}, {'op': 'Ulnot', 'a': [0]}, {'op': 'Mux', 'a': [2, 0, 1]},
           {'op': 'LUT', 'a': [0], 'pat': [(5 * k + 3) % 16 for k in range(16)], 'w': 4, 's': False}, {'op': 'prev', 'a': [0], 'n': 1}]
    ops += [{'op': k, 'a': [0, 1], 'py': False} for k in ('Plus', 'Minus', 'Times', 'And', 'Or', 'Xor', 'LessThan', 'Eq', 'Land')]
    ops += [{'op': k, 'a': [0, 3], 'sh': 1, 'py': False} for k in ('Sll', 'Srl', 'Sra')]
    for op in ops:
        for s in ((True, True), (True, False), (False, False)):
            if op['op'] == 'LUT' and s[0]:
                continue
            base = [dict(V('x0', 4, s[0]), hist=1), V('x1', 4, s[1]), V('x2', 1, False)]
            sh = [{'op': 'const', 'v': 1, 'raw': False}] if 'sh' in op else []
            k = len(base) + len(sh)
            yield {'id': 'visible-%s-%d%d' % (op['op'], s[0], s[1]), 'mode': 'elastic', 'apart': False,
                   'nodes': base + sh + [op, V('x3', 16, True), {'op': 'Plus', 'a': [k, k + 1], 'py': False}],
                   'outs': [[k + 2, True]], 'seed': 9, 'resets': False, 'edge': False, 'mgr': False}


def okacc(n):
    """forms whose meaning is defined here"""
    if n['op'] == 'Abs':
        n['py'] = False
    if n['op'] in strm.ACC + strm.ACCM + ('Counter', 'Pulse'):
        if n['op'] in ('ReduceMax', 'ReduceMin', 'ReduceDiv'):
            return False
        n['interval'] = None
        n.pop('offset', None)
        n.pop('reg_initval', None)
        if n['op'] == 'Pulse' or n.get('valid'):
            if 'reset' in n['kw'] or n.get('size') is None:
                return False
        if n.get('size') is not None and 'reset' in n['kw']:
            n['size'] = None
    return n['op'] not in ('ReinterpretCast', 'Cast', 'Sign')


def dep(nodes):
    """every operator depends on an input (an operator of parameters only starts on its own and joins without being asked)"""
    d = []
    for q in nodes:
        a = q.get('a', [])
        d.append(q['op'] == 'var' or any(d[x] for x in a))
        if q['op'] not in ('var', 'param', 'const') and not d[-1] and a:
            return False
    return True


def gen_op(rng, g, fixed):
    if rng.random() < .06:
        s = rng.random() < .5
        x = strm.pick(rng, g, lambda at: 4 <= at[0] <= 16 and at[1] == 0 and at[2] == s)
        y = strm.pick(rng, g, lambda at: 4 <= at[0] <= 16 and at[1] == 0 and at[2] == s)
        if x is None or y is None:
            return False
        g.add({'op': rng.choice(['Divide', 'Mod']), 'a': [x, y], 'py': rng.random() < .5})
        return True
    return strm.gen_op(rng, g, fixed, False, KINDS)


def apart(nodes, outs):
    """every source of a joining operator has no other consumer: the inputs may come and the outputs may go independently"""
    have = used_inputs(nodes, outs)
    live = lambda x: nodes[x]['op'] not in ('param', 'const')
    users = {x: set() for x in have}
    for i in have:
        for x in set(nodes[i].get('a', [])):
            users[x].add(i)
    for i in outs:
        users[i].add(('out', i))
    for i in have:
        src = set(x for x in nodes[i].get('a', []) if live(x))
        if (len(src) > 1 or nodes[i]['op'] == 'Abs') and any(len(users[x]) > 1 for x in src):
            return False
    return True


def widen(rng, g):
    """the last value meets a wider one: its sign and width become visible"""
    n = g.nodes[-1]
    if n['op'] in ('var', 'param', 'const') or not dep(g.nodes):
        return
    w, p, s = g.at[-1]
    k = len(g.nodes) - 1
    y = strm.pick(rng, g, lambda at: at[0] > w and at[1] == p)
    if y is None or y == k or g.nodes[y]['op'] in ('param', 'const'):
        return
    g.add({'op': rng.choice(['Plus', 'Minus', 'Xor', 'LessThan']), 'a': rng.choice([[k, y], [y, k]]), 'py': False})


def gen(rng, i, tier):
    if rng.random() < .35:
        for _ in range(200):
            c = gen1(rng, i, tier)
            if c['mode'] == 'elastic' and c['apart'] and len(used_inputs(c['nodes'], [j for j, _ in c['outs']])) > 2:
                return c
    return gen1(rng, i, tier)


def gen1(rng, i, tier):
    mode = rng.choice(['none', 'valid', 'elastic', 'elastic', 'elastic', 'elastic'])
    fixed = rng.random() < .25
    for _ in range(50):
        g = strm.G()
        for k in range(rng.choice([1, 1, 2, 2, 3])):
            w = rng.choice([4, 5, 8, 8, 12, 16, 16, 24])
            p = rng.choice([0, 2, 4, w // 2]) if fixed else 0
            g.add({'op': 'var', 'name': 'x%d' % k, 'w': w, 'p': min(p, w - 1), 's': True if fixed else rng.random() < .6})
        if rng.random() < .3:
            g.add({'op': 'param', 'name': 'p0', 'w': rng.choice([4, 8, 16]), 'p': 0, 's': True if fixed else rng.random() < .6})
        n = rng.randint(1, 8)
        for _ in range(n):
            for _t in range(30):
                m = len(g.nodes)
                if gen_op(rng, g, fixed):
                    if not all(okacc(x) for x in g.nodes[m:]):
                        del g.nodes[m:], g.at[m:]
                        continue
                    if not dep(g.nodes):
                        del g.nodes[m:], g.at[m:]
                        continue
                    if not fixed and rng.random() < .5:
                        widen(rng, g)
                    break
        if mode == 'none' and any(x['op'] in strm.ACC + strm.ACCM + ('Counter', 'Pulse') for x in g.nodes):
            continue
        break
    else:
        mode = 'valid'
    nodes = strm.fin(g)
    dp = []
    for q in nodes:
        dp.append(q['op'] == 'var' or any(dp[x] for x in q.get('a', [])))
    cand = [j for j in range(len(nodes)) if nodes[j]['op'] not in ('var', 'param', 'const') and dp[j]]
    used = set(x for q in nodes for x in q.get('a', []))
    outs = [j for j in cand if j not in used] or [0]
    for _ in range(rng.choice([0, 1, 1, 2])):
        j = rng.choice(cand or [0])
        if j not in outs:
            outs.append(j)
    ap = apart(nodes, outs)
    return {'mode': mode, 'apart': ap, 'nodes': nodes, 'outs': [[j, not ap or rng.random() < .75] for j in outs], 'seed': rng.getrandbits(32), 'resets': rng.random() < .3,
            'edge': rng.random() < .4, 'mgr': rng.random() < .3}


def used_inputs(nodes, outs):
    seen = set()
    todo = list(outs)
    while todo:
        i = todo.pop()
        if i not in seen:
            seen.add(i)
            todo += nodes[i].get('a', [])
    return seen


class Model(strm.Model):
    """item-indexed: step() is called once per joined item"""
    strict = False

    def ev(self, i, n, V, ins, valid):
        if n['op'] == 'prev':
            h = self.hist[n['a'][0]]
            return h[-1 - n['n']] if len(h) > n['n'] else 0
        if n['op'] in ('Divide', 'Mod') and not self.strict:
            for k, x in enumerate(n['a']):
                w, p, s = self.at[x]
                v = V[x]
                if v is None or v >> (w - 1) & 1 and (not s or k == 1 and n['op'] == 'Mod' or not v & strm.mask(w - 1)):
                    return None
        return super().ev(i, n, V, ins, valid)

    def acc(self, i, n, k, a, V, valid):
        """advances once per joined item; an item that is not enabled repeats the last value"""
        w, p, s = self.at[i]
        kw = {x: V[a[j]] for x, j in n.get('kw', {}).items()}
        pulse = k == 'Pulse' or k == 'ReduceCustom' and n.get('valid') and n['i'] == 1
        step = (n.get('step') or 1) if k == 'Counter' else 0
        iv = (n.get('initval') if n.get('initval') is not None else 0) - step
        st = self.st[i]
        if not st:
            st.update(data=0 if pulse else iv, cnt=0)
        if st.get('bad') or any(V[x] is None for x in a):
            st['bad'] = True
            return None
        size = n.get('size')
        if kw.get('enable', 1):
            first = size is not None and st['cnt'] == 0 or kw.get('reset')
            base = iv if first else st['data']
            if pulse:
                st['data'] = int(st['cnt'] == size - 1)
            elif k == 'Counter':
                st['data'] = (base + step) & strm.mask(w)
            else:
                st['data'] = self.redop(n, k, base, a[0], V, w, s)
            if size is not None:
                st['cnt'] = (st['cnt'] + 1) % size
        elif kw.get('reset'):
            st['data'] = iv
        return st['data']


def run(case, ctx):
    veriloggen.reset()
    df.reset() if hasattr(df, 'reset') else None
    mode, nodes = case['mode'], case['nodes']
    rng = random.Random(case['seed'])
    made = {}
    for n in nodes:
        if n['op'] == 'var':
            kw = {}
            if mode != 'none':
                kw['valid'] = n['name'] + '_v'
            if mode == 'elastic':
                kw['ready'] = n['name'] + '_r'
            made[n['name']] = df.Variable(n['name'], width=n['w'], point=n['p'], signed=n['s'], **kw)
        elif n['op'] == 'param':
            made[n['name']] = df.ParameterVariable(n['name'], width=n['w'], point=n['p'], signed=n['s'])
    E = strm.build(nodes, df, made)
    names, seen = [], set()
    for j, r in case['outs']:
        if id(E[j]) in seen or isinstance(E[j], int):
            continue
        seen.add(id(E[j]))
        kw = {}
        if mode != 'none':
            kw['valid'] = 'out%d_v' % j
        if mode == 'elastic' and r:
            kw['ready'] = 'out%d_r' % j
        E[j].output('out%d' % j, **kw)
        names.append((j, 'out%d' % j, kw))
    if not names:
        raise Inconclusive('no output')
    flow = df.Dataflow(*[E[j] for j, _, _ in names])
    m = flow.to_module('main')
    depth = flow.pipeline_depth()
    code = m.to_verilog()
    have = used_inputs(nodes, [j for j, _, _ in names])
    vs = [n for i, n in enumerate(nodes) if n['op'] == 'var' and i in have]
    ps = [n for i, n in enumerate(nodes) if n['op'] == 'param' and i in have]
    if not vs:
        raise Inconclusive('no input reaches an output')
    rnd = lambda w: rng.choice([0, 1, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1]) if case['edge'] and rng.random() < .5 else rng.getrandbits(w)
    pv = {n['name']: rnd(n['w']) for n in ps}
    at = Model(nodes).at
    # inputs each node depends on
    deps = []
    for i, n in enumerate(nodes):
        d = {n['name']} if n['op'] == 'var' else set()
        for x in n.get('a', []):
            d |= deps[x]
        deps.append(d)
    ops = tuple(sorted(n['op'] for i, n in enumerate(nodes) if i in have))
    ctx.sig(mode, ops)
    ctx.sample = {'mode': mode, 'ops': list(ops), 'depth': depth}
    hasacc = any(o in strm.ACC + strm.ACCM + ('Counter', 'Pulse') for o in ops)
    N = 60
    items = {n['name']: [rnd(n['w']) for _ in range(N)] for n in vs}

    def values(seq):
        """node -> list of values for the items of its own inputs"""
        L = max(len(s) for s in seq.values())
        M = Model(nodes)
        M.strict = bool(case.get('strict'))
        rows = []
        for t in range(L):
            ins = dict(pv)
            for n in nodes:
                if n['op'] == 'var':
                    s = seq.get(n['name'], [])
                    ins[n['name']] = s[t] if t < len(s) else 0
                elif n['op'] == 'param':
                    ins.setdefault(n['name'], 0)
            rows.append(M.step(ins, 1))
        return lambda j: [rows[t][j] for t in range(min(len(seq[d]) for d in deps[j]))]
    if mode == 'none':
        warm = 3 + depth + sum(n['n'] for n in nodes if n['op'] == 'prev')
        if ps:
            warm += 60
        st = []
        for t in range(N + depth + warm):
            s = {'RST': int(t < 3)}
            s.update(pv)
            for n in vs:
                s[n['name']] = items[n['name']][t % N]
            st.append(s)
        rows, _ = trace(code, 'main', [('RST', 1)] + [(n['name'], n['w']) for n in vs + ps], [(nm, at[j][0]) for j, nm, _ in names], st, ctx)
        val = values({n['name']: [s[n['name']] for s in st] for n in vs})
        for j, nm, _ in names:
            if not deps[j]:
                continue
            exp = val(j)
            for t in range(warm + depth, len(st)):
                e = exp[t - depth]
                if e is None:
                    ctx.ev('undefined_skipped')
                    continue
                ctx.ev('free_cycles')
                ctx.evaluations += 1
                if b2i(rows[t][nm]) != e:
                    raise Violation('value:' + nodes[j]['op'], 'cycle %d (depth %d): %s is %s, expected %d' % (t, depth, nm, b2i(rows[t][nm]), e), code=code)
        return
    pins = [{'name': n['name'], 'width': n['w'], 'valid': n['name'] + '_v', 'ready': n['name'] + '_r' if mode == 'elastic' else None} for n in vs]
    if mode == 'valid' or not case['apart']:
        for p in pins:
            p['together'] = pins[0]['name']
    pouts = [{'name': nm, 'width': at[j][0], 'valid': kw['valid'], 'ready': kw.get('ready')} for j, nm, kw in names]
    if not case['apart']:
        for p in pouts:
            p['together'] = pouts[0]['name']
        # operators of several cycles stall as a whole, delay registers close gaps: either gaps or stalls
        if set(ops) & {'Times', 'Divide', 'Mod', 'MulAdd', 'ReduceMul'}:
            for p in rng.choice([pins, pouts]):
                p['always'] = True
    ctx.ev('independent' if case['apart'] and mode == 'elastic' and len(pins) + len(pouts) > 2 else 'together')
    cycles = 420 + depth
    acc, out, _, _ = drive(code, 'main', pins, pouts, items, cycles, rng, ctx, resets=set(range(200, 203)) if case['resets'] else (),
                           extra_ins=[(n['name'], n['w']) for n in ps], stim_extra=lambda t: dict(pv))
    for k, (A, O) in enumerate(zip(acc, out)):
        seq = {n: [x for _, x in A[n]] for n in A}
        if not any(seq.values()):
            if any(O.values()) and any(O[nm] for j, nm, _ in names if deps[j]):
                raise Violation('duplicate', 'segment %d: items were delivered, none was accepted' % k, code=code)
            continue
        val = values(seq)
        for j, nm, _ in names:
            if not deps[j]:
                continue
            exp, got = val(j), O[nm]
            for q, (t, d) in enumerate(got):
                if q >= len(exp):
                    raise Violation('duplicate', 'output %s delivered item %d (cycle %d, %s) but only %d items were accepted (segment %d)' % (nm, q, t, d, len(exp), k), code=code)
                if exp[q] is None:
                    ctx.ev('undefined_skipped')
                    continue
                ctx.evaluations += 1
                if b2i(d) != exp[q]:
                    raise Violation('value:' + nodes[j]['op'], 'output %s item %d (cycle %d, segment %d) is %s, expected %d; items %s' % (
                        nm, q, t, k, b2i(d), exp[q], {n: seq[n][q] if q < len(seq[n]) else None for n in seq}), code=code)
            low = min(len(s) for s in seq.values())
            if k == len(acc) - 1 and len(got) < low:
                raise Violation('lost', 'output %s delivered %d items, every input delivered at least %d' % (nm, len(got), low), code=code)
            if hasacc:
                ctx.ev('acc_items', len(got))
            if 'prev' in ops:
                ctx.ev('prev_items', len(got))
        if k == len(acc) - 1 and not case['resets'] and min(len(s) for s in seq.values()) < 20:
            raise Violation('deadlock', 'only %s items were accepted' % {n: len(s) for n, s in seq.items()}, code=code)
