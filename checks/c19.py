"""C19: veriloggen.stream pipelines: value, latency and valid/ready of every item"""
import os
import veriloggen
import veriloggen.stream as stream
from vlib.harness import Violation, Inconclusive
from vlib.trace import trace, b2i
from vlib import strm

PID = 'C19'
RULE = ('a case is a random graph of veriloggen.stream operators made into a module, with or without ivalid/ovalid/iready/oready, driven '
        'cycle by cycle with random data, valid gaps and back-pressure; each cycle every output and the valid/ready outputs are compared '
        'with an integer model of the graph delayed by pipeline_depth() enabled cycles; distinct = operator multiset and handshake form')
ASSUMPTIONS = ['iverilog simulates the emitted Verilog faithfully', 'ready inputs are stable within a cycle',
               'prev(n) means n enabled cycles earlier (the cycle stream, not the valid items)']
MIN_EVENTS = {'outputs': 5000, 'items': 1000, 'stalled_outputs': 300}
KINDS = None
ACC = False


def counts(tier):
    return 230 if tier == 'quick' else 6000


def gen(rng, i, tier):
    return gen1(rng, i, tier, None, False)


def gen1(rng, i, tier, kinds, acc):
    g = strm.gen_graph(rng, kinds=kinds, acc=acc)
    if acc:
        hs = rng.choice([('ivalid', 'ovalid'), ('ivalid', 'ovalid', 'iready', 'oready'), ('ivalid', 'ovalid', 'iready', 'oready')])
    else:
        hs = rng.choice([(), ('ivalid', 'ovalid'), ('ivalid', 'ovalid', 'iready', 'oready'), ('ivalid', 'ovalid', 'iready', 'oready'),
                         ('iready', 'oready'), ('ivalid', 'ovalid', 'oready')])
    nodes = g.nodes
    cand = [j for j in range(len(nodes)) if nodes[j]['op'] not in ('var', 'param', 'const')]
    used = set(x for n in nodes for x in n.get('a', []))
    outs = [j for j in cand if j not in used]
    for _ in range(2):
        j = rng.choice(cand)
        if j not in outs:
            outs.append(j)
    return {'nodes': strm.fin(g), 'outs': outs, 'hs': list(hs), 'pv': rng.choice([1.0, 0.8, 0.5, 0.2]), 'pr': rng.choice([1.0, 0.8, 0.5, 0.25]),
            'ncyc': rng.choice([60, 120, 200]), 'seed': rng.randrange(1 << 30), 'edge': rng.random() < 0.4}


def run(case, ctx):
    import random
    rng = random.Random(case['seed'])
    nodes, outs, hs = case['nodes'], case['outs'], case['hs']
    E = strm.build(nodes)
    names = []
    done = {}
    for j in outs:
        if id(E[j]) in done:
            continue
        nm = 'out%d' % j
        E[j].output(nm)
        done[id(E[j])] = nm
        names.append((j, nm))
    st = stream.Stream(*[E[j] for j, _ in names], **{h: h for h in hs})
    m = st.to_module('main')
    depth = st.pipeline_depth()
    code = m.to_verilog()
    judge(case, ctx, rng, nodes, names, hs, code, depth, 'main')


def rnd(rng, w, edge):
    if edge and rng.random() < 0.5:
        return rng.choice([0, 1, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1])
    return rng.getrandbits(w)


def judge(case, ctx, rng, nodes, names, hs, code, depth, top):
    have = used_inputs(nodes, [j for j, _ in names])
    vs = [n for i, n in enumerate(nodes) if n['op'] == 'var' and i in have]
    ps = [n for i, n in enumerate(nodes) if n['op'] == 'param' and i in have]
    # idle cycles: until every register of the pipeline and every prev() chain holds a value computed from the idle input
    idle = depth + sum(n.get('n', 0) for n in nodes if n['op'] == 'prev') + 4
    pvals = {n['name']: rnd(rng, n['w'], case['edge']) for n in ps}
    stim = []
    N = case['ncyc'] + idle + 3 + depth
    for c in range(N):
        row = {'RST': 1 if c < 3 else 0}
        row.update(pvals)
        act = c >= 3 + idle
        for n in vs:
            row[n['name']] = rnd(rng, n['w'], case['edge']) if act else 0
        row['ivalid'] = int(act and rng.random() < case['pv'])
        row['oready'] = 1 if not act else int(rng.random() < case['pr'])
        stim.append(row)
    ins = [('RST', 1)] + [(n['name'], n['w']) for n in vs + ps] + [(h, 1) for h in ('ivalid', 'oready') if h in hs]
    mdl = strm.Model(nodes)
    o = [(nm, mdl.at[j][0]) for j, nm in names] + [(h, 1) for h in ('iready', 'ovalid') if h in hs]
    rows, _ = trace(code, top, ins, o, stim, ctx)
    exp = []
    valid = []
    bad = None
    skipped = 0
    for c in range(3, N):
        s = stim[c]
        en = s['oready'] if 'oready' in hs else 1
        n = len(exp)
        r = rows[c]
        if 'iready' in hs:
            if r['iready'] != str(en):
                raise Violation('iready', 'cycle %d: iready=%s with oready=%d' % (c, r['iready'], en), code=code)
        if not en and depth == 0:
            continue
        if en:
            allin = dict((x['name'], s[x['name']] if x['name'] in s else 0) for x in nodes if x['op'] in ('var', 'param'))
            exp.append(mdl.step(allin, s['ivalid'] if 'ivalid' in hs else 1))
            valid.append(s['ivalid'])
        k = n - depth
        if k < 0 or k >= len(exp) or c < 3 + idle + 0:
            continue
        if 'ovalid' in hs:
            e = str(valid[k])
            if r['ovalid'] != e:
                raise Violation('ovalid', 'cycle %d: ovalid=%s, expected %s (item %d, depth %d)' % (c, r['ovalid'], e, k, depth), code=code)
            if valid[k]:
                ctx.ev('items')
        if k < idle - depth:
            continue
        for j, nm in names:
            x = exp[k][j]
            if x is None:
                skipped += 1
                continue
            ctx.ev('outputs')
            if not en:
                ctx.ev('stalled_outputs')
            if b2i(r[nm]) != x:
                raise Violation('value:' + nodes[j]['op'], 'cycle %d item %d output %s (%s): got %s, expected %d; inputs %s' %
                                (c, k, nm, nodes[j]['op'], b2i(r[nm]), x, {y['name']: exp[k][i] for i, y in enumerate(nodes) if y['op'] in ('var', 'param')}), code=code)
    ctx.ev('undefined_skipped', skipped)
    ctx.sig(tuple(sorted(n['op'] for n in nodes)), tuple(hs))


def used_inputs(nodes, outs):
    seen = set()
    todo = list(outs)
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        todo += nodes[i].get('a', [])
    return seen
