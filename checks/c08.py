"""C08: FSM."""
import random
from vlib.harness import Violation, Inconclusive
from vlib import vexpr, vstmt
from vlib.trace import trace, b2i
from checks.c07 import Gen, has_target, eager_lhs, WID

PID = 'C08'
RULE = ('random state machines (2-6 states; statements, If/Elif/Else chains mixing assignments and jumps, Then, Delay/Keep/'
        'LazyCond/EagerVal, goto/goto_next/goto_init/goto_from/else_dst, When/State, Always, Prev, case/if/as_module emission) '
        'run 60-120 cycles with random inputs and reset pulses; state and every register compared every cycle with an interpreter; '
        'distinct by (design, state, transition taken)')
ASSUMPTIONS = ['Icarus Verilog', 'priority: Always code, then assignments issued d cycles ago (larger d first), then the current '
               'state in program order, jumps after assignments, later jump wins']
MIN_EVENTS = {'reg_compares': 5000, 'state_compares': 2000, 'transitions': 800, 'delayed_fires': 100, 'resets': 30, 'as_module': 3,
              'here_compares': 500}


def counts(tier):
    return 90 if tier == 'quick' else 5000


def gen(rng, i, tier):
    mode = rng.choice(['case', 'case', 'if', 'module'])

    def shape():
        w = rng.choice(WID)
        return w, w > 1 and rng.random() < 0.3
    inputs = {'i%d' % k: shape() for k in range(rng.randrange(2, 5))}
    inputs['i0'] = (1, False)
    nv = {'n%d' % k: shape() for k in range(rng.randrange(2, 5))}
    av = {'a0': shape()} if rng.random() < 0.4 else {}      # written by the Always part
    env = dict(inputs)
    env.update(nv)
    env.update(av)
    prevs = []
    for k in range(rng.choice([0, 0, 1])):
        n = rng.choice(sorted(env))
        prevs.append({'name': 'p%d' % k, 'expr': ['var', n], 'delay': rng.randrange(1, 3), 'initval': 0, 'cond': None,
                      'w': env[n][0], 's': env[n][1]})
    for p in prevs:
        env[p['name']] = (p['w'], p['s'])
    g = Gen(rng, env, {}, [], sorted(nv), [], [], [], [])
    g.funcs = None
    g.G.nosel = ()
    if mode == 'module':
        g.lhs = lambda blk: ['var', rng.choice(g.nvars)]
        g.lhs1 = g.lhs
    S = rng.randrange(2, 7)

    def opts():
        o = {}
        if rng.random() < 0.3:
            o['delay'] = rng.randrange(1, 4)
        if rng.random() < 0.12:
            o['keep'] = rng.randrange(1, 4)
        if o.get('delay') and rng.random() < 0.3:
            o['lazy_cond'] = True
        if (o.get('delay') or o.get('keep')) and rng.random() < 0.35:
            o['eager_val'] = True
        return o

    def stmts(o):
        if o.get('eager_val'):
            return [['as', eager_lhs(rng, g, mode == 'module'), g.expr(2), False] for _ in range(rng.randrange(1, 3))]
        return g.stmts(rng.choice([0, 0, 0, 1]), rng.randrange(1, 3))

    def act(st, jump=True):
        """an action under a condition: assignments, a jump, or both"""
        x = rng.random()
        if jump and x < 0.35:
            return {'dst': rng.randrange(S)}
        o = opts() if rng.random() < 0.6 else {}
        a = {'o': o, 'b': stmts(o)}
        if jump and x > 0.8:
            a['then'] = rng.randrange(S)
        return a
    items = []
    for st in range(S):
        for _ in range(rng.randrange(1, 4)):
            x = rng.random()
            where = st
            if x < 0.25:
                o = opts()
                it = {'k': 'plain', 'o': o, 'b': stmts(o)}
                if rng.random() < 0.2:
                    where = rng.randrange(S)
                    it['how'] = rng.choice(['when', 'state'])
            elif x < 0.45:
                it = {'k': 'chain', 'br': [[g.nonconst(2), act(st)]], 'els': act(st) if rng.random() < 0.4 else None}
            elif x < 0.75:
                it = {'k': 'chain', 'br': [[g.nonconst(2), act(st)] for _ in range(rng.randrange(2, 4))],
                      'els': act(st) if rng.random() < 0.7 else None}
            elif x < 0.9:
                it = {'k': 'goto', 'dst': rng.randrange(S), 'c': g.nonconst(2) if rng.random() < 0.7 else None, 'else': None,
                      'style': rng.randrange(3)}
                if it['c'] is not None and rng.random() < 0.4:
                    it['else'] = rng.randrange(S)
                    it['style'] = rng.choice([0, 2])
                if it['style'] == 2:
                    where = rng.randrange(S)     # goto_from
            else:
                it = {'k': 'goto_init', 'c': g.nonconst(1) if rng.random() < 0.8 else None, 'style': rng.randrange(2)}
            it['at'] = st
            it['st'] = where
            items.append(it)
        items.append({'k': 'next' if st < S - 1 else 'last', 'at': st, 'st': st, 'c': g.nonconst(2) if rng.random() < 0.5 else None,
                      'style': rng.randrange(2), 'dst': rng.randrange(S)})
    alw = []
    if av:
        o = {'delay': rng.randrange(1, 3)} if rng.random() < 0.3 else {}
        alw.append({'c': g.nonconst(1) if rng.random() < 0.7 else None, 'o': o, 'b': [['as', ['var', 'a0'], g.expr(2), False]]})
    miss = [n for n in sorted(nv) if not has_target(items, n)]
    if miss:
        items.insert(0, {'k': 'plain', 'o': {}, 'at': 0, 'st': 0, 'b': [['as', ['var', n], g.expr(2), False] for n in miss]})
    return {'mode': mode, 'inputs': inputs, 'nv': nv, 'av': av, 'prevs': prevs, 'items': items, 'S': S, 'always': alw,
            'rst': rng.choice(['once', 'pulses']), 'seed': rng.getrandbits(32), 'cycles': rng.choice([60, 120]),
            'width': rng.choice([32, 8, 4])}


def directed():
    out = []
    inp = {'i0': (1, False), 'i1': (1, False), 'i2': (8, False)}
    nv = {'n0': (8, False), 'n1': (8, False)}
    A, B, X = ['var', 'i0'], ['var', 'i1'], ['var', 'i2']
    as_ = lambda n, e: [['as', ['var', n], e, False]]
    inc = lambda n: ['bin', '+', ['var', n], ['lit', 1, 8, 10, False]]
    acts = [{'dst': 2}, {'o': {}, 'b': as_('n0', X)}, {'o': {}, 'b': as_('n0', X), 'then': 2}, {'o': {'delay': 2}, 'b': as_('n0', X)},
            {'o': {'delay': 2}, 'b': as_('n0', X), 'then': 0}]
    for a1 in acts:
        for a2 in acts:
            for els in (None, {'o': {}, 'b': as_('n1', inc('n1'))}, {'dst': 1}):
                for mode in ('case', 'module'):
                    if mode == 'module' and els is None:
                        continue
                    out.append({'mode': mode, 'inputs': inp, 'nv': nv, 'av': {}, 'prevs': [], 'S': 3, 'always': [], 'rst': 'pulses',
                                'seed': len(out), 'cycles': 60, 'width': 32, 'items': [
                                    {'k': 'chain', 'at': 0, 'st': 0, 'br': [[A, a1], [B, a2]], 'els': els},
                                    {'k': 'plain', 'at': 0, 'st': 0, 'o': {}, 'b': as_('n1', X)},
                                    {'k': 'next', 'at': 0, 'st': 0, 'c': B, 'style': 0},
                                    {'k': 'plain', 'at': 1, 'st': 1, 'o': {}, 'b': as_('n0', inc('n0'))},
                                    {'k': 'next', 'at': 1, 'st': 1, 'c': None, 'style': 0},
                                    {'k': 'last', 'at': 2, 'st': 2, 'c': None, 'style': 0, 'dst': 0}]})
    # delayed assignments added to a state from another one
    for how in ('when', 'state'):
        for o in ({'delay': 2}, {'delay': 1, 'eager_val': True}, {'delay': 2, 'lazy_cond': True}, {'keep': 2}):
            out.append({'mode': 'case', 'inputs': inp, 'nv': nv, 'av': {}, 'prevs': [], 'S': 3, 'always': [], 'rst': 'pulses',
                        'seed': len(out), 'cycles': 60, 'width': 32, 'items': [
                            {'k': 'plain', 'at': 0, 'st': 0, 'o': {}, 'b': as_('n1', X)},
                            {'k': 'plain', 'at': 0, 'st': 2, 'o': o, 'b': as_('n0', X), 'how': how},
                            {'k': 'next', 'at': 0, 'st': 0, 'c': B, 'style': 0},
                            {'k': 'next', 'at': 1, 'st': 1, 'c': None, 'style': 0},
                            {'k': 'last', 'at': 2, 'st': 2, 'c': None, 'style': 0, 'dst': 0}]})
    return out


def run(case, ctx):
    import veriloggen as vg
    import veriloggen.core.vtypes as v
    rng = random.Random(case['seed'])
    st_ = random.Random(case['seed'] + 1)
    style = lambda: st_.random() < 0.5
    T = lambda d: {k: (x[0], bool(x[1])) for k, x in d.items()}
    inputs, nv, av = T(case['inputs']), T(case['nv']), T(case['av'])
    if not all(has_target(case['items'], n) for n in nv):
        raise Inconclusive('malformed case')
    regs = dict(nv)
    regs.update(av)
    initv = {n: (rng.getrandbits(regs[n][0]) if rng.random() < 0.7 else 0) for n in sorted(regs)}
    m = vg.Module('dut')
    clk, rst = m.Input('CLK'), m.Input('RST')
    sig = {}
    for n, (w, s) in sorted(inputs.items()):
        sig[n] = m.Input(n, w, signed=s) if w > 1 or s else m.Input(n)
    for n, (w, s) in sorted(regs.items()):
        sig[n] = m.Reg(n, w, signed=s, initval=initv[n]) if w > 1 or s else m.Reg(n, initval=initv[n])
    fsm = vg.FSM(m, 'fsm', clk, rst, width=case['width'], as_module=case['mode'] == 'module', nohook=case['mode'] == 'if')
    E = lambda e: vexpr.build(e, sig, v, lambda n: style())
    B = lambda b: vstmt.build(b, sig, vg, v, style)
    for p in case['prevs']:
        sig[p['name']] = fsm.Prev(E(p['expr']), p['delay'], initval=p['initval'])
    env = dict(inputs)
    env.update(regs)
    for p in case['prevs']:
        env[p['name']] = (p['w'], p['s'])

    S = case['S']
    body = {k: [] for k in range(S)}     # state -> (delay, cond, stmts, lazy, eager)
    jumps = {k: [] for k in range(S)}    # state -> (cond, dst, else)
    alw = []
    heres = []

    def conj(cs):
        return None if not cs else ['andor', '&&', cs] if len(cs) > 1 else cs[0]

    def entry(lst, o, cond, b):
        d0, kp = o.get('delay', 0) or 0, o.get('keep')
        for j in range(kp if kp is not None else 1):
            lst.append((d0 + j, cond, b, bool(o.get('lazy_cond')), bool(o.get('eager_val'))))

    def apply(t, o, b, **kw):
        order = list(o.items())
        st_.shuffle(order)
        for k, val in order:
            if style():
                t = {'delay': t.Delay, 'keep': t.Keep, 'lazy_cond': t.LazyCond, 'eager_val': t.EagerVal}[k](val)
            else:
                kw[k] = val
        bb = B(b)
        if style():
            t(*bb, **kw)
        else:
            t.add(*bb, **kw)

    def do(t, a, s, cond):
        if 'b' in a:
            apply(t, a['o'], a['b'])
            entry(body[s], a['o'], cond, a['b'])
            if 'then' in a:
                fsm.Then().goto(a['then'])
                jumps[s].append((cond, a['then'], None))
        else:
            t.goto(a['dst'])
            jumps[s].append((cond, a['dst'], None))

    at = None
    for it in case['items']:
        s = it['st']
        if it['at'] != at:
            at = it['at']
            if fsm.current != at:
                raise Violation('current', 'fsm.current is %r, expected %d' % (fsm.current, at))
            w = m.Wire('here%d' % at)
            w.assign(fsm.here)
            heres.append(at)
        if it['k'] == 'plain':
            t = fsm
            if it.get('how') == 'when':
                t = fsm.When(s)
            elif it.get('how') == 'state':
                t = fsm.State(s)
                for k, val in it['o'].items():
                    t = {'delay': t.Delay, 'keep': t.Keep, 'lazy_cond': t.LazyCond, 'eager_val': t.EagerVal}[k](val)
                t(*B(it['b']))
                entry(body[s], it['o'], None, it['b'])
                continue
            apply(t, it['o'], it['b'])
            entry(body[s], it['o'], None, it['b'])
        elif it['k'] == 'chain':
            neg = []
            for j, (c, a) in enumerate(it['br']):
                t = fsm.If(E(c)) if j == 0 else fsm.Elif(E(c))
                do(t, a, s, conj(neg + [c]))
                neg = neg + [['un', '!', c]]
            if it['els'] is not None:
                do(fsm.Else, it['els'], s, conj(neg))
        elif it['k'] == 'goto':
            c = E(it['c']) if it['c'] is not None else None
            if it['style'] == 2:
                fsm.goto_from(s, it['dst'], c, it['else']) if it['else'] is not None else fsm.goto_from(s, it['dst'], cond=c)
            elif it['style'] == 1 and c is not None:
                fsm.If(c).goto(it['dst'])
            else:
                fsm.goto(it['dst'], c, it['else'])
            jumps[s].append((it['c'], it['dst'], it['else']))
        elif it['k'] == 'goto_init':
            c = E(it['c']) if it['c'] is not None else None
            fsm.If(c).goto_init() if it['style'] and c is not None else fsm.goto_init(cond=c)
            jumps[s].append((it['c'], 0, None))
        elif it['k'] == 'next':
            c = E(it['c']) if it['c'] is not None else None
            fsm.If(c).goto_next() if it['style'] and c is not None else fsm.goto_next(cond=c)
            jumps[s].append((it['c'], s + 1, None))
        elif it['k'] == 'last':
            c = E(it['c']) if it['c'] is not None else None
            fsm.goto(it['dst'], c)
            jumps[s].append((it['c'], it['dst'], None))
    for a in case['always']:
        t = fsm.Always
        if a['c'] is not None:
            t = t.If(E(a['c']))
        t = t.Delay(a['o']['delay']) if a['o'] else t
        t(*B(a['b']))
        entry(alw, a['o'], a['c'], a['b'])
    if case['mode'] == 'if':
        fsm.make_always(case=False)
    code = m.to_verilog()

    n = case['cycles']
    stim = []
    for t in range(n):
        s = {'RST': int(t < 2 or case['rst'] == 'pulses' and rng.random() < 0.03)}
        for k, (w, sg) in sorted(inputs.items()):
            s[k] = rng.choice([rng.getrandbits(w), rng.getrandbits(w), rng.getrandbits(min(w, 2)), 0])
        stim.append(s)
    peeks = [(k, k) for k in sorted(regs)] + [('fsm', 'fsm')] + [('here%d' % k, 'here%d' % k) for k in heres]
    ins = [('RST', 1)] + [(k, inputs[k][0]) for k in sorted(inputs)]
    rows, _ = trace(code, 'dut', ins, [], stim, ctx, peeks=peeks)

    ev = vexpr.Eval(env, {})
    vals = {k: 0 for k in env}
    I = vstmt.Interp(env, {})
    known = False
    hist = []      # newest last: (state, {(s, x): (cond, captured)}, {x: (cond, captured)})
    state = 0

    def capture(d, c, b, lazy, eager):
        now = True if c is None else ev.truth(c, vals)
        return (now, [ev.assign(a[2], I.lhs_width(a[1]), vals) for a in b] if eager else None)
    for t, s in enumerate(stim):
        for k in inputs:
            vals[k] = s[k]
        if known:
            got = b2i(rows[t]['fsm'])
            if got != state:
                raise Violation('state', 'cycle %d: specified state %d, design is in %s' % (t, state, rows[t]['fsm']), code=code,
                                trace='\n'.join('%d in=%s got=%s' % (q, stim[q], rows[q]) for q in range(max(0, t - 5), t + 1)))
            ctx.ev('state_compares')
            for k in sorted(regs):
                if b2i(rows[t][k]) != vals[k]:
                    raise Violation('register', 'cycle %d state %d register %s: specified %s, design has %s' %
                                    (t, state, k, bin(vals[k]), rows[t][k]), code=code, items=case['items'],
                                    trace='\n'.join('%d in=%s got=%s' % (q, stim[q], rows[q]) for q in range(max(0, t - 5), t + 1)))
                ctx.ev('reg_compares')
            for k in heres:
                if b2i(rows[t]['here%d' % k]) != int(state == k):
                    raise Violation('here', 'cycle %d: fsm.here of state %d is %s in state %d' % (t, k, rows[t]['here%d' % k], state), code=code)
                ctx.ev('here_compares')
        if s['RST']:
            for k in regs:
                vals[k] = initv[k]
            for p in case['prevs']:
                p['pipe'] = [p['initval'] & vexpr.mask(p['w'])] * p['delay']
                vals[p['name']] = p['pipe'][-1]
            hist = []
            state = 0
            known = True
            ctx.ev('resets')
            continue
        nb = []

        def fire(b, eager, old):
            for j, a in enumerate(b):
                if eager and old is not None:
                    nb.append((I.resolve(a[1], vals), old[1][j]))
                else:
                    I.stmt(a, vals, nb, (0, 0))
        capA = [capture(*e) for e in alw]
        for x, (d, c, b, lazy, eager) in sorted(enumerate(alw), key=lambda q: (-q[1][0], q[0])):
            old = hist[-d][2][x] if d and len(hist) >= d else None
            if capA[x][0] if d == 0 else old is not None and old[0]:
                fire(b, eager, old)
        cap = {(state, x): capture(*e) for x, e in enumerate(body[state])}
        maxd = max([e[0] for es in body.values() for e in es] + [0])
        for d in range(maxd, 0, -1):
            if len(hist) < d:
                continue
            hs, hc, _ = hist[-d]
            for x, (dd, c, b, lazy, eager) in enumerate(body[hs]):
                if dd != d:
                    continue
                go = (True if c is None else ev.truth(c, vals)) if lazy else hc[hs, x][0]
                if go:
                    ctx.ev('delayed_fires')
                    fire(b, eager, hc[hs, x])
        for x, (dd, c, b, lazy, eager) in enumerate(body[state]):
            if dd == 0 and cap[state, x][0]:
                fire(b, False, None)
        nxt = state
        for c, dst, els in jumps[state]:
            if c is None or ev.truth(c, vals):
                nxt = dst
            elif els is not None:
                nxt = els
        I.steps = 0
        newp = []
        for p in case['prevs']:
            p['pipe'] = [ev.assign(p['expr'], p['w'], vals)] + p['pipe'][:-1]
            newp.append((p['name'], p['pipe'][-1]))
        for parts, val in nb:
            for name, idx, low, w in parts:
                part = val & vexpr.mask(w)
                val >>= w
                vals[name] = vals[name] & ~(vexpr.mask(w) << low) | part << low
        for k, val in newp:
            vals[k] = val
        hist.append((state, cap, capA))
        del hist[:-12]
        if nxt != state:
            ctx.ev('transitions')
        ctx.sig(case['seed'], state, nxt)
        state = nxt
    if case['mode'] == 'module':
        ctx.ev('as_module')
    ctx.evaluations = n
    ctx.sample = {'items': repr(case['items'])[:400], 'row': rows[5]}
