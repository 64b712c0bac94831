"""C01: emitted expressions compute the user's tree."""
import collections
import random
from vlib.harness import Violation, Inconclusive
from vlib import vexpr
from vlib.sim import iverilog, to_int

PID = 'C01'
RULE = ('random expression trees (depth<=4) over signals/arrays of random width (1..65) and sign, built through the '
        'public operators and constructors, placed in assign / always @* / nonblocking / function / instance-port '
        'contexts; a case is non-trivial by the distinct (operator, operand-kind) parent/child pairs it contains, '
        'counted when the oracle value has no x')
ASSUMPTIONS = ['Icarus Verilog evaluates 2-state IEEE-1364 expressions correctly',
               'division by zero, out-of-range selects (x results) are not compared']
MIN_EVENTS = {'values_compared': 500}


def counts(tier):
    return 160 if tier == 'quick' else 4000


WID = [1, 1, 2, 3, 4, 7, 8, 9, 15, 16, 31, 32, 33, 40, 64, 65]


def gen(rng, i, tier):
    env = {}
    for k in range(rng.randrange(3, 7)):
        env['v%d' % k] = (rng.choice(WID), rng.random() < 0.5)
    arrays = {}
    if rng.random() < 0.6:
        arrays['m0'] = (rng.choice([1, 4, 8, 16, 33]), rng.random() < 0.5, (rng.choice([2, 4, 5, 8]),))
    if rng.random() < 0.25:
        arrays['m1'] = (rng.choice([4, 8]), rng.random() < 0.5, (rng.choice([2, 3]), rng.choice([2, 5])))
    g = vexpr.Gen(rng, env, arrays)
    exprs = []
    for k in range(12):
        e = g.expr(rng.randrange(1, 5))
        if e[0] in ('int', 'pybool'):
            e = g.scalar()
        if k == 11 and rng.random() < 0.6:
            n = rng.choice([x for x in sorted(env)])
            if env[n][1]:
                e = ['abs', ['var', n]]
        ctxk = rng.choice(['assign', 'assign', 'wire', 'blk', 'nb', 'func', 'inst', 'initval'][:7])
        # abs(): the Python builtin name; keep its own operand width
        exprs.append([e, rng.choice([1, 4, 8, 16, 32, 33, 64, 80]), rng.random() < 0.4, ctxk, rng.getrandbits(32)])
    return {'env': env, 'arrays': arrays, 'exprs': exprs, 'vseed': rng.getrandbits(32), 'nvec': 8}


def directed():
    env = {'a': (8, False), 'b': (8, False), 'c': (8, True), 'd': (8, True), 'e': (1, False)}
    A, B, C, D, Eb = (['var', x] for x in 'abcde')
    ex = []
    for op1 in ('+', '-', '*', '/', '%', '&', '|', '^', '~^', '<<', '>>', '>>>', '<', '==', '&&', '||'):
        for op2 in ('+', '-', '*', '/', '%', '<<', '>>', '>>>', '<', '==', '&', '|', '^', '&&', '||'):
            ex.append(['bin', op1, A, ['bin', op2, B, C]])
            ex.append(['bin', op1, ['bin', op2, C, D], A])
            ex.append(['bin', op1, ['bin', op2, C, D], C])
    for u in ('-', '~', '!', 'r&', 'r~&', 'r|', 'r~|', 'r^', 'r~^', '+'):
        for u2 in ('-', '~', '!', 'r&', 'r|', 'r^', 'r~&', 'r~|', 'r~^'):
            ex.append(['un', u, ['un', u2, C]])
        for op in ('+', '-', '&', '*', '<', '**'):
            r = C if op != '**' else ['int', 2]
            ex.append(['un', u, ['bin', op, D, r]])
            ex.append(['bin', op, ['un', u, D], r])
            if op != '**':
                ex.append(['bin', op, D, ['un', u, C]])
    for c in (['mux', Eb, A, B],):
        for op in ('+', '-', '<', '&', '&&'):
            ex.append(['bin', op, c, A])
            ex.append(['bin', op, A, c])
            ex.append(['mux', ['bin', op, A, B], c, ['bin', op, C, D]])
        ex.append(['mux', c, c, c])
    for lit in ([-1, 8, None, True], [-3, None, None, False], [-3, 8, 16, True], [5, None, None, True],
                [5, 4, None, False], [0, 8, 2, False], [255, 8, 16, True]):
        L = ['lit'] + lit
        for op in ('-', '+', '*', '<', '>>>', '/'):
            ex.append(['bin', op, C, L])
            if op != '>>>':
                ex.append(['bin', op, L, C])
        ex.append(['un', '-', L])
    for s in ((None, None, None), (0, 8, None), (1, -1, None), (-3, None, None), (None, 4, None), (-5, -2, None),
              (0, 8, 2), (1, None, 3), (None, None, 1), (-8, 8, None), (7, 8, None)):
        ex.append(['pyslice', 'a', s[0], s[1], s[2]])
    for i in range(-8, 8):
        ex.append(['pyidx', 'c', i])
    ex.append(['abs', C])
    for v in (-1, -128, 100, 3):
        for op in ('-', '+', '*', '<', '/', '%', '&', '>>', '<<', '==', '**'):
            if op == '**':
                continue
            if op in ('>>', '<<') and v < 0:
                continue
            ex.append(['bin', op, C, ['int', v]])
            if op not in ('<', '=='):
                ex.append(['bin', op, ['int', v], A if op in ('>>', '<<') else C])
    out = []
    chunk = 60
    for j in range(0, len(ex), chunk):
        es = [[e, [16, 8, 40][(k + j) % 3], bool(k & 1), ['assign', 'blk', 'nb', 'func'][k % 4], k]
              for k, e in enumerate(ex[j:j + chunk])]
        out.append({'env': env, 'arrays': {}, 'exprs': es, 'vseed': j, 'nvec': 10})
    return out


def build_design(case):
    import veriloggen as vg
    import veriloggen.core.vtypes as v
    env, arrays = case['env'], case['arrays']
    m = vg.Module('dut')
    clk = m.Input('clk')
    sig = {}
    for n in sorted(env):
        w, s = env[n]
        sig[n] = m.Input(n, w, signed=bool(s)) if w > 1 or s else m.Input(n)
    for n in sorted(arrays):
        w, s, dims = arrays[n]
        sig[n] = m.Reg(n, w, dims=tuple(dims) if len(dims) > 1 else dims[0], signed=bool(s))
    for k, (e, tw, ts, c, sd) in enumerate(case['exprs']):
        st = random.Random(sd)
        style = lambda n: st.random() < 0.5
        ve = vexpr.build(e, sig, v, style)
        name = 'o%d' % k
        if c == 'assign':
            o = m.Output(name, tw, signed=bool(ts))
            m.Assign(o(ve))
        elif c == 'wire':
            o = m.Output(name, tw, signed=bool(ts))
            w = m.Wire('w_' + name, tw, signed=bool(ts))
            w.assign(ve)
            o.assign(w)
        elif c == 'blk':
            o = m.OutputReg(name, tw, signed=bool(ts))
            m.Always(vg.Posedge(clk))(o(ve, blk=True))
        elif c == 'nb':
            o = m.OutputReg(name, tw, signed=bool(ts))
            m.Always(vg.Posedge(clk))(o(ve))
        elif c == 'inst':
            sub = vg.Module('sub_%d' % k)
            ip = sub.Input('i', tw, signed=bool(ts))
            op = sub.Output('o', tw, signed=bool(ts))
            op.assign(ip)
            o = m.Output(name, tw, signed=bool(ts))
            m.Instance(sub, 'u%d' % k, ports=[('i', ve), ('o', o)])
        elif c == 'func':
            f = m.Function('f%d' % k, tw)
            fi = f.Input('dummy', 1)
            f.Body(f(ve))
            o = m.OutputReg(name, tw, signed=bool(ts))
            m.Always(vg.Posedge(clk))(o(f.call(clk)))
    return m


def make_tb(case, vecs):
    env, arrays = case['env'], case['arrays']
    L = ['module tb;', 'reg clk;']
    for n in sorted(env):
        w, s = env[n]
        L.append('reg %s[%d:0] %s;' % ('signed ' if s else '', w - 1, n))
    for k, (e, tw, ts, c, sd) in enumerate(case['exprs']):
        L.append('wire [%d:0] o%d;' % (tw - 1, k))
    ports = ['clk'] + sorted(env) + ['o%d' % k for k in range(len(case['exprs']))]
    L.append('dut u(%s);' % ', '.join('.%s(%s)' % (p, p) for p in ports))
    L.append('initial begin clk=0;')
    for j, vals in enumerate(vecs):
        for n in sorted(arrays):
            w, s, dims = arrays[n]
            for x, val in enumerate(vals[n]):
                idx = []
                y = x
                for d in reversed(dims):
                    idx.insert(0, y % d)
                    y //= d
                L.append('u.%s%s = %d\'h%x;' % (n, ''.join('[%d]' % q for q in idx), w, val))
        for n in sorted(env):
            w, s = env[n]
            L.append("%s = %d'h%x;" % (n, w, vals[n]))
        L.append('#1 clk=1; #1 clk=0; #1;')
        for k in range(len(case['exprs'])):
            L.append('$display("R %d %d %%b", o%d);' % (j, k, k))
    L.append('$finish; end endmodule')
    return '\n'.join(L)


def reference(case):
    """the same trees printed fully parenthesised by the oracle, in the same kind of context"""
    env, arrays = case['env'], case['arrays']
    L = ['module dut(input clk']
    subs = []
    for n in sorted(env):
        w, s = env[n]
        L.append(', input %s%s %s' % ('signed ' if s else '', '[%d:0]' % (w - 1) if w > 1 else '', n))
    for k, (e, tw, ts, c, sd) in enumerate(case['exprs']):
        L.append(', output %s %s [%d:0] o%d' % ('reg' if c in ('blk', 'nb', 'func') else 'wire',
                                               'signed' if ts else '', tw - 1, k))
    L.append(');')
    for n in sorted(arrays):
        w, s, dims = arrays[n]
        L.append('reg %s [%d:0] %s%s;' % ('signed' if s else '', w - 1, n, ''.join('[0:%d]' % (d - 1) for d in dims)))
    for k, (e, tw, ts, c, sd) in enumerate(case['exprs']):
        t = vexpr.pv(e, env)
        sg = 'signed' if ts else ''
        if c == 'assign':
            L.append('assign o%d = %s;' % (k, t))
        elif c == 'wire':
            L.append('wire %s [%d:0] w_o%d; assign w_o%d = %s; assign o%d = w_o%d;' % (sg, tw - 1, k, k, t, k, k))
        elif c == 'blk':
            L.append('always @(posedge clk) o%d = %s;' % (k, t))
        elif c == 'nb':
            L.append('always @(posedge clk) o%d <= %s;' % (k, t))
        elif c == 'inst':
            subs.append('module sub_%d(input %s [%d:0] i, output %s [%d:0] o); assign o = i; endmodule' % (k, sg, tw - 1, sg, tw - 1))
            L.append('sub_%d u%d(.i(%s), .o(o%d));' % (k, k, t, k))
        elif c == 'func':
            L.append('function [%d:0] f%d(input dummy); begin f%d = %s; end endfunction' % (tw - 1, k, k, t))
            L.append('always @(posedge clk) o%d <= f%d(clk);' % (k, k))
    return '\n'.join(L) + '\nendmodule\n' + '\n'.join(subs) + '\n'


def run(case, ctx):
    rng = random.Random(case['vseed'])
    env = {k: tuple(x) for k, x in case['env'].items()}
    arrays = {k: (x[0], x[1], tuple(x[2])) for k, x in case['arrays'].items()}
    case = dict(case, env=env, arrays=arrays, exprs=[list(x) for x in case['exprs']])
    E = vexpr.Eval(env, arrays)
    for x in case['exprs']:
        if x[3] == 'inst':
            # simulators size port expressions differently: stay at or below self-determined width
            x[1] = min(x[1], E.ss(x[0])[0])
    m = build_design(case)
    code = m.to_verilog()
    vecs = [vexpr.corner_values(rng, env, arrays, i) for i in range(case['nvec'])]
    # array contents are only sampled by @* through their address, so an array
    # keeps one content for the whole run
    for vv in vecs[1:]:
        for n in arrays:
            vv[n] = vecs[0][n]
    tb = make_tb(case, vecs)
    r = iverilog(code + '\n' + tb, 'tb', ctx, reject_is_violation=False)
    if r.rc != 0:
        if 'ssertion' in r.err or 'assert:' in r.err or 'Aborted' in r.err:
            raise Inconclusive('simulator crash: ' + r.err[-200:])
        q = iverilog(reference(case) + '\n' + tb, 'tb', ctx, reject_is_violation=False)
        if q.rc != 0:
            raise Inconclusive('the simulator rejects the reference text as well: ' + q.err[-300:])
        raise Violation('rejected', 'emitted Verilog rejected by iverilog (the reference text of the same trees is '
                        'accepted):\n' + r.err[:1500], code=code)
    ref = None
    seen = 0
    for line in r.lines:
        if not line.startswith('R '):
            continue
        _, j, k, bits = line.split()
        j, k = int(j), int(k)
        e, tw, ts, c, sd = case['exprs'][k]
        seen += 1
        exp = E.assign(e, tw, vecs[j])
        if exp is None:
            ctx.ev('x_skipped')
            continue
        got = to_int(bits)
        ctx.ev('values_compared')
        if got != exp:
            # rule out a simulator peculiarity (e.g. widening of unsized constants): the same tree, printed
            # fully parenthesised by the oracle, must agree with the emitted one under the same simulator
            if ref is None:
                ref = {}
                q = iverilog(reference(case) + '\n' + tb, 'tb', ctx, reject_is_violation=False)
                for ln in q.lines:
                    if ln.startswith('R '):
                        f = ln.split()
                        ref[int(f[1]), int(f[2])] = f[3]
            if ref.get((j, k)) == bits:
                ctx.ev('simulator_peculiarity')
                continue
            raise Violation('value', 'expression %d (%s, %d bits) vector %d: tree value %s, emitted design gives %s\n'
                            'tree: %s\nvalues: %s' % (k, c, tw, j, bin(exp), bits, e, vecs[j]), code=code)
        if j == 2:
            for o in vexpr.ops(e):
                ctx.ev('op ' + o)
            ctx.sig(e)
    if seen != case['nvec'] * len(case['exprs']):
        raise Violation('silent', 'simulation produced %d of %d results' % (seen, case['nvec'] * len(case['exprs'])), code=code, out=r.out[-2000:])
    ctx.evaluations = seen
    if ctx.sample is None:
        ctx.sample = {'expr': case['exprs'][0][0], 'emitted': [l for l in code.splitlines() if 'o0' in l][-1:]}
