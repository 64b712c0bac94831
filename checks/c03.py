"""C03: procedural statements execute as written."""
import random
from vlib.harness import Violation, Inconclusive
from vlib import vexpr, vstmt
from vlib.sim import iverilog, to_int

PID = 'C03'
RULE = ('random statement programs (If/Elif/Else, PatternIf, Case/Casex with multi-label When and defaults, For, While, '
        'blocking and nonblocking assignment to signals/bits/slices/array words/concatenations, functions, tasks, '
        '$display) in clocked, combinational and initial blocks, run for 12-40 steps on random inputs; every register and '
        'array word is compared after every step with a direct interpreter; distinct by covered (statement path, branch)')
ASSUMPTIONS = ['Icarus Verilog executes IEEE-1364 procedural code correctly',
               'loops are generated bounded; x values are avoided by construction']
MIN_EVENTS = {'state_compares': 2000, 'branches_taken': 500, 'loop_iterations': 50, 'function_calls': 20, 'task_calls': 10}


def counts(tier):
    return 140 if tier == 'quick' else 5000


WID = [1, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 32, 33]


def gen(rng, i, tier):
    inputs = {'i%d' % k: (rng.choice(WID), rng.random() < 0.4) for k in range(rng.randrange(2, 5))}
    bv = {'b%d' % k: (rng.choice(WID), rng.random() < 0.4) for k in range(rng.randrange(1, 4))}
    nv = {'n%d' % k: (rng.choice(WID), rng.random() < 0.4) for k in range(rng.randrange(1, 4))}
    mode = rng.choice(['clk', 'clk', 'clk', 'clk', 'init', 'comb'])
    if mode != 'clk':
        nv = {}
    loops = {'k%d' % k: (32, True) for k in range(3)}
    arrays = {}
    if rng.random() < 0.5:
        arrays['mb'] = (rng.choice([1, 4, 8, 16]), rng.random() < 0.4, [rng.choice([2, 4, 5])])
    if rng.random() < 0.5 and mode == 'clk':
        arrays['mn'] = (rng.choice([4, 8, 16]), rng.random() < 0.4, rng.choice([[4], [3], [2, 3]]))
    env = dict(inputs)
    env.update(bv)
    env.update(nv)
    genv = dict(env)
    funcs, tasks = {}, {}
    for k in range(rng.choice([0, 1, 1, 2])):
        fi = [['fi%d_%d' % (k, j), rng.choice(WID), rng.random() < 0.3] for j in range(rng.randrange(1, 3))]
        fl = [['fl%d_%d' % (k, j), rng.choice(WID), False] for j in range(rng.randrange(0, 2))]
        fk = [['fk%d' % k, 32, True]]
        fname = 'f%d' % k
        fenv = {n: (w, g) for n, w, g in fi + fl}
        width = rng.choice([1, 4, 8, 16, 32])
        fenv[fname] = (width, False)
        g = vstmt.GenS(rng, fenv, {}, [n for n, w, g_ in fl] + [fname], [], [], [], ['fk%d' % k], [])
        g.funcs = None
        g.G.env = dict(fenv)
        g.G.env['fk%d' % k] = (32, True)
        g.G.E.env = g.G.env
        # function value and locals are written before being read
        pre = [['as', ['var', n], ['lit', 0, w, 10, False], True] for n, w in
               [(n, w) for n, w, g_ in fl] + [(fname, width)]]
        body = pre + strip(g.stmts(2, rng.randrange(1, 4)), ('disp',))
        # the function's own name is only written (reading it needs no declaration in Verilog, but the Python object is a Function)
        body = deread(body, fname, fi[0][0])
        funcs[fname] = {'width': width, 'inputs': fi, 'locals': fl + fk, 'body': body}
    for k in range(rng.choice([0, 0, 1])):
        if mode == 'comb':
            break
        ti = [['t%d_i%d' % (k, j), rng.choice(WID), rng.random() < 0.3] for j in range(rng.randrange(1, 3))]
        tenv = dict(genv)
        tenv.update({n: (w, g) for n, w, g in ti})
        g = vstmt.GenS(rng, tenv, arrays, sorted(bv), [], ['mb'] if 'mb' in arrays else [], [], [], [])
        tasks['t%d' % k] = {'inputs': ti, 'body': strip(g.stmts(2, 2), ('disp', 'for', 'while'))}
    env.update(loops)
    genv2 = dict(env)
    g = vstmt.GenS(rng, genv2, arrays, sorted(bv), sorted(nv), ['mb'] if 'mb' in arrays else [],
                   ['mn'] if 'mn' in arrays else [], sorted(loops), sorted(inputs), funcs, tasks)
    prog = g.stmts(rng.choice([2, 3, 3, 4]), rng.randrange(2, 6))
    if mode == 'comb':
        # a combinational block assigns every target first; no displays (extra delta evaluations are legal)
        pre = [['as', ['var', n], ['lit', 0, w, 10, False], True] for n, (w, s) in sorted(bv.items())]
        pre += [['as', ['var', n], ['lit', 0, w, 10, False], True] for n, (w, s) in sorted(loops.items())]
        # reads an input, so that @* has a trigger
        pre = [['as', ['var', sorted(bv)[0]], ['var', 'i0'], True]] + pre
        if 'mb' in arrays:
            pre += [['as', ['arr', 'mb', [['int', q]]], ['lit', 0, arrays['mb'][0], 10, False], True]
                    for q in range(arrays['mb'][2][0])]
        prog = pre + strip(prog, ('disp', 'call', 'task'))
        funcs, tasks = {}, {}
    return {'mode': mode, 'inputs': inputs, 'bv': bv, 'nv': nv, 'loops': loops, 'arrays': arrays, 'funcs': funcs,
            'tasks': tasks, 'prog': prog, 'seed': rng.getrandbits(32), 'steps': rng.choice([12, 25, 40])}


def clean(prog):
    """a loop needs a statement"""
    out = []
    for s in prog:
        s = list(s)
        if s[0] == 'if':
            s[2] = clean(s[2])
            s[3] = [[c, clean(b)] for c, b in s[3]]
            s[4] = None if s[4] is None else clean(s[4])
        elif s[0] == 'case':
            s[3] = [[l, clean(b)] for l, b in s[3]]
            s[4] = None if s[4] is None else clean(s[4])
        elif s[0] == 'for':
            s[6] = clean(s[6])
            if not s[6]:
                continue
        elif s[0] == 'while':
            s[2] = clean(s[2])
        out.append(s)
    return out


def strip(prog, kinds):
    return clean(strip1(prog, kinds))


def strip1(prog, kinds):
    out = []
    for s in prog:
        if s[0] in kinds:
            continue
        s = list(s)
        if s[0] == 'if':
            s[2] = strip1(s[2], kinds)
            s[3] = [[c, strip1(b, kinds)] for c, b in s[3]]
            s[4] = None if s[4] is None else strip1(s[4], kinds)
        elif s[0] == 'case':
            s[3] = [[l, strip1(b, kinds)] for l, b in s[3]]
            s[4] = None if s[4] is None else strip1(s[4], kinds)
        elif s[0] == 'for':
            s[6] = strip1(s[6], kinds)
        elif s[0] == 'while':
            s[2] = strip1(s[2], kinds)
        out.append(s)
    return out


def deread(n, name, other, top=True):
    """functions: the result variable is only assigned as a whole"""
    if isinstance(n, list):
        if n and n[0] == 'as':
            l = n[1]
            if l[0] != 'var' and name in repr(l):
                l = ['var', name]
            return ['as', l, sub(n[2], name, other), n[3]]
        if n and n[0] in ('if', 'while'):
            return [n[0], sub(n[1], name, other)] + [deread(x, name, other) for x in n[2:]]
        if n and n[0] == 'case':
            return [n[0], n[1], sub(n[2], name, other)] + [deread(x, name, other) for x in n[3:]]
        if n and n[0] in ('var', 'ptr', 'slice', 'pyidx', 'pyslice', 'bin', 'un', 'mux', 'cat', 'rep', 'sysf', 'andor',
                          'patmux', 'abs', 'sign', 'lit'):
            return sub(n, name, other)
        return [deread(x, name, other) for x in n]
    return n


def sub(n, name, other):
    if isinstance(n, list):
        if n and n[0] in ('var', 'ptr', 'slice', 'pyidx', 'pyslice') and n[1] == name:
            return ['var', other]
        if n and n[0] == 'ptr':
            return ['ptr', n[1], sub(n[2], name, other)]
        return [sub(x, name, other) for x in n]
    return n


def decl(n, w, s):
    return '%s %s %s' % ('signed' if s else '', '[%d:0]' % (w - 1) if w > 1 or s else '', n)


def reference(case, inputs, regs, loops, arrays, env):
    L = ['module dut(input clk' + ''.join(', input ' + decl(n, *inputs[n]) for n in sorted(inputs)) + ');']
    L += ['reg %s;' % decl(n, *regs[n]) for n in sorted(regs)]
    L += ['integer %s;' % n for n in sorted(loops)]
    for n, (w, s, dims) in sorted(arrays.items()):
        L.append('reg %s [%d:0] %s%s;' % ('signed' if s else '', w - 1, n, ''.join('[0:%d]' % (d - 1) for d in dims)))
    for fn, f in sorted(case['funcs'].items()):
        L.append('function [%d:0] %s;' % (f['width'] - 1, fn))
        L += ['input %s;' % decl(n, w, g) for n, w, g in f['inputs']]
        L += ['integer %s;' % n if n.startswith('fk') else 'reg %s;' % decl(n, w, g) for n, w, g in f['locals']]
        fe = {n: (w, g) for n, w, g in f['inputs'] + f['locals']}
        L.append('begin\n%s\nend endfunction' % vstmt.pt(f['body'], fe))
    for tn, t in sorted(case['tasks'].items()):
        L.append('task %s;' % tn)
        L += ['input %s;' % decl(n, w, g) for n, w, g in t['inputs']]
        L.append('begin\n%s\nend endtask' % vstmt.pt(t['body'], env))
    body = vstmt.pt(case['prog'], env)
    L.append({'clk': 'always @(posedge clk) begin\n%s\nend', 'comb': 'always @(*) begin\n%s\nend',
              'init': 'initial forever begin @(posedge clk);\n%s\nend'}[case['mode']] % body)
    return '\n'.join(L) + '\nendmodule\n'


def run(case, ctx):
    import veriloggen as vg
    import veriloggen.core.vtypes as v
    rng = random.Random(case['seed'])
    st = random.Random(case['seed'] + 1)
    style = lambda: st.random() < 0.5
    T = lambda d: {k: (x[0], bool(x[1])) for k, x in d.items()}
    inputs, bv, nv, loops = T(case['inputs']), T(case['bv']), T(case['nv']), T(case['loops'])
    arrays = {k: (x[0], bool(x[1]), tuple(x[2])) for k, x in case['arrays'].items()}
    mode = case['mode']
    m = vg.Module('dut')
    clk = m.Input('clk')
    sig = {}
    for n, (w, s) in sorted(inputs.items()):
        sig[n] = m.Input(n, w, signed=s) if w > 1 or s else m.Input(n)
    regs = {}
    regs.update(bv)
    regs.update(nv)
    for n, (w, s) in sorted(regs.items()):
        sig[n] = m.Reg(n, w, signed=s) if w > 1 or s else m.Reg(n)
    for n in sorted(loops):
        sig[n] = m.Integer(n)
    for n, (w, s, dims) in sorted(arrays.items()):
        sig[n] = m.Reg(n, w, dims=dims[0] if len(dims) == 1 else dims, signed=s)
    fo = {}
    for fn, f in sorted(case['funcs'].items()):
        o = m.Function(fn, f['width'])
        ls = {fn: o}
        for n, w, g in f['inputs']:
            ls[n] = o.Input(n, w, signed=g)
        for n, w, g in f['locals']:
            ls[n] = o.Integer(n) if n.startswith('fk') else o.Reg(n, w, signed=g)
        o.Body(*vstmt.build(f['body'], ls, vg, v, style))
        fo[fn] = o
    to = {}
    for tn, t in sorted(case['tasks'].items()):
        o = m.Task(tn)
        ls = dict(sig)
        for n, w, g in t['inputs']:
            ls[n] = o.Input(n, w, signed=g)
        o.Body(*vstmt.build(t['body'], ls, vg, v, style))
        to[tn] = o
    body = vstmt.build(case['prog'], sig, vg, v, style, fo, to)
    if mode == 'clk':
        m.Always(vg.Posedge(clk))(*body)
    elif mode == 'comb':
        m.Always()(*body)
    else:
        # one pass per step through an initial block waiting on the clock
        m.Initial(v.Forever(v.Event(v.Posedge(clk)), *body))
    code = m.to_verilog()

    env = {}
    for d in (inputs, regs, loops):
        env.update(d)
    for t in case['tasks'].values():
        for n, w, g in t['inputs']:
            env[n] = (w, g)
    I = vstmt.Interp(env, arrays, case['funcs'], case['tasks'])
    vals = {n: 0 for n in env}
    for n, (w, s, dims) in arrays.items():
        t = 1
        for d in dims:
            t *= d
        vals[n] = [0] * t
    L = ['module tb;', 'reg clk;']
    for n, (w, s) in sorted(inputs.items()):
        L.append('reg %s[%d:0] %s;' % ('signed ' if s else '', w - 1, n))
    L.append('dut u(%s);' % ', '.join('.%s(%s)' % (p, p) for p in ['clk'] + sorted(inputs)))
    L.append('initial begin clk=0;')
    words = []
    for n in sorted(regs):
        words.append((n, 'u.%s' % n))
    for n, (w, s, dims) in sorted(arrays.items()):
        for x in range(len(vals[n])):
            idx, y = [], x
            for d in reversed(dims):
                idx.insert(0, y % d)
                y //= d
            words.append(((n, x), 'u.%s%s' % (n, ''.join('[%d]' % q for q in idx))))
    if mode != 'comb':
        for k, p in words:
            L.append('%s = 0;' % p)
        for n in sorted(loops):
            L.append('u.%s = 0;' % n)
    L.append('#1;')
    exp = []
    for step in range(case['steps']):
        for n, (w, s) in sorted(inputs.items()):
            vals[n] = rng.choice([rng.getrandbits(w), rng.getrandbits(w), rng.getrandbits(min(w, 2)), (1 << w) - 1])
            L.append("%s = %d'h%x;" % (n, w, vals[n]))
        L.append('#1 clk=1; #1 clk=0; #1;')
        L.append('$display("R %d %s", %s);' % (step, ' '.join(['%b'] * len(words)), ', '.join(p for k, p in words)))
        I.run(case['prog'], vals)
        for o in I.out:
            exp.append(o)
        I.out = []
        exp.append('R %d %s' % (step, ' '.join(
            bin((vals[k] if isinstance(k, str) else vals[k[0]][k[1]]) | 1 << (regs[k][0] if isinstance(k, str) else arrays[k[0]][0]))[3:]
            for k, p in words)))
    L.append('$finish; end endmodule')
    r = iverilog(code + '\n' + '\n'.join(L), 'tb', ctx, reject_is_violation=False)
    if r.rc != 0:
        if 'ssertion' in r.err or 'assert:' in r.err or 'Aborted' in r.err or 'orry' in r.err or 'internal error' in r.err:
            raise Inconclusive('simulator limitation: ' + r.err[-200:])
        q = iverilog(reference(case, inputs, regs, loops, arrays, env) + '\n' + '\n'.join(L), 'tb', ctx, reject_is_violation=False)
        if q.rc != 0:
            raise Inconclusive('the simulator rejects the reference text as well: ' + q.err[-300:])
        raise Violation('rejected', 'emitted Verilog rejected by iverilog:\n' + r.err[:1500], code=code)
    got = [l for l in r.lines if l[:2] in ('R ', 'D ')]
    if got != exp:
        # the interpreter and the simulator disagree about something: the same program printed directly from the
        # tree decides whether it is the simulator (or the interpreter) or the emitted text
        q = iverilog(reference(case, inputs, regs, loops, arrays, env) + '\n' + '\n'.join(L), 'tb', ctx, reject_is_violation=False)
        ref = [l for l in q.lines if l[:2] in ('R ', 'D ')]
        if q.rc == 0 and ref == got:
            ctx.ev('simulator_peculiarity')
            exp = ref
    for j, e in enumerate(exp):
        g = got[j] if j < len(got) else '(nothing)'
        if g != e:
            raise Violation('state', 'step output %d: program semantics give\n  %s\nemitted design gives\n  %s\nwords %s' %
                            (j, e, g, [p for k, p in words]), code=code, got='\n'.join(got[max(0, j - 3):j + 3]), prog=repr(case['prog']))
        if e[0] == 'R':
            ctx.ev('state_compares', len(words))
        else:
            ctx.ev('display_lines')
    if len(got) != len(exp):
        raise Violation('extra', 'extra outputs %r' % got[len(exp):][:3], code=code)
    for k, c in I.cover.items():
        name = k[1]
        if len(k) > 1 and k[1] in ('if', 'else', 'case', 'default'):
            ctx.ev('branches_taken', c)
        if name in ('for', 'while') and len(k) > 2:
            ctx.ev('loop_iterations', c * k[2])
        if name == 'call':
            ctx.ev('function_calls', c)
        if name == 'task':
            ctx.ev('task_calls', c)
        ctx.sig(case['seed'], k)
    ctx.ev('mode ' + mode)
    ctx.evaluations = len(exp)
    ctx.sample = {'prog': repr(case['prog'])[:400], 'first_states': exp[:2]}
