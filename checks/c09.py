"""C09: thread functions: the hardware thread prints / returns / writes what CPython does on the same source"""
import ast
import importlib.util
import os
import sys
import veriloggen
import veriloggen.thread
from vlib.harness import Violation, Inconclusive
from vlib.sim import iverilog

PID = 'C09'
RULE = ('a case is a random program of the thread subset (functions, calls, loops, branches, break/continue/return, tuple and '
        'augmented assignment, prints) synthesised by Thread and simulated; its $display lines and final register values are '
        'compared, in order, with CPython executing the same source text on wrapping integers; distinct = program shape')
ASSUMPTIONS = ['iverilog simulates the emitted Verilog faithfully', 'CPython executes the source text as Python defines it',
               'integers wrap at the thread data width; // and % of negative operands by a divisor that is not a power of two are excluded (known finding); and/or/comparisons give 0/1']
MIN_EVENTS = {'prints': 400, 'returns': 20, 'reg_values': 50}
MAXCYC = 40000
MAXLINES = 2500


def counts(tier):
    return 550 if tier == 'quick' else 8000


# ---------------------------------------------------------------- oracle integers
class Discard(Exception):
    pass


def make_W(dw, floor=False):
    M = 1 << dw
    H = M >> 1

    def wrap(v):
        v = int(v) & (M - 1)
        return W(v - M if v >= H else v)

    class W(int):
        pass

    def bi(f):
        def op(a, b):
            if not isinstance(b, int):
                return NotImplemented
            return wrap(f(int(a), int(b)))

        def rop(a, b):
            return wrap(f(int(b), int(a)))
        return op, rop

    def tdiv(a, b):
        if b == 0 or (b == -1 and a == -H):
            raise Discard('division')
        q = abs(a) // abs(b)
        q = -q if (a < 0) != (b < 0) else q
        if not floor and q != a // b and (b <= 0 or b & (b - 1)):
            raise Discard('negative operand of a division')
        return a // b

    def tmod(a, b):
        tdiv(a, b)
        if a % b != abs(a) % abs(b) * (-1 if a < 0 else 1):
            raise Discard('negative operand of a remainder')
        return a % b

    def sh(f):
        def g(a, b):
            if not 0 <= b < 64:
                raise Discard('shift')
            return f(a, b)
        return g

    def pw(a, b):
        if not 0 <= b <= 8:
            raise Discard('pow')
        return a ** b
    for nm, f in [('add', lambda a, b: a + b), ('sub', lambda a, b: a - b), ('mul', lambda a, b: a * b),
                  ('and', lambda a, b: a & b), ('or', lambda a, b: a | b), ('xor', lambda a, b: a ^ b),
                  ('floordiv', tdiv), ('mod', tmod), ('lshift', sh(lambda a, b: a << b)),
                  ('rshift', sh(lambda a, b: a >> b)), ('pow', pw)]:
        o, r = bi(f)
        setattr(W, '__%s__' % nm, o)
        setattr(W, '__r%s__' % nm, r)
    W.__neg__ = lambda a: wrap(-int(a))
    W.__pos__ = lambda a: a
    W.__invert__ = lambda a: wrap(~int(a))
    W.__hash__ = int.__hash__
    return W, wrap


# ---------------------------------------------------------------- program text
def pe(e):
    k = e[0]
    if k == 'c':
        return str(e[1])
    if k == 'v':
        return e[1]
    if k == 'reg':
        return e[1] + ('.value' if e[2] else '')
    if k == 'b':
        return '(%s %s %s)' % (pe(e[2]), e[1], pe(e[3]))
    if k == 'u':
        return '(%s%s)' % (e[1], pe(e[2]))
    if k == 'call':
        return '%s(%s)' % (e[1], ', '.join([pe(a) for a in e[2]] + ['%s=%s' % (n, pe(a)) for n, a in e[3]]))
    if k == 'int':
        return 'int(%s)' % pe(e[1])
    if k == 'len':
        return 'len(%s)' % e[1]
    if k == 'ifx':
        return '(%s if %s else %s)' % (pe(e[2]), pe(e[1]), pe(e[3]))
    if k == 'cmp':
        s = pe(e[2][0])
        for o, x in zip(e[1], e[2][1:]):
            s += ' %s %s' % (o, pe(x))
        return '(%s)' % s
    if k in ('and', 'or'):
        return '(%s)' % (' %s ' % k).join(pe(x) for x in e[1])
    if k == 'not':
        return '(not %s)' % pe(e[1])
    if k == 'lit':
        return e[1]
    raise Inconclusive('bad expr %r' % (e,))


def pb(body, ind):
    L = []
    for s in body:
        L += ps(s, ind)
    if not body:
        L.append(ind + 'pass')
    return L


def ps(s, ind):
    k = s[0]
    if k == 'asg':
        return [ind + ' = '.join(s[1]) + ' = ' + pe(s[2])]
    if k == 'tup':
        return [ind + ', '.join(s[1]) + ' = ' + ', '.join(pe(x) for x in s[2])]
    if k == 'aug':
        return [ind + '%s %s= %s' % (s[2], s[1], pe(s[3]))]
    if k == 'if':
        L = []
        for i, (c, b) in enumerate(s[1]):
            L.append(ind + ('if ' if i == 0 else 'elif ') + pe(c) + ':')
            L += pb(b, ind + '    ')
        if s[2] is not None:
            L.append(ind + 'else:')
            L += pb(s[2], ind + '    ')
        return L
    if k == 'while':   # ['while', counter, test, body]; the counter is set before and bumped first
        return [ind + s[1] + ' = 0', ind + 'while ' + pe(s[2]) + ':', ind + '    %s += 1' % s[1]] + pb(s[3], ind + '    ')
    if k == 'for':
        return [ind + 'for %s in range(%s):' % (s[1], ', '.join(pe(a) for a in s[2]))] + pb(s[3], ind + '    ')
    if k == 'forl':
        it = s[2] if isinstance(s[2], str) else '[%s]' % ', '.join(pe(a) for a in s[2])
        return [ind + 'for %s in %s:' % (s[1], it)] + pb(s[3], ind + '    ')
    if k in ('break', 'continue', 'pass'):
        return [ind + k]
    if k == 'ret':
        return [ind + 'return' + ('' if s[1] is None else ' ' + pe(s[1]))]
    if k == 'print':
        if s[2] == 'f':
            return [ind + 'print(f"%s")' % ' '.join('a {%s}' % pe(x) for x in s[1])]
        if s[2] == '%':
            return [ind + 'print("%s" %% (%s,))' % (' '.join('p %d' for x in s[1]), ', '.join(pe(x) for x in s[1]))]
        if s[2] == 's':
            return [ind + 'print("s", %s)' % ', '.join(pe(x) for x in s[1])]
        return [ind + 'print(%s)' % ', '.join(pe(x) for x in s[1])]
    if k == 'expr':
        return [ind + pe(s[1])]
    if k == 'reg':
        return [ind + '%s.value = %s' % (s[1], pe(s[2]))]
    raise Inconclusive('bad stmt %r' % (s,))


def text(case):
    """-> source of a function top(m, clk, rst, vt, case) holding the whole program"""
    L = []
    for f in case['funcs']:
        if f.get('method'):
            continue
        ps_ = list(f['params'][:len(f['params']) - len(f['defaults'])])
        ps_ += ['%s=%s' % (p, d) for p, d in zip(f['params'][len(f['params']) - len(f['defaults']):], f['defaults'])]
        if f.get('vararg'):
            ps_.append('*' + f['vararg'])
        L.append('def %s(%s):' % (f['name'], ', '.join(ps_)))
        if f.get('doc'):
            L.append('    """ doc """')
        L += pb(f['body'], '    ')
        L.append('')
    L.append('class Obj(object):')
    L.append('    def __init__(self):')
    L.append('        self.k = 3')
    for f in case['funcs']:
        if not f.get('method'):
            continue
        ps_ = ['self'] + list(f['params'])
        L.append('    def %s(%s):' % (f['name'].split('.')[1], ', '.join(ps_)))
        L += pb(f['body'], '        ')
        L.append('')
    L.append('obj = Obj()')
    L.append('tbl = [%s]' % ', '.join(str(x) for x in case['tbl']))
    return L


class Gen:
    def __init__(self, rng, tier):
        self.r = rng
        self.tier = tier
        self.funcs = []
        self.n = 0

    def name(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def const(self):
        r = self.r
        return ['c', r.choice([0, 1, 2, 3, 5, 7, 8, 10, 100, r.randint(0, 255), r.randint(0, 70000), 2147483647, 65535])]

    # integer expressions; env.vars readable, env.calls allowed callee list
    def ie(self, env, d, calls=True, konst=True):
        """konst=False: no unsized constants, so that the width of the expression is the data width in every context"""
        r = self.r
        if not konst:
            x = r.random()
            if x < .15 and calls and self.callees(env):
                return self.call(env, d)
            if d <= 0 or x < .5:
                return ['v', r.choice(env['vars'])]
            if x < .9:
                return ['b', r.choice(['+', '-', '*', '&', '|', '^']), self.ie(env, d - 1, calls, False), self.ie(env, d - 1, calls, False)]
            return ['u', r.choice(['-', '~']), self.ie(env, d - 1, calls, False)]
        if d <= 0 or r.random() < .22:
            x = r.random()
            if x < .3:
                return self.const()
            if x < .36 and env['regs']:
                return ['reg', r.choice(env['regs']), r.random() < .5]
            if x < .38:
                return ['len', 'tbl']
            if x < .42 and env.get('self'):
                return ['lit', 'self.k']
            return ['v', r.choice(env['vars'])]
        x = r.random()
        if calls and x < .16 and self.callees(env):
            return self.call(env, d)
        if x < .55:
            op = r.choice(['+', '-', '*', '&', '|', '^', '+', '-'])
            a, b = self.ie(env, d - 1, calls), self.nc(env, d - 1, calls)
            return ['b', op] + ([a, b] if r.random() < .5 else [b, a])
        if x < .66:
            v = ['v', r.choice(env['vars'])]
            op = r.choice(['<<', '>>'])
            return ['b', op, self.nc(env, d - 1, calls) if op == '<<' else self.ie(env, d - 1, calls, False), ['c', r.randint(0, 31)] if r.random() < .6 else ['b', '&', v, ['c', 15]]]
        if x < .76:
            op = r.choice(['//', '%'])
            den = ['c', r.choice([1, 2, 3, 7, 10, 1000])] if r.random() < .5 else ['b', '|', ['v', r.choice(env['vars'])], ['c', 1]]
            return ['b', op, self.ie(env, d - 1, calls, False), den]
        if x < .80:
            return ['b', '**', ['v', r.choice(env['vars'])], ['c', r.randint(1, 3)]]
        if x < .89:
            return ['u', r.choice(['-', '~', '+']), self.nc(env, d - 1, calls)]
        if x < .92:
            return ['int', self.ie(env, d - 1, calls)]
        return ['ifx', self.be(env, d - 1, False), self.ie(env, d - 1, False), self.ie(env, d - 1, False)]

    def nc(self, env, d, calls):
        """an integer expression that is not a compile-time constant"""
        e = self.ie(env, d, calls)
        if not has_var(e):
            return ['b', self.r.choice(['+', '^', '-']), e, ['v', self.r.choice(env['vars'])]]
        return e

    def be(self, env, d, calls=True):
        r = self.r
        x = r.random()
        if d <= 0 or x < .5:
            n = 2 if r.random() < .8 else 3
            ops = [r.choice(['<', '<=', '>', '>=', '==', '!=']) for _ in range(n - 1)]
            xs = [self.ie(env, d - 1, calls and i < 2, False) for i in range(n)]
            if r.random() < .5:      # next to an unsized constant only plain variables have a fixed width
                xs = [x if x[0] in ('v', 'call') else ['v', r.choice(env['vars'])] for x in xs]
                xs[r.randrange(n)] = self.const()
            return ['cmp', ops, xs]
        if x < .68:
            return [r.choice(['and', 'or']), [self.be(env, d - 1, False) if r.random() < .7 else self.ie(env, d - 1, False, False)
                                              for _ in range(r.randint(2, 3))]]
        if x < .8:
            return ['not', self.be(env, d - 1, calls)]
        return self.ie(env, d - 1, calls, False)

    def callees(self, env):
        return [f for f in self.funcs if f['ret'] and env['depth'] + f['cost'] < 4]

    def call(self, env, d, f=None):
        r = self.r
        f = f or r.choice(self.callees(env))
        nreq = len(f['params']) - len(f['defaults'])
        npos = r.randint(0, len(f['params'])) if r.random() < .4 else r.randint(nreq, len(f['params']))
        args = [self.ie(env, d - 1, r.random() < .3) for _ in range(npos)]
        kws = []
        rest = f['params'][npos:]
        kwnames = [p for p in rest if p in f['params'][:nreq] or r.random() < .4]
        r.shuffle(kwnames)
        for p in kwnames:
            kws.append([p, self.ie(env, d - 1, False)])
        if f.get('vararg') and npos == len(f['params']):
            args += [self.ie(env, d - 1, False) for _ in range(r.randint(1, 3))]
        env['used'].add(f['name'])
        env['maxcost'] = max(env['maxcost'], f['cost'] + 1)
        return ['call', f['name'] if not f.get('method') else 'obj.' + f['name'].split('.')[1], args, kws]

    def block(self, env, d, n, loop):
        out = []
        for _ in range(n):
            out.append(self.stmt(env, d, loop))
        return out

    def stmt(self, env, d, loop):
        r = self.r
        x = r.random()
        wr = env['writable']
        if x < .26:
            e = self.ie(env, 3) if r.random() < .85 else self.be(env, 0)
            t = [r.choice(wr)]
            if r.random() < .1:
                t.append(r.choice(wr))
                t = sorted(set(t))
            return ['asg', t, e]
        if x < .33 and len(wr) >= 2:
            k = r.randint(2, min(3, len(wr)))
            return ['tup', r.sample(wr, k), [self.ie(env, 2) for _ in range(k)]]
        if x < .43:
            op = r.choice(['+', '-', '*', '&', '|', '^', '>>', '<<'])
            v = ['c', r.randint(0, 9)] if op in ('>>', '<<') else self.ie(env, 2)
            return ['aug', op, r.choice(wr), v]
        if x < .56:
            return ['print', [self.ie(env, 2, True, False) if r.random() < .8 else self.const() for _ in range(r.randint(1, 3))], r.choice(['', 'f', '%', 's'])]
        if x < .60 and env['wregs']:
            return ['reg', r.choice(env['wregs']), self.ie(env, 2)]
        if x < .64 and self.callees(env):
            return ['expr', self.call(env, 2)]
        if loop and x < .71:
            return ['if', [[self.be(env, 1), [] if r.random() < .5 else [self.stmt(env, 0, None)]] + [], ], None] \
                if r.random() < .1 else ['if', [[self.be(env, 2), ([self.stmt(env, 0, None)] if r.random() < .5 else [])
                                                + [[r.choice(['break', 'continue'])]]]], None]
        if x < .74 and env['ret']:
            return ['if', [[self.be(env, 2), ([self.stmt(env, 0, None)] if r.random() < .4 else []) +
                            [['ret', self.ie(env, 2)]]]], None]
        if d <= 0:
            return ['asg', [r.choice(wr)], self.ie(env, 2)]
        if x < .86:
            br = []
            for _ in range(1 if r.random() < .7 else r.randint(2, 3)):
                br.append([self.be(env, 2, not br), self.block(env, d - 1, r.randint(1, 3), loop)])
            els = self.block(env, d - 1, r.randint(1, 2), loop) if r.random() < .5 else None
            # a branch may end in a jump
            if loop and r.random() < .2:
                r.choice(br)[1].append([r.choice(['break', 'continue'])])
            return ['if', br, els]
        if x < .92:
            k = self.name('k')
            test = ['cmp', ['<'], [['v', k], ['c', r.randint(1, 4)]]]
            y = r.random()
            if y < .35:
                test = ['and', [test, self.be(env, 2, False)]]
            elif y < .6 and self.callees(env):
                # a call in the condition is evaluated on every iteration
                f = r.choice(self.callees(env))
                test = ['cmp', ['<'], [['b', '+', ['v', k], ['b', '&', self.call(env, 1, f), ['c', 1]]], ['c', r.randint(2, 4)]]]
            elif y < .7:
                test = ['lit', 'True']
            env2 = dict(env, vars=env['vars'] + [k])
            body = self.block(env2, d - 1, r.randint(1, 3), 'loop')
            env['used'] |= env2['used']
            env['maxcost'] = env2['maxcost']
            if test == ['lit', 'True']:
                body.append(['if', [[['cmp', ['>='], [['v', k], ['c', r.randint(1, 3)]]], [['break']]]], None])
                body = [b for b in body if not cont(b)]
                if any(cont(b) for b in body):
                    body = [['break']]
            return ['while', k, test, body]
        i = self.name('i')
        if r.random() < .25:
            elems = [self.const() for _ in range(r.randint(1, 3))] if r.random() < .7 else 'tbl'
            if not isinstance(elems, str) and r.random() < .4:
                elems[r.randrange(len(elems))] = ['v', i + 'z']     # replaced below by an untouched variable
                src = r.choice(env['params']) if env['params'] else None
                elems = [e if e[0] != 'v' else (['v', src] if src and src not in wr else ['c', 9]) for e in elems]
            if env.get('vararg') and r.random() < .6:
                elems = env['vararg']
            kind, arg = 'forl', elems
        else:
            kind = 'for'
            n = r.randint(0, 4)
            y = r.random()
            if y < .5:
                arg = [['c', n]]
            elif y < .62:
                arg = [['b', '&', ['v', r.choice(env['vars'])], ['c', 3]]]
            elif y < .75:
                a = r.randint(0, 5)
                arg = [['c', a], ['c', a + n]]
            elif y < .88:
                a = r.randint(0, 5)
                arg = [['c', a], ['c', a + n * 3 - r.randint(0, 2)], ['c', r.randint(1, 3)]]
            else:
                a = r.randint(0, 9)
                arg = [['c', a], ['c', r.choice([-1, 0, 2])], ['u', '-', ['c', r.randint(1, 3)]]]
        env2 = dict(env, vars=env['vars'] + [i])
        body = self.block(env2, d - 1, r.randint(1, 3), 'loop')
        env['used'] |= env2['used']
        env['maxcost'] = env2['maxcost']
        return [kind, i, arg, body]

    def func(self, name, params, ret, depth, method=False):
        r = self.r
        nl = r.randint(1, 3)
        locs = [self.name('x') for _ in range(nl)]
        # some parameters are never assigned
        wp = [p for p in params if r.random() < .5]
        va = 'va' if (ret and name != 'main' and not method and r.random() < .25) else None
        env = {'vars': params + locs, 'writable': wp + locs, 'params': params, 'regs': self.regs if name == 'main' else [],
               'wregs': self.regs if name == 'main' else [], 'ret': ret, 'depth': 0, 'used': set(), 'maxcost': 0, 'vararg': va,
               'self': method}
        body = [['asg', [x], ['c', r.randint(0, 50)] if (i == 0 and not params) or r.random() < .5 else
                 ['v', r.choice(params + locs[:i])]] for i, x in enumerate(locs)]
        if name == 'main':
            body += [['reg', x, self.const()] for x in self.regs]
        body += self.block(env, r.randint(1, 3) if name == 'main' else r.randint(0, 2), r.randint(2, 6) if name == 'main' else r.randint(1, 4), None)
        if va:
            x = self.name('i')
            body.append(['asg', [locs[0]], ['c', 1]])
            body.append(['forl', x, va, [['aug', '+', locs[0], ['v', x]]]])
        if ret:
            body.append(['ret', self.ie(env, 2)])
        nd = r.randint(0, len(params)) if (not method and name != 'main' and r.random() < .5 and not va) else 0
        return {'name': name, 'params': params, 'defaults': [r.randint(-5, 50) for _ in range(nd)], 'vararg': va, 'body': body,
                'ret': ret, 'cost': env['maxcost'], 'method': method, 'doc': r.random() < .2}

    def program(self):
        r = self.r
        self.regs = ['reg0', 'reg1'][:r.randint(0, 2)]
        tbl = [r.randint(-9, 99) for _ in range(r.randint(1, 3))]
        for i in range(r.choice([0, 1, 1, 2, 3])):
            meth = r.random() < .25
            nm = 'f%d' % i if not meth else 'Obj.f%d' % i
            ps_ = [self.name('p') for _ in range(r.randint(0 if meth else 0, 3))]
            if not ps_:
                ps_ = [self.name('p')]
            self.funcs.append(self.func(nm, ps_, True, 0, meth))
        np_ = r.randint(1, 3)
        main = self.func('main', [self.name('a') for _ in range(np_)], r.random() < .6, 0)
        self.funcs.append(main)
        for f in self.funcs:
            if f['name'] == 'main':
                f['vararg'] = None
        vals = []
        for _ in range(np_):
            vals.append(r.choice([0, 1, 5, -1, -7, r.randint(-100, 100), r.randint(-2 ** 31, 2 ** 31 - 1), 2 ** 31 - 1, -2 ** 31 + 1]))
        return {'funcs': self.funcs, 'tbl': tbl, 'regs': self.regs, 'args': vals, 'dw': 32 if r.random() < .8 else 64,
                'as_module': r.random() < .15, 'argregs': r.random() < .4}


def has_var(e):
    if isinstance(e, list):
        if e and e[0] in ('v', 'reg', 'call'):
            return True
        return any(has_var(x) for x in e)
    return False


def cont(s):
    if isinstance(s, list):
        if s and s[0] in ('while', 'for', 'forl'):
            return False
        if s == ['continue']:
            return True
        return any(cont(x) for x in s)
    return False


def isize(case):
    """size of the program after inlining"""
    sz = {}

    def walk(x):
        if isinstance(x, list):
            n = 1 + sum(walk(y) for y in x)
            if x and x[0] == 'call':
                n += sz.get(x[1], 0)
            return n
        return 0
    for f in case['funcs']:
        sz[f['name'].replace('Obj.', 'obj.')] = walk(f['body'])
    return sz.get('main', 0)


def gen(rng, i, tier):
    for _ in range(60):
        g = Gen(rng, tier)
        c = g.program()
        try:
            out, ret, regs, n = oracle(c)
        except (Discard, Inconclusive, RecursionError):
            continue
        if len(out) >= 1 and isize(c) < 1500 and n < (700 if tier == 'quick' else MAXLINES):
            return c
    return c


P = lambda *xs: ['print', list(xs), '']
V = lambda n: ['v', n]
C = lambda n: ['c', n]
LT = lambda a, b: ['cmp', ['<'], [a, b]]


def prog(body, funcs=(), args=(3,), params=('a',), **kw):
    fs = list(funcs) + [{'name': 'main', 'params': list(params), 'defaults': [], 'vararg': None, 'body': body, 'ret': False,
                         'cost': 0, 'method': False}]
    c = {'funcs': fs, 'tbl': [1, 2], 'regs': [], 'args': list(args), 'dw': 32, 'as_module': False, 'argregs': False}
    c.update(kw)
    return c


def fn(name, params, body, **kw):
    d = {'name': name, 'params': params, 'defaults': [], 'vararg': None, 'body': body, 'ret': True, 'cost': 0, 'method': False}
    d.update(kw)
    return d


def directed():
    D = []
    # a break / continue of an outer loop before a nested loop
    for j in ('break', 'continue'):
        for inner in (['for', 'j', [C(2)], [P(V('i'), V('j'))]],
                      ['while', 'k', LT(V('k'), C(2)), [P(V('i'), V('k'))]],
                      ['forl', 'j', [C(5), C(6)], [P(V('i'), V('j'))]]):
            for outer in ('for', 'while'):
                body = [['if', [[['cmp', ['=='], [V('i'), C(1)]], [[j]]]], None], inner, P(C(77), V('i'))]
                o = ['for', 'i', [C(4)], body] if outer == 'for' else ['while', 'i', LT(V('i'), C(4)), body]
                D.append(prog([o, P(C(99))]))
    # a condition with a call is evaluated on every iteration
    D.append(prog([['while', 'k', LT(['call', 'f', [V('k')], []], C(6)), [P(V('k'))]], P(C(99))],
                  [fn('f', ['x'], [P(C(55), V('x')), ['ret', ['b', '*', V('x'), C(2)]]])]))
    D.append(prog([['while', 'k', LT(['call', 'f', [V('k')], []], C(6)), [['if', [[['cmp', ['=='], [V('k'), C(2)]], [['continue']]]], None], P(V('k'))]], P(C(99))],
                  [fn('f', ['x'], [P(C(55), V('x')), ['ret', ['b', '*', V('x'), C(2)]]])]))
    # descending range; bounds and step from variables; bounds changed by the body; empty ranges
    for ra in ([C(5), C(0), ['u', '-', C(1)]], [C(9), ['u', '-', C(1)], ['u', '-', C(3)]], [C(3), C(5), ['u', '-', C(1)]],
               [V('a'), C(0), ['u', '-', C(2)]], [C(0), V('a')], [V('a'), ['b', '+', V('a'), C(3)]], [C(5), C(2)], [C(0), C(10), V('a')]):
        D.append(prog([['for', 'i', ra, [P(V('i'))]], P(C(99))], args=(3,)))
    D.append(prog([['asg', ['n'], V('a')], ['for', 'i', [V('n')], [['aug', '+', 'n', C(1)], P(V('i'), V('n'))]], P(V('n'))], args=(3,)))
    D.append(prog([['asg', ['n'], V('a')], ['for', 'i', [C(0), C(8), V('n')], [['aug', '+', 'n', C(1)], P(V('i'), V('n'))]], P(V('n'))], args=(2,)))
    D.append(prog([['asg', ['i'], V('a')], ['for', 'i', [V('i')], [P(V('i'))]], P(C(99))], args=(3,)))
    D.append(prog([['asg', ['n'], V('a')], ['forl', 'i', [V('n'), ['b', '+', V('n'), C(1)]], [['aug', '+', 'n', C(10)], P(V('i'), V('n'))]], P(V('n'))], args=(2,)))
    # return out of nested loops, both branches returning, call in return
    f = fn('f', ['x'], [['for', 'i', [C(5)], [['for', 'j', [C(5)], [['if', [[['cmp', ['=='], [['b', '+', V('i'), V('j')], V('x')]], [['ret', ['b', '+', ['b', '*', V('i'), C(10)], V('j')]]]]], None]]]]],
                        ['ret', ['u', '-', C(1)]]])
    D.append(prog([['for', 'i', [C(10)], [P(['call', 'f', [V('i')], []])]]], [f]))
    g = fn('g', ['x', 'y'], [['if', [[LT(V('x'), C(2)), [['ret', C(10)]]]], [['ret', C(20)]]], ['ret', C(30)]], defaults=[7])
    D.append(prog([P(['call', 'g', [C(1)], []], ['call', 'g', [V('a')], [['y', C(2)]]])], [g]))
    # bitwise complement: of a constant, and next to a logical operator
    D.append(prog([['asg', ['x'], ['u', '~', C(5)]], P(V('x')), P(['u', '~', C(5)])], dw=64))
    D.append(prog([['asg', ['x'], ['b', '-', V('a'), ['u', '~', C(5)]]], P(V('x'))], dw=64))
    for op in ('and', 'or'):
        D.append(prog([['if', [[[op, [V('a'), ['u', '~', V('a')]]], [P(C(1))]]], [P(C(0))]],
                       ['if', [[[op, [['u', '~', V('a')], V('a')]], [P(C(1))]]], [P(C(0))]],
                       ['if', [[[op, [V('a'), ['not', V('a')]]], [P(C(1))]]], [P(C(0))]]]))
    # a variable-length argument list may be empty
    f = fn('f', ['x'], [['asg', ['s'], V('x')], ['forl', 'v', 'va', [['aug', '+', 's', V('v')]]], ['ret', V('s')]], vararg='va')
    D.append(prog([P(['call', 'f', [V('a')], []], ['call', 'f', [V('a'), C(4)], []], ['call', 'f', [V('a'), V('a'), C(7)], []])], [f]))
    # known differences from Python, one directed case each (see known_findings.jsonl)
    D.append(dict(prog([['asg', ['i'], C(0)], ['for', 'i', [C(3)], [P(V('i'))]], P(V('i'))]), id='loop-variable-after-loop'))
    D.append(dict(prog([['for', 'i', [C(6)], [P(V('i')), ['aug', '+', 'i', C(1)]]], P(C(99))]), id='loop-variable-assigned-in-body'))
    D.append(dict(prog([['asg', ['x'], ['and', [['cmp', ['>'], [V('a'), C(5)]], ['cmp', ['>'], [['call', 'f', [V('a')], []], C(0)]]]]], P(C(99))],
                       [fn('f', ['x'], [P(C(55), V('x')), ['ret', C(1)]])]), id='short-circuit-call'))
    D.append(dict(prog([['asg', ['x'], ['ifx', ['cmp', ['>'], [V('a'), C(5)]], ['call', 'f', [V('a')], []], C(0)]], P(V('x'))],
                       [fn('f', ['x'], [P(C(55), V('x')), ['ret', C(1)]])]), id='conditional-expression-call'))
    D.append(dict(prog([['asg', ['x'], ['b', '//', ['b', '-', C(0), V('a')], C(2)]], P(V('x')), ['asg', ['x'], ['b', '//', ['b', '-', C(0), V('a')], C(3)]], P(V('x'))], args=(7,)), id='negative-division', floor=True))
    D.append(dict(prog([P(['b', '+', ['cmp', ['<'], [V('a'), C(5)]], ['u', '-', V('a')]])]), id='comparison-in-arithmetic'))
    return D


# ---------------------------------------------------------------- execution
class _Reg:
    def __init__(self):
        object.__setattr__(self, 'v', None)


def oracle(case):
    """-> (print lines, return value, register values, lines executed)"""
    dw = case['dw']
    W, wrap = make_W(dw, case.get('floor'))
    src = '\n'.join(text(case)) + '\n'
    try:
        tree = ast.parse(src)
    except SyntaxError as e:
        raise Inconclusive('bad program: %s' % e)

    class T(ast.NodeTransformer):
        def visit_Constant(self, n):
            if type(n.value) is int:
                return ast.copy_location(ast.Call(ast.Name('W__', ast.Load()), [n], []), n)
            return n

        def visit_Compare(self, n):
            self.generic_visit(n)
            return ast.copy_location(ast.Call(ast.Name('W__', ast.Load()), [n], []), n)

        def visit_UnaryOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Not):
                return ast.copy_location(ast.Call(ast.Name('W__', ast.Load()), [n], []), n)
            return n

        def visit_Subscript(self, n):
            return n

        def visit_JoinedStr(self, n):
            for v in n.values:
                if isinstance(v, ast.FormattedValue):
                    v.value = ast.copy_location(ast.Call(ast.Name('W__', ast.Load()), [self.visit(v.value)], []), v)
            return n
    tree = ast.fix_missing_locations(T().visit(tree))
    out = []
    nlines = [0]

    def num(x):
        return int(x)

    def pr(*args):
        s = []
        for a in args:
            if isinstance(a, str):
                s.append(a)
            elif isinstance(a, tuple):
                s += [str(num(x)) for x in a]
            else:
                s.append(str(num(a)))
        out.append(' '.join(' '.join(s).split()))

    def rng(*a):
        a = [int(x) for x in a]
        for v in range(*a):
            yield W(v)

    class R(int):
        pass

    class Reg(object):
        def __init__(self):
            self.value = W(0)
    env = {'print': pr, 'range': rng, 'W__': W, 'len': lambda x: W(len(x)), 'int': lambda x: W(x)}
    # registers are written through .value and read with or without it
    regs = {n: Reg() for n in case['regs']}
    for n in regs:
        env[n] = regs[n]

    class RT(ast.NodeTransformer):
        def visit_Attribute(self, n):
            if isinstance(n.value, ast.Name) and n.value.id in regs:
                return n
            self.generic_visit(n)
            return n

        def visit_Name(self, n):
            if n.id in regs:
                return ast.copy_location(ast.Attribute(n, 'value', ast.Load()), n)
            return n
    tree = ast.fix_missing_locations(RT().visit(tree))
    try:
        exec(compile(tree, '<oracle>', 'exec'), env)
    except Exception as e:
        raise Inconclusive('bad program %r' % e)

    def tr(frame, event, arg):
        if frame.f_code.co_filename != '<oracle>':
            return None
        if event == 'line':
            nlines[0] += 1
            if nlines[0] > MAXLINES:
                raise Discard('too long')
        return tr
    env['obj'].k = W(3)
    old = sys.gettrace()
    sys.settrace(tr)
    try:
        ret = env['main'](*[wrap(a) for a in case['args']])
    except (NameError, TypeError, UnboundLocalError, AttributeError) as e:
        raise Inconclusive('bad program %r' % e)
    finally:
        sys.settrace(old)
    rv = {}
    for n, x in regs.items():
        rv[n] = int(wrap(x.value))
    return out, (None if ret is None else int(wrap(ret))), rv, nlines[0]


def run(case, ctx):
    try:
        out, ret, rv, nl = oracle(case)
    except Discard as e:
        raise Inconclusive('discarded: %s' % e)
    L = ['import veriloggen as vg', 'import veriloggen.thread as vthread', 'def mk():',
         '    m = vg.Module("top")', '    clk = m.Input("CLK")', '    rst = m.Input("RST")']
    for n in case['regs']:
        L.append('    %s = m.Reg("%s", %d, signed=True, initval=0)' % (n, n, case['dw']))
    L += ['    ' + x if x else '' for x in text(case)]
    if case['argregs']:
        for i, a in enumerate(case['args']):
            L.append('    arg%d = m.Wire("arg%d", %d, signed=True)' % (i, i, case['dw']))
            L.append('    arg%d.assign(vg.Int(%d, width=%d, signed=True))' % (i, a, case['dw']) if False else
                     '    arg%d.assign(%d)' % (i, a))
        args = ['arg%d' % i for i in range(len(case['args']))]
    else:
        args = [str(a) for a in case['args']]
    L.append('    th = vthread.Thread(m, "th", clk, rst, main, datawidth=%d, fsm_as_module=%r)' % (case['dw'], case['as_module']))
    for f in case['funcs']:
        if not f.get('method') and f['name'] != 'main' and case['tbl'][0] % 2:
            L.append('    th.add_function(%s)' % f['name'])
    L.append('    fsm = th.start(%s)' % ', '.join(args))
    L.append('    return m, fsm, th')
    path = os.path.join(ctx.scratch, 'prog_.py')
    src = '\n'.join(L) + '\n'
    with open(path, 'w') as f:
        f.write(src)
    spec = importlib.util.spec_from_file_location('prog_', path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules['prog_'] = mod
    spec.loader.exec_module(mod)
    import veriloggen as vg
    m, fsm, th = mod.mk()
    done = m.Output('done_')
    done.assign(fsm.state == fsm.current)
    rvname = None
    if ret is not None and not case['as_module']:
        rvo = m.OutputReg('retv_', case['dw']) if False else m.Output('retv_', case['dw'])
        rvo.assign(th.return_value)
        rvname = 'retv_'
    outs = []
    for n in case['regs']:
        o = m.Output(n + '_o', case['dw'])
        o.assign(m.variable[n] if n in m.variable else m.get_vars()[n])
        outs.append(n + '_o')
    code = m.to_verilog()
    L = ['module tb__; reg CLK, RST; wire done_;', 'integer i__; integer f__;']
    ports = ['CLK', 'RST', 'done_']
    for n in outs + ([rvname] if rvname else []):
        L.append('wire signed [%d:0] %s;' % (case['dw'] - 1, n))
        ports.append(n)
    L.append('top dut(%s);' % ', '.join('.%s(%s)' % (p, p) for p in ports))
    L.append('initial begin CLK = 0; RST = 1; f__ = 0; #5 CLK=1; #5 CLK=0; #5 CLK=1; #5 CLK=0; RST = 0;')
    L.append('for (i__ = 0; i__ < %d && f__ < 3; i__ = i__ + 1) begin #5 CLK = 1; #5 CLK = 0; if (done_ === 1) f__ = f__ + 1; else f__ = 0; end' % MAXCYC)
    L.append('$display("@END %%0d %%0d%s", f__, i__%s);' % (' %0d' * (len(ports) - 3), ''.join(', ' + p for p in ports[3:])))
    L.append('$finish(0); end endmodule')
    r = iverilog(code + '\n' + '\n'.join(L), 'tb__', ctx)
    got = [' '.join(x.split()) for x in r.lines]
    end = [x for x in got if x.startswith('@END')]
    got = [x for x in got if not x.startswith('@END')]
    data = dict(program=src, expected='\n'.join(out), observed='\n'.join(got[:200]), code=code)
    for j, (x, y) in enumerate(zip(out, got)):
        if x != y:
            raise Violation('print', 'print #%d: Python prints %r, the thread prints %r\n%s' % (j, x, y, '\n'.join(text(case))), **data)
    if len(got) > len(out):
        raise Violation('extra', 'the thread prints %d more line(s) than Python: %r' % (len(got) - len(out), got[len(out):len(out) + 3]), **data)
    if not end:
        raise Inconclusive('simulation did not end: ' + r.out[-200:])
    f = end[0].split()
    if f[1] != '3':
        raise Violation('nontermination', 'Python terminates after %d lines; the thread is still running after %d cycles' % (nl, MAXCYC), **data)
    if len(got) < len(out):
        raise Violation('missing', 'the thread ends without printing %r' % out[len(got):len(got) + 3], **data)
    vals = f[3:]
    for n, v in zip(case['regs'], vals):
        if v != str(rv[n]):
            raise Violation('register', 'register %s ends with %s, Python gives %d' % (n, v, rv[n]), **data)
        ctx.ev('reg_values')
    if rvname:
        if vals[-1] != str(ret):
            raise Violation('return', 'return value %s, Python returns %d' % (vals[-1], ret), **data)
        ctx.ev('returns')
    ctx.ev('prints', len(out))
    ctx.ev('python_lines', nl)
    ctx.ev('cycles', int(f[2]))
    ctx.evaluations = len(out) + 1
    ctx.sig(shape(case['funcs']))
    if ctx.sample is None:
        ctx.sample = {'program': text(case)[:14], 'prints': out[:5]}


def shape(x):
    if isinstance(x, list):
        if x and isinstance(x[0], str):
            return (x[0],) + tuple(shape(y) for y in x[1:] if isinstance(y, list))
        return tuple(shape(y) for y in x if isinstance(y, (list, dict)))
    if isinstance(x, dict):
        return tuple(shape(x['body']))
    return None
