"""Statement programs, independent of veriloggen: generation, a direct
interpreter with Verilog scheduling (blocking now, nonblocking at the end of
the step, last write wins), and construction through veriloggen's API."""
from vlib import vexpr
from vlib.vexpr import mask, tosigned


def sized(n):
    """replace unsized Python ints by 32-bit signed literals (simulators may widen unsized ones)"""
    if isinstance(n, list):
        if n and n[0] == 'int':
            return ['lit', n[1], 32, 10, True] if n[1] >= 0 else ['lit', n[1], 32, None, True]
        if n and n[0] == 'rep':
            return ['rep', sized(n[1]), n[2]]
        if n and n[0] in ('pyidx', 'slice', 'pyslice', 'lit', 'var'):
            return n
        return [sized(x) for x in n]
    return n


def xfree(n, env):
    """no node of the tree can produce x"""
    if isinstance(n, list):
        if n and n[0] == 'bin' and n[1] in '/%' and not (n[3][0] == 'lit' and n[3][1] != 0):
            return False
        if n and n[0] == 'ptr' and not (n[2][0] in ('int', 'lit') and 0 <= n[2][1] < env[n[1]][0]):
            return False
        return all(xfree(x, env) for x in n)
    return True


class Interp:
    """env/arrays as in vexpr; kinds: name -> 'b' or 'n' is informative only"""

    def __init__(self, env, arrays, funcs=None, tasks=None):
        self.env, self.arrays = env, arrays
        self.E = vexpr.Eval(env, arrays)
        self.funcs, self.tasks = funcs or {}, tasks or {}
        self.cover = {}
        self.out = []
        self.steps = 0

    def hit(self, *k):
        self.cover[k] = self.cover.get(k, 0) + 1

    def lhs_width(self, l):
        k = l[0]
        if k == 'var':
            return self.env[l[1]][0]
        if k in ('ptr', 'arrbit'):
            return 1
        if k == 'slice':
            return l[2] - l[3] + 1
        if k == 'arr':
            return self.arrays[l[1]][0]
        if k == 'cat':
            return sum(self.lhs_width(x) for x in l[1])

    def resolve(self, l, vals):
        """-> list of (name, array index or None, low bit, width), LSB part first"""
        k = l[0]
        if k == 'var':
            return [(l[1], None, 0, self.env[l[1]][0])]
        if k == 'ptr':
            v, w, s = self.E.self_det(l[2], vals)
            if s:
                v = tosigned(v, w)
            return [(l[1], None, v, 1)]
        if k == 'slice':
            return [(l[1], None, l[3], l[2] - l[3] + 1)]
        if k in ('arr', 'arrbit'):
            w, s, dims = self.arrays[l[1]]
            off = 0
            for d, x in zip(dims, l[2]):
                i, iw, is_ = self.E.self_det(x, vals)
                if is_:
                    i = tosigned(i, iw)
                off = off * d + i
            if k == 'arr':
                return [(l[1], off, 0, w)]
            i, iw, is_ = self.E.self_det(l[3], vals)
            return [(l[1], off, i, 1)]
        if k == 'cat':
            r = []
            for x in reversed(l[1]):
                r += self.resolve(x, vals)
            return r

    def store(self, parts, v, vals):
        for name, idx, low, w in parts:
            m = mask(w) << low
            b = (v & mask(w)) << low
            if idx is None:
                vals[name] = vals[name] & ~m | b
            else:
                vals[name][idx] = vals[name][idx] & ~m | b
            v >>= w

    def run(self, prog, vals):
        nb = []
        self.block(prog, vals, nb, ())
        for parts, v in nb:
            self.store(parts, v, vals)

    def block(self, prog, vals, nb, path):
        for i, s in enumerate(prog):
            self.stmt(s, vals, nb, path + (i,))

    def stmt(self, s, vals, nb, path):
        self.steps += 1
        if self.steps > 20000:
            raise RuntimeError('reference program too long')
        k = s[0]
        self.hit(path, k)
        E = self.E
        if k == 'as':
            w = self.lhs_width(s[1])
            v = E.assign(s[2], w, vals)
            parts = self.resolve(s[1], vals)
            if s[3]:
                self.store(parts, v, vals)
            else:
                nb.append((parts, v))
        elif k == 'if':
            for j, (c, b) in enumerate([[s[1], s[2]]] + s[3]):
                if E.truth(c, vals):
                    self.hit(path, 'if', j)
                    return self.block(b, vals, nb, path + ('t', j))
            if s[4] is not None:
                self.hit(path, 'else')
                self.block(s[4], vals, nb, path + ('e',))
        elif k == 'case':
            # operands of a case are sized/signed together
            exprs = [s[2]] + [l for ls, b in s[3] for l in ls if l[0] != 'pat']
            szs = [E.ss(e) for e in exprs] + [(len(l[1]), False) for ls, b in s[3] for l in ls if l[0] == 'pat']
            W, S = max(w for w, g in szs), all(g for w, g in szs)
            cv = E.ev(s[2], W, S, vals)
            for j, (ls, b) in enumerate(s[3]):
                for l in ls:
                    if l[0] == 'pat':
                        p = ('x' if l[1][0] in 'xz' else '0') * (W - len(l[1])) + l[1]
                        ok = all(c in 'xz' or c == d for c, d in zip(p, bin(cv | 1 << W)[3:]))
                    else:
                        ok = E.ev(l, W, S, vals) == cv
                    if ok:
                        self.hit(path, 'case', j)
                        return self.block(b, vals, nb, path + ('c', j))
            if s[4] is not None:
                self.hit(path, 'default')
                self.block(s[4], vals, nb, path + ('d',))
        elif k == 'for':
            _, var, start, cmp, lim, step, body = s
            w, sg = self.env[var]
            vals[var] = E.assign(start, w, vals)
            n = 0
            while E.truth(['bin', cmp, ['var', var], lim], vals):
                self.block(body, vals, nb, path + ('f',))
                vals[var] = E.assign(['bin', '+', ['var', var], step], w, vals)
                n += 1
            self.hit(path, 'for', n)
        elif k == 'while':
            n = 0
            while E.truth(s[1], vals):
                self.block(s[2], vals, nb, path + ('w',))
                n += 1
            self.hit(path, 'while', n)
        elif k == 'call':
            _, lhs, fname, args, blk = s
            v = self.call(fname, args, vals, lhs)
            parts = self.resolve(lhs, vals)
            v = vexpr.ext(v, self.funcs[fname]['width'], self.lhs_width(lhs), False)
            if blk:
                self.store(parts, v, vals)
            else:
                nb.append((parts, v))
        elif k == 'task':
            t = self.tasks[s[1]]
            for (n, w, sg), a in zip(t['inputs'], s[2]):
                vals[n] = E.assign(a, w, vals)
            self.block(t['body'], vals, nb, ('T', s[1]))
        elif k == 'disp':
            vs = []
            for e in s[2]:
                v, w, g = E.self_det(e, vals)
                vs.append(bin(v | 1 << w)[3:])
            self.out.append('D %d %s' % (s[1], ' '.join(vs)))
        else:
            raise ValueError(k)

    def call(self, fname, args, vals, lhs):
        f = self.funcs[fname]
        env = {n: (w, g) for n, w, g in f['inputs'] + f['locals']}
        env[fname] = (f['width'], False)
        sub = Interp(env, {})
        lv = {n: 0 for n in env}
        for (n, w, g), a in zip(f['inputs'], args):
            lv[n] = self.E.assign(a, w, vals)
        sub.block(f['body'], lv, [], ('F', fname))
        for k, v in sub.cover.items():
            self.cover[k] = self.cover.get(k, 0) + v
        return lv[fname]


class GenS:
    GEN = vexpr.Gen
    PLAIN = False      # only case labels every simulator agrees about

    def __init__(self, rng, env, arrays, bvars, nvars, barr, narr, loopvars, inputs, funcs=None, tasks=None, depth=3):
        self.r = rng
        self.env, self.arrays = env, arrays
        self.bvars, self.nvars, self.barr, self.narr = bvars, nvars, barr, narr
        self.loopvars = list(loopvars)
        self.funcs, self.tasks = funcs or {}, tasks or {}
        self.G = self.GEN(rng, env, arrays, maxw=66)
        self.G.nosel = tuple(n for n in env if n[0] == 'k') + tuple(loopvars)
        self.ndisp = 0

    def expr(self, d=2):
        for _ in range(50):
            e = self.G.expr(d)
            if e[0] in ('int', 'pybool'):
                e = self.G.scalar()
            e = sized(e)
            if xfree(e, self.G.env):
                return e
        return self.G.scalar()

    def nonconst(self, d=2):
        for _ in range(20):
            e = self.expr(d)
            if e[0] != 'lit':
                return e
        return self.G.scalar()

    def lhs1(self, blk):
        R = self.r
        arrs = self.barr if blk else self.narr
        if arrs and R.random() < 0.2:
            n = R.choice(arrs)
            w, s, dims = self.arrays[n]
            idx = [(['int', R.randrange(q)] if R.random() < 0.4 else
                    ['bin', '%', ['var', R.choice(self.G.names)], ['lit', q, 8, 10, False]]) for q in dims]
            if R.random() < 0.25 and w > 1:
                return ['arrbit', n, idx, ['int', R.randrange(w)]]
            return ['arr', n, idx]
        n = R.choice(self.bvars if blk else self.nvars)
        w = self.env[n][0]
        x = R.random()
        if w > 1 and x < 0.15:
            a = R.randrange(w)
            return ['slice', n, a, R.randrange(a + 1)]
        if w > 1 and x < 0.25:
            return ['ptr', n, ['int', R.randrange(w)]]
        if w > 1 and x < 0.35:
            return ['ptr', n, ['bin', '%', ['var', R.choice(self.G.names)], ['lit', w, 8, 10, False]]]
        return ['var', n]

    def lhs(self, blk):
        if self.r.random() < 0.08:
            parts, used = [], set()
            for _ in range(self.r.randrange(2, 4)):
                l = self.lhs1(blk)
                if l[1] not in used and 'arr' not in l[0]:
                    used.add(l[1])
                    parts.append(l)
            if len(parts) > 1:
                return ['cat', parts]
        return self.lhs1(blk)

    def blk(self):
        if not self.nvars:
            return True
        if not self.bvars:
            return False
        return self.r.random() < 0.5

    def stmts(self, d, n=None):
        n = self.r.randrange(1, 4) if n is None else n
        return [self.stmt(d) for _ in range(n)]

    def stmt(self, d):
        R = self.r
        x = R.random()
        if d <= 0 or x < 0.35:
            b = self.blk()
            return ['as', self.lhs(b), self.expr(3), b]
        if x < 0.60:
            s = ['if', self.nonconst(), self.stmts(d - 1),
                 [[self.nonconst(), self.stmts(d - 1)] for _ in range(R.choice([0, 0, 1, 2]))],
                 self.stmts(d - 1) if R.random() < 0.6 else None]
            if R.random() < 0.15:
                s[2] = []
            return s
        if x < 0.75:
            kind = R.choice(['case', 'case', 'casex'])
            sel = self.nonconst(1)
            w, sg = self.G.E.ss(sel)
            whens = []
            for _ in range(R.randrange(1, 5)):
                ls = []
                for _ in range(R.choice([1, 1, 2, 3])):
                    if kind == 'casex' and R.random() < 0.7:
                        ls.append(['pat', ''.join(R.choice('01x') for _ in range(min(w, 6)))])
                        if not any(c in 'x' for c in ls[-1][1]):
                            ls[-1][1] = 'x' + ls[-1][1][1:]
                        if len(ls[-1][1]) < w:
                            ls[-1][1] = '0' * (w - len(ls[-1][1])) + ls[-1][1]
                    elif R.random() < 0.85 or kind == 'casex' and self.PLAIN:
                        ls.append(['lit', R.getrandbits(min(w, 2)), w, R.choice([2, 10, 16]), False])
                    else:
                        ls.append(self.G.scalar())
                whens.append([ls, self.stmts(d - 1)])
            return ['case', kind, sel, whens, self.stmts(d - 1) if R.random() < 0.6 else None]
        if x < 0.85 and self.loopvars:
            v = self.loopvars.pop()
            a, n, st = R.randrange(0, 4), R.randrange(0, 6), R.choice([1, 1, 2, 3])
            body = self.stmts(d - 1, R.randrange(1, 3))
            if R.random() < 0.7:
                s = ['for', v, ['lit', a, 32, 10, True], R.choice(['<', '<=', '!=' if st == 1 else '<']),
                     ['lit', a + n, 32, 10, True], ['lit', st, 32, 10, True], body]
            else:
                s = ['for', v, ['lit', a + n, 32, 10, True], '>', ['lit', a, 32, 10, True], ['lit', -st, 32, None, True], body]
            self.loopvars.append(v)
            return s
        if x < 0.90 and self.loopvars:
            v = self.loopvars.pop()
            body = self.stmts(d - 1, R.randrange(1, 3))
            cond = ['bin', '<', ['var', v], ['lit', R.randrange(0, 5), 32, 10, True]]
            if R.random() < 0.4:
                cond = ['bin', '&&', cond, self.nonconst(1)]
            self.loopvars.append(v)
            return ['if', ['lit', 1, 1, 2, False],
                    [['as', ['var', v], ['lit', 0, 32, 10, True], True],
                     ['while', cond, body + [['as', ['var', v], ['bin', '+', ['var', v], ['lit', 1, 32, 10, True]], True]]]],
                    [], None]
        if x < 0.94 and self.funcs:
            f = R.choice(sorted(self.funcs))
            b = self.blk()
            return ['call', self.lhs1(b), f, [self.expr(2) for _ in self.funcs[f]['inputs']], b]
        if x < 0.97 and self.tasks:
            t = R.choice(sorted(self.tasks))
            return ['task', t, [self.expr(2) for _ in self.tasks[t]['inputs']]]
        if x < 0.98 and self.funcs is not None:
            self.ndisp += 1
            return ['disp', self.ndisp, [['var', self.r.choice(self.G.names)] for _ in range(R.randrange(1, 3))]]
        b = self.blk()
        return ['as', self.lhs(b), self.expr(3), b]


def build(prog, sig, vg, v, style, funcs=None, tasks=None):
    E = lambda e: vexpr.build(e, sig, v, lambda n: style())
    out = []

    def lhs(l):
        if l[0] == 'cat':
            return v.Cat(*[lhs(x) for x in l[1]])
        return E(l)

    def assign(l, r, blk):
        t = lhs(l)
        if funcs is None and l[0] == 'var' and not hasattr(t, 'object_id'):
            return t(r)
        if type(t).__name__ == 'Function':
            return t(r) if style() else t.write(r)
        if style() and hasattr(t, 'write'):
            return t.write(r, blk=blk)
        if style() or not callable(t):
            return v.Subst(t, r, blk=blk)
        return t(r, blk=blk)

    def grow(node, body):
        """the body is given at once or in several steps"""
        body = list(body)
        if style() or not body:
            return node(*body)
        node.add(*body[:1])
        for st in body[1:]:
            node.add(st)
        return node

    for s in prog:
        k = s[0]
        B = lambda p: build(p, sig, vg, v, style, funcs, tasks)
        if k == 'as':
            out.append(assign(s[1], E(s[2]), s[3]))
        elif k == 'if':
            if style() and not s[3]:
                n = v.If(E(s[1]))(*B(s[2]))
                if s[4] is not None:
                    n = n(*B(s[4])) if style() else n.Else(*B(s[4]))
            elif style() and s[3]:
                pats = [(E(s[1]), tuple(B(s[2])))] + [(E(c), tuple(B(b))) for c, b in s[3]]
                if s[4] is not None:
                    pats.append((None, tuple(B(s[4]))))
                n = v.PatternIf(*pats) if style() else v.PatternIf(pats)
            else:
                n = v.If(E(s[1]))(*B(s[2]))
                for c, b in s[3]:
                    n = n.Elif(E(c))(*B(b))
                if s[4] is not None:
                    n = n.Else(*B(s[4]))
            out.append(n)
        elif k == 'case':
            whens = []
            for ls, b in s[3]:
                labels = [v.Int("%d'b%s" % (len(l[1]), l[1])) if l[0] == 'pat' else E(l) for l in ls]
                whens.append(grow(v.When(*labels), B(b)))
            if s[4] is not None:
                whens.append(grow(v.When() if style() else v.When(None), B(s[4])))
            cls = v.Case if s[1] == 'case' else v.Casex
            out.append(grow(cls(E(s[2])), whens))
        elif k == 'for':
            _, var, start, cmp, lim, step, body = s
            x = sig[var]
            f = v.For(x(E(start)), E(['bin', cmp, ['var', var], lim]), x(x + E(step)))
            out.append(grow(f, B(body)))
        elif k == 'while':
            out.append(grow(v.While(E(s[1])), B(s[2])))
        elif k == 'call':
            out.append(assign(s[1], funcs[s[2]].call(*[E(a) for a in s[3]]), s[4]))
        elif k == 'task':
            out.append(tasks[s[1]].call(*[E(a) for a in s[2]]))
        elif k == 'disp':
            out.append(v.Systask('display', 'D %d%s' % (s[1], ' %b' * len(s[2])), *[E(e) for e in s[2]]))
        else:
            raise ValueError(k)
    return out


# ----------------------------------------------------- reference text
def pt(prog, env):
    """the program as fully bracketed Verilog, printed directly from the tree"""
    P = lambda e: vexpr.pv(e, env)

    def lhs(l):
        return '{%s}' % ', '.join(lhs(x) for x in l[1]) if l[0] == 'cat' else P(l)
    o = []
    for s in prog:
        k = s[0]
        if k == 'as':
            o.append('%s %s %s;' % (lhs(s[1]), '=' if s[3] else '<=', P(s[2])))
        elif k == 'if':
            t = 'if (%s) begin\n%s\nend' % (P(s[1]), pt(s[2], env))
            for c, b in s[3]:
                t += ' else begin if (%s) begin\n%s\nend' % (P(c), pt(b, env))
            if s[4] is not None:
                t += ' else begin\n%s\nend' % pt(s[4], env)
            o.append(t + ' end' * len(s[3]))
        elif k == 'case':
            t = '%s (%s)\n' % (s[1], P(s[2]))
            for ls, b in s[3]:
                t += ', '.join("%d'b%s" % (len(l[1]), l[1]) if l[0] == 'pat' else P(l) for l in ls)
                t += ': begin\n%s\nend\n' % pt(b, env)
            if s[4] is not None:
                t += 'default: begin\n%s\nend\n' % pt(s[4], env)
            o.append(t + 'endcase')
        elif k == 'for':
            _, var, start, cmp, lim, step, body = s
            o.append('for (%s = %s; %s %s %s; %s = %s + %s) begin\n%s\nend' %
                     (var, P(start), var, cmp, P(lim), var, var, P(step), pt(body, env)))
        elif k == 'while':
            o.append('while (%s) begin\n%s\nend' % (P(s[1]), pt(s[2], env)))
        elif k == 'call':
            o.append('%s %s %s(%s);' % (lhs(s[1]), '=' if s[4] else '<=', s[2], ', '.join(P(a) for a in s[3])))
        elif k == 'task':
            o.append('%s(%s);' % (s[1], ', '.join(P(a) for a in s[2])))
        elif k == 'disp':
            o.append('$display("D %d%s", %s);' % (s[1], ' %b' * len(s[2]), ', '.join(P(e) for e in s[2])))
        else:
            raise ValueError(k)
    return '\n'.join(o)
