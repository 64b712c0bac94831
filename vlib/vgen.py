"""Random synthesizable-plus Verilog sources inside the subset of the installed parser (for the import check)."""
import collections


class Sig:
    __slots__ = ('name', 'msb', 'lsb', 'signed', 'mem')

    def __init__(self, name, msb, lsb, signed=False, mem=None):
        self.name, self.msb, self.lsb, self.signed, self.mem = name, msb, lsb, signed, mem

    @property
    def width(self):
        return abs(self.msb - self.lsb) + 1


class Gen:
    def __init__(self, rng, reginit=True):
        self.r = rng
        self.sv = rng.random() < .06
        self.reginit = reginit      # (the parser's own text writer, used for stubs, loses it)
        self.used = set()
        self.count = collections.Counter()
        self.n = 0
        self.leaves = []
        self.defs = []

    def u(self, *k):
        self.used.add(':'.join(k))

    def fresh(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    # ---- expressions
    def lit(self, nox=True):
        r = self.r
        x = r.random()
        if x < .3:
            self.u('lit', 'plain')
            return str(r.choice([0, 1, 2, 3, 5, 7, 10, 255, 1000]))
        w = r.choice([1, 2, 3, 4, 7, 8, 9, 16, 24, 32])
        v = r.choice([0, 1, (1 << w) - 1, 1 << (w - 1), r.getrandbits(w), r.getrandbits(w)])
        b = r.choice('bodh')
        s = r.choice(['', '', '', 's'])
        t = {'b': '{:b}', 'o': '{:o}', 'd': '{:d}', 'h': '{:x}'}[b].format(v)
        if len(t) > 2 and r.random() < .3:
            t = t[:-2] + '_' + t[-2:]
        if b == 'h' and r.random() < .3:
            t = t.upper()
        size = '' if r.random() < .15 and v < 1 << 31 else str(w)
        self.u('lit', b, s, 'sized' if size else 'unsized')
        return "%s'%s%s%s" % (size, s, b.upper() if r.random() < .1 else b, t)

    def leaf(self, E):
        r = self.r
        x = r.random()
        if x < .15 or not E:
            return self.lit()
        s = r.choice(E)
        if isinstance(s, str):
            return s
        if s.mem:
            self.u('mem', 'read')
            lo, hi = sorted(s.mem)
            i = r.choice([str(r.randint(lo, hi)), self.idx(E, lo, hi)])
            base = '%s[%s]' % (s.name, i)
            if s.width > 2 and r.random() < .0:      # (a part select of a memory word is rejected by the library)
                self.u('mem', 'bits')
                return base + self.sel(s)
            return base
        y = r.random()
        if y < .6 or s.width == 1:
            return s.name
        if y < .8:
            self.u('select')
            return s.name + self.sel(s)
        self.u('dynbit')
        return '%s[%s]' % (s.name, self.idx(E, min(s.msb, s.lsb), max(s.msb, s.lsb)))

    def idx(self, E, lo, hi):
        c = [s for s in E if isinstance(s, Sig) and not s.mem and min(s.msb, s.lsb) == 0 and s.lsb == 0]
        if not c:
            return str(lo)
        s = self.r.choice(c)
        k = max(1, (hi - lo + 1).bit_length() - 1)
        k = min(k, s.width)
        t = s.name if s.width <= k else '%s[%d:0]' % (s.name, k - 1) if k > 1 else '%s[0]' % s.name
        return t if lo == 0 else '%s + %d' % (t, lo)

    def sel(self, s):
        r = self.r
        a, b = r.randint(min(s.msb, s.lsb), max(s.msb, s.lsb)), r.randint(min(s.msb, s.lsb), max(s.msb, s.lsb))
        if r.random() < .4:
            return '[%d]' % a
        a, b = max(a, b), min(a, b)
        if s.msb < s.lsb:
            a, b = b, a
            self.u('ascending-select')
        return '[%d:%d]' % (a, b)

    def expr(self, E, d=3):
        r = self.r
        if d == 0 or r.random() < .15:
            return self.leaf(E)
        x = r.random()
        if x < .14:
            op = r.choice(['-', '~', '!', '&', '|', '^', '~&', '~|', '~^', '+'])
            self.u('unary', op)
            e = self.expr(E, d - 1)
            return '%s(%s)' % (op, e) if r.random() < .7 else '(%s%s)' % (op, e if e[0].isalnum() else '(' + e + ')')
        if x < .66:
            op = r.choice(['+', '-', '*', '/', '%', '<<', '>>', '>>>', '<', '>', '<=', '>=', '==', '!=', '===', '!==', '&', '|', '^', '~^', '&&', '||', '+', '-', '&', '|', '**'])
            self.u('binary', op)
            a, b = self.expr(E, d - 1), self.expr(E, d - 1)
            if op == '**':
                b = str(r.randint(0, 3))
            if op in ('<<', '>>', '>>>') and r.random() < .6:
                b = str(r.randint(0, 9))
            if op in ('/', '%'):
                b = '((%s) | 1)' % b
            return '(%s %s %s)' % (a, op, b)
        if x < .74:
            self.u('cond')
            return '((%s)? %s : %s)' % (self.expr(E, d - 1), self.expr(E, d - 1), self.expr(E, d - 1))
        if x < .84:
            self.u('concat')
            n = r.choice([1, 2, 2, 3, 4])
            return '{ %s }' % ', '.join(self.sized(E, d - 1) for _ in range(n))
        if x < .9:
            self.u('repeat')
            return '{ %s{ %s } }' % (r.choice(['1', '2', '3', "2'd3"] + self.ints), self.sized(E, d - 1))
        if x < .95:
            self.u('signcast')
            return '$%s(%s)' % (r.choice(['signed', 'unsigned']), self.expr(E, d - 1))
        if self.funcs:
            self.u('call')
            self.count['function_calls'] += 1
            f, n = r.choice(self.funcs)
            return '%s(%s)' % (f, ', '.join(self.expr(E, d - 1) for _ in range(n)))
        return self.leaf(E)

    def sized(self, E, d):
        """an operand that has a definite size (unsized constants are illegal in concatenations)"""
        c = [s for s in E if isinstance(s, Sig)]
        r = self.r
        if not c or r.random() < .2:
            w = r.choice([1, 3, 8])
            return "%d'd%d" % (w, r.getrandbits(w))
        if r.random() < .25 and d > 0:
            return '(%s %s %s)' % (self.leaf(c), r.choice(['<', '==', '&&', '>=']), self.leaf(E))
        if r.random() < .15:
            return '~%s' % r.choice([x for x in c if not x.mem] or [Sig("1'b1", 0, 0)]).name
        s = r.choice(c)
        if s.mem:
            return '%s[%d]' % (s.name, r.choice(s.mem))
        return s.name if r.random() < .6 or s.width == 1 else s.name + self.sel(s)

    # ---- statements
    def block(self, L, ind):
        r = self.r
        p = ' ' * ind
        if len(L) == 1 and r.random() < .5 and not L[0].lstrip().startswith('if'):
            return '\n' + L[0]
        nm = ' : ' + self.fresh('blk') if r.random() < .1 else ''
        if nm:
            self.u('named-block')
        return ' begin%s\n%s\n%send' % (nm, '\n'.join(L), p)

    def target(self, s, E):
        r = self.r
        if s.mem:
            self.u('mem', 'write')
            lo, hi = sorted(s.mem)
            return '%s[%s]' % (s.name, self.idx(E, lo, hi))
        x = r.random()
        if x < .65 or s.width == 1:
            return s.name
        if x < .85:
            self.u('target-select')
            return s.name + self.sel(s)
        self.u('target-dynbit')
        return '%s[%s]' % (s.name, self.idx(E, min(s.msb, s.lsb), max(s.msb, s.lsb)))

    def assign(self, T, E, op, ind):
        r = self.r
        p = ' ' * ind
        if len(T) > 1 and r.random() < .1 and op == '<=':
            c = [s for s in T if not s.mem]
            if len(c) > 1:
                a, b = r.sample(c, 2)
                self.u('target-concat')
                return '%s{ %s, %s } %s %s;' % (p, a.name, b.name + (self.sel(b) if b.width > 1 and r.random() < .4 else ''), op, self.expr(E, 2))
        s = r.choice(T)
        dl = ''
        if op == '<=' and r.random() < .06:
            dl = '#1 '
            self.u('intra-delay')
        return '%s%s %s %s%s;' % (p, self.target(s, E), op, dl, self.expr(E, 2))

    def stmts(self, T, E, op, ind, d, n=None):
        r = self.r
        L = []
        for _ in range(n or r.choice([1, 1, 2, 3])):
            x = r.random()
            p = ' ' * ind
            if d == 0 or x < .4:
                L.append(self.assign(T, E, op, ind))
            elif x < .65:
                self.u('if')
                t = '%sif(%s)%s' % (p, self.expr(E, 2), self.block(self.stmts(T, E, op, ind + 2, d - 1), ind))
                k = r.choice([0, 0, 1, 2])
                for _q in range(k):
                    self.u('elif')
                    t += '\n%selse if(%s)%s' % (p, self.expr(E, 2), self.block(self.stmts(T, E, op, ind + 2, d - 1), ind))
                if r.random() < .6:
                    self.u('else')
                    t += '\n%selse%s' % (p, self.block(self.stmts(T, E, op, ind + 2, d - 1), ind))
                L.append(t)
            elif x < .88:
                L.append(self.case(T, E, op, ind, d))
            elif self.loopvars:
                L.append(self.loop(T, E, op, ind, d))
            else:
                L.append(self.assign(T, E, op, ind))
        return L

    def case(self, T, E, op, ind, d):
        r = self.r
        p = ' ' * ind
        kind = r.choice(['case', 'case', 'casex'])       # casez is not supported by the library
        self.u(kind)
        self.count['cases'] += 1
        w = r.choice([2, 3])
        t = '%s%s(%s)\n' % (p, kind, self.idx([s for s in E if isinstance(s, Sig)], 0, (1 << w) - 1))
        seen = set()
        for _ in range(r.randint(1, 4)):
            labels = []
            for _q in range(r.choice([1, 1, 2])):
                v = r.getrandbits(w)
                if kind == 'case' and v in seen:
                    continue
                seen.add(v)
                b = format(v, '0%db' % w)
                if kind != 'case' and r.random() < .5:
                    k = r.randrange(w)
                    b = b[:k] + ('?' if kind == 'casez' else r.choice('x?z')) + b[k + 1:]
                    if not any(c in b for c in '01'):
                        b = '1' + b[1:]
                    self.u(kind, 'wild')
                    labels.append("%d'b%s" % (w, b))
                elif r.random() < .5:
                    labels.append("%d'b%s" % (w, b))
                else:
                    labels.append(r.choice(['%d' % v, "%d'd%d" % (w, v), "%d'h%x" % (w, v)]))
            if labels:
                if len(labels) > 1:
                    self.u('multi-label')
                t += '%s  %s:%s\n' % (p, ', '.join(labels), self.block(self.stmts(T, E, op, ind + 4, d - 1, r.choice([1, 1, 2])), ind + 2))
        if not seen or r.random() < .7:
            self.u('default')
            t += '%s  default:%s\n' % (p, self.block(self.stmts(T, E, op, ind + 4, d - 1, 1), ind + 2))
        return t + p + 'endcase'

    def loop(self, T, E, op, ind, d):
        r = self.r
        p = ' ' * ind
        if not self.loopvars:
            return self.assign(T, E, op, ind)
        v = self.loopvars.pop()
        n = r.randint(1, 4)
        self.count['loops'] += 1
        mem = [s for s in T if s.mem]
        c = [s for s in T if not s.mem and s.width >= max(n, 2)]
        if mem and r.random() < .6:
            s = r.choice(mem)
            lo, hi = sorted(s.mem)
            self.u('for-mem')
            body = ['%s  %s[%s] %s %s + %s;' % (p, s.name, v, op, v, self.leaf(E))]
            lim = (lo, hi + 1)
        elif c:
            s = r.choice(c)
            lo = min(s.msb, s.lsb)
            self.u('for-bit')
            body = ['%s  %s[%s] %s %s;' % (p, s.name, v, op, self.expr(E, 1))]
            if r.random() < .4:
                body.append('%s  if(%s == %d)%s' % (p, v, lo, self.block([self.assign([s], E, op, ind + 4)], ind + 2)))
            lim = (lo, lo + n)
        else:
            self.loopvars.append(v)
            return self.assign(T, E, op, ind)
        if r.random() < .75:
            self.u('for')
            t = '%sfor(%s = %d; %s < %d; %s = %s + 1)%s' % (p, v, lim[0], v, lim[1], v, v, self.block(body, ind))
        else:
            self.u('while')
            t = '%sbegin %s = %d;\n%swhile(%s < %d) begin\n%s\n%s  %s = %s + 1;\n%send end' % (p, v, lim[0], p, v, lim[1], '\n'.join(body), p, v, v, p)
        self.loopvars.append(v)
        return t

    # ---- modules
    def rng_text(self, s, P, raw=None):
        if raw:
            return '[%s] ' % raw
        if s.width == 1 and s.msb == 0 and self.r.random() < .9:
            return ''
        return '[%d:%d] ' % (s.msb, s.lsb)

    def newsig(self, name, E=None, asc=True):
        r = self.r
        w = r.choice([1, 1, 2, 3, 4, 5, 8, 8, 12, 16, 17, 32])
        lsb = r.choice([0, 0, 0, 0, 1, 4]) if w > 1 else 0
        msb = lsb + w - 1
        if asc and w > 1 and r.random() < .12:
            self.u('ascending-range')
            msb, lsb = lsb, msb
        if lsb and msb:
            self.u('offset-range')
        s = Sig(name, msb, lsb, r.random() < .25)
        if s.signed:
            self.u('signed')
        return s

    def module(self, name, top):
        r = self.r
        self.ints = []
        self.funcs = []
        self.loopvars = []
        items, heads = [], []
        params = []
        for _ in range(r.choice([0, 1, 2, 2]) if not top else r.choice([0, 1, 2])):
            pn = self.fresh('P')
            v = r.randint(1, 4)
            sg = r.choice(['', '', 'signed ', '[3:0] ', 'signed [4:0] '])
            if sg in ('[3:0] ',):
                self.u('param-width')
            params.append((pn, v, sg))
            self.ints.append(pn)
        bodyparams = []
        if params and r.random() < .3 and not self.nobodyparam:
            self.u('body-parameter')
            bodyparams, params = params, []
        P = params + bodyparams
        E = [p for p, _, _ in P]
        # ports
        ports = []   # (dir, Sig, isreg, raw)
        ins, outs = [], []
        for k in range(r.choice([1, 2, 3])):
            s = self.newsig(self.fresh('i'), asc=True)
            raw = None
            if P and not top and r.random() < .3:
                pn, v, _ = r.choice(P)
                s.lsb, s.msb = 0, v - 1
                raw = r.choice(['%s-1:0', '%s - 1:0'] + (['%s*2-1:0'] if 1 else [])) % pn
                if '*2' in raw:
                    s.msb = v * 2 - 1
                self.u('param-range')
                s = Sig(s.name, 0, 0, s.signed)      # (width depends on the instance: use whole or bit 0 only)
            ins.append((s, raw))
        for k in range(r.choice([1, 2, 3])):
            s = self.newsig(self.fresh('o'))
            raw = None
            if P and not top and r.random() < .3:
                pn, v, _ = r.choice(P)
                raw = '%s-1:0' % pn
                s = Sig(s.name, 0, 0, s.signed)
                self.u('param-range')
            outs.append((s, raw, r.random() < .5))
        E += [s for s, _ in ins]
        seq_needed = True
        decls, bodies = [], []
        # localparams
        for _ in range(r.choice([0, 0, 1, 2])):
            n = self.fresh('L')
            v = self.lit() if r.random() < .4 or not P else '%s %s %s' % (r.choice(P)[0], r.choice('+*-'), r.randint(1, 3))
            decls.append('  localparam %s%s = %s;' % (r.choice(['', '', '[7:0] ', 'signed ', 'signed [7:0] ']), n, v))
            self.u('localparam')
            E.append(n)
        # functions
        for _ in range(r.choice([0, 0, 1])):
            decls.append(self.function())
        # internal wires with continuous assigns
        for _ in range(r.choice([0, 1, 2])):
            s = self.newsig(self.fresh('w'))
            sg = 'signed ' if s.signed else ''
            if r.random() < .4:
                self.u('decl-assign')
                bodies.append('  wire %s%s%s = %s;' % (sg, self.rng_text(s, P), s.name, self.expr(E)))
            else:
                decls.append('  wire %s%s%s;' % (sg, self.rng_text(s, P), s.name))
                if s.width > 2 and r.random() < .3:
                    k = r.randint(1, s.width - 1)
                    lo, hi = min(s.msb, s.lsb), max(s.msb, s.lsb)
                    f = (lambda a, b: '[%d:%d]' % (a, b)) if s.msb > s.lsb else (lambda a, b: '[%d:%d]' % (b, a))
                    bodies.append('  assign %s%s = %s;\n  assign %s%s = %s;' % (s.name, f(hi, lo + k), self.expr(E), s.name, f(lo + k - 1, lo), self.expr(E)))
                    self.u('assign-parts')
                else:
                    bodies.append('  assign %s%s = %s;' % (r.choice(['', '', '', '#0 ']) if 0 else '', s.name, self.expr(E)))
            E.append(s)
        # instances of leaves
        for _ in range(r.choice([0, 1, 1, 2]) if self.leaves else 0):
            b, news = self.instance(E, P)
            decls += b[0]
            bodies.append(b[1])
            E += news
        # registers
        regs = []
        for _ in range(r.choice([1, 2, 3])):
            s = self.newsig(self.fresh('r'))
            regs.append(s)
        mems = []
        if r.random() < .4:
            lo = r.choice([0, 0, 0, 1, 2])
            n = r.choice([2, 4, 4, 8])
            m = self.newsig(self.fresh('mem'), asc=False)
            m.signed = False
            m.mem = [lo, lo + n - 1]
            self.u('memory')
            self.count['memories'] += 1
            mems.append(m)
            d = (lo, lo + n - 1) if r.random() < .6 else (lo + n - 1, lo)
            decls.append('  reg %s%s [%d:%d];' % (self.rng_text(m, P), m.name, d[0], d[1]))
        same = {}
        for s in regs:
            same.setdefault((s.msb, s.lsb, s.signed), []).append(s)
        for L in same.values():
            t = ', '.join(x.name for x in L)
            if self.reginit and len(L) == 1 and r.random() < .15:
                t += ' = 0'
                self.u('reg-init')
            if len(L) > 1:
                self.u('multi-decl')
            decls.append('  reg %s%s%s;' % ('signed ' if L[0].signed else '', self.rng_text(L[0], P), t))
        EE = E + regs + mems
        # integers
        for _ in range(r.choice([0, 1, 2])):
            n = self.fresh('k')
            decls.append('  integer %s;' % n)
            self.loopvars.append(n)
        allvars = list(self.loopvars)
        # outputs: wires get an assign, regs a block
        creg = [s for s, raw, isr in outs if isr]
        T = regs + [s for s, raw, isr in outs if isr and r.random() < .5]
        comb = [s for s in creg if s not in T]
        for s, raw, isr in outs:
            if not isr:
                bodies.append('  assign %s = %s;' % (s.name, self.expr(EE)))
        # clocked
        groups = [T + mems]
        if len(T) > 1 and r.random() < .4:
            groups = [T[:1] + mems, T[1:]]
        for gi, G in enumerate(groups):
            if not G:
                continue
            lv = self.loopvars
            self.loopvars = [v for i, v in enumerate(allvars) if i % 2 == 0] if gi == 0 else []
            if len(allvars) == 1 and gi:
                self.loopvars = []
            sens = r.choice(['posedge CLK', 'posedge CLK', 'posedge CLK', 'posedge CLK or posedge RST', 'posedge CLK, posedge RST', 'negedge CLK'])
            self.u('sens', sens)
            rs = ['      %s <= %s;' % (s.name, r.choice(['0', '0', self.lit(), '{ %d{ 1\'d0 } }' % s.width])) for s in G if not s.mem]
            for s in G:
                if s.mem:
                    if self.loopvars:
                        v = self.loopvars[0]
                        rs.append('      for(%s = %d; %s <= %d; %s = %s + 1) %s[%s] <= %s;' % (v, s.mem[0], v, s.mem[1], v, v, s.name, v, v))
                    else:
                        rs += ['      %s[%d] <= %d;' % (s.name, q, q) for q in range(s.mem[0], s.mem[1] + 1)]
            body = self.stmts(G, EE, '<=', 6, 2, r.choice([1, 2, 3]))
            rst = 'RST'
            kw = 'always'
            if self.sv and r.random() < .3:
                kw = 'always_ff'
                self.u(kw)
            bodies.append('  ' + kw + ' @(%s) begin\n    if(%s) begin\n%s\n    end else begin\n%s\n    end\n  end' % (sens, rst, '\n'.join(rs), '\n'.join(body)))
            self.loopvars = lv
        # combinational blocks
        for s in comb:
            self.loopvars = [allvars[1]] if len(allvars) > 1 and s is comb[0] else []
            src = [x for x in EE if not (isinstance(x, Sig) and x.mem)]
            sens = r.choice(['@*', '@(*)', 'list'])
            if sens == 'list':
                n = [x.name for x in src if isinstance(x, Sig)]
                sens = '@(%s)' % (r.choice([' or ', ', '])).join(n)
                self.u('level-list')
            self.u('comb')
            body = self.stmts([s], src, '=', 4, 2, r.choice([1, 2]))
            bodies.append('  always %s begin\n    %s = %s;\n%s\n  end' % (sens, s.name, self.expr(src, 2), '\n'.join(body)))
        # initial
        if r.random() < .3:
            self.u('initial')
            q = self.fresh('q')
            decls.append('  reg [7:0] %s;' % q)
            L = ['    %s = %s;' % (q, self.lit())]
            if r.random() < .5:
                L.append('    #%d %s = %s;' % (r.randint(3, 40), q, self.lit()))
                self.u('delayed-assign')
            if r.random() < .4:
                L.append('    #%d;' % r.randint(3, 40))
                L.append('    %s = %s + 1;' % (q, q))
                self.u('delay')
            if r.random() < .3:
                L.append('    @(posedge CLK);\n    %s = %s ^ 8\'h5a;' % (q, q))
                self.u('event')
            if r.random() < .3:
                L.append('    wait(!RST);\n    %s = ~%s;' % (q, q))
                self.u('wait')
            if r.random() < .3:
                L.append('    $display("%s %%d %%b at %%0d", %s, %s, $time);' % (name, q, q))
                self.u('display')
            bodies.append('  initial begin\n%s\n  end' % '\n'.join(L))
            w = self.fresh('o')
            s = Sig(w, 7, 0)
            outs.append((s, None, False))
            bodies.append('  assign %s = %s;' % (w, q))
        # generates
        for _ in range(r.choice([0, 0, 1]) if not top else r.choice([0, 1, 1, 2])):
            d, b, news = self.generate(E, EE, P)
            decls += d
            bodies.append(b)
            s = Sig(self.fresh('o'), 15, 0)
            outs.append((s, None, False))
            bodies.append('  assign %s = %s;' % (s.name, ' ^ '.join(n for n in news)))
        # header
        allports = [('input', Sig('CLK', 0, 0), None, False), ('input', Sig('RST', 0, 0), None, False)]
        allports += [('input', s, raw, False) for s, raw in ins] + [('output', s, raw, isr) for s, raw, isr in outs]
        ph = ''
        if params:
            self.u('header-parameters')
            ph = ' #(\n%s\n)' % ',\n'.join('  parameter %s%s = %d' % (sg, p, v) for p, v, sg in params)
        bp = ['  parameter %s%s = %d;' % (sg, p, v) for p, v, sg in bodyparams]

        def rt(s, raw):
            return '[%s] ' % raw if raw else '' if s.name in ('CLK', 'RST') else self.rng_text(s, P)
        if bodyparams or r.random() < .4:
            self.u('old-style-ports')
            head = 'module %s%s(%s);' % (name, ph, ', '.join(s.name for _, s, _, _ in allports))
            pd = []
            for d, s, raw, isr in allports:
                sg = 'signed ' if s.signed else ''
                t = rt(s, raw)
                if isr and r.random() < .5:
                    pd.append('  %s %s%s%s;\n  reg %s%s%s;' % (d, sg, t, s.name, sg, t, s.name))
                else:
                    pd.append('  %s %s%s%s%s;' % (d, 'reg ' if isr else '', sg, t, s.name))
            head += '\n' + '\n'.join(bp + pd)
        else:
            L = []
            for d, s, raw, isr in allports:
                L.append('  %s %s%s%s%s' % (d, 'reg ' if isr else r.choice(['', '', 'wire ']), 'signed ' if s.signed else '', rt(s, raw), s.name))
            head = 'module %s%s\n(\n%s\n);' % (name, ph, ',\n'.join(L))
        r.shuffle(bodies) if r.random() < .0 else None
        text = head + '\n' + '\n'.join(decls) + '\n' + '\n'.join(bodies) + '\nendmodule\n'
        if r.random() < .2:
            text = text.replace('\nendmodule', '\n  // comment; not code\n  /* begin\n end */\nendmodule')
        return text, {'name': name, 'params': P, 'ins': ins, 'outs': outs, 'ports': allports}

    def function(self):
        r = self.r
        self.count['functions'] += 1
        n = self.fresh('f')
        args = [self.newsig(self.fresh('a'), asc=False) for _ in range(r.choice([1, 1, 2, 3]))]
        loc = self.newsig(self.fresh('t'), asc=False) if r.random() < .5 else None
        ret = r.choice(['[7:0] ', '[15:0] ', '', '[4:1] '])
        self.u('function', ret.strip() or 'bit')
        S = args + ([loc] if loc else [])
        L = ['  function %s%s;' % (ret, n)]
        for a in args:
            L.append('    input %s%s%s;' % ('signed ' if a.signed else '', self.rng_text(a, None), a.name))
        if loc:
            self.u('function-local')
            L.append('    reg %s%s;' % (self.rng_text(loc, None), loc.name))
        lv = self.loopvars
        k = None
        if r.random() < .3:
            k = self.fresh('k')
            L.append('    integer %s;' % k)
            self.u('function-loop')
        self.loopvars = [k] if k else []
        b = []
        if loc:
            b.append('      %s = %s;' % (loc.name, self.expr(args, 1)))
        res = Sig(n, {'[7:0] ': 7, '[15:0] ': 15, '': 0, 'integer ': 31, '[4:1] ': 4}[ret], 1 if ret == '[4:1] ' else 0)
        if r.random() < .4:
            self.u('function-argument-update')
            b.append('      %s = %s + %d;' % (args[0].name, args[0].name, r.randint(1, 3)))
        b.append('      %s = %s;' % (n, self.expr(S, 2)))
        if k:
            b.append('      for(%s = 0; %s < 3; %s = %s + 1)\n        %s = %s ^ %s;' % (k, k, k, k, n, n, self.expr(S + [k], 1)))
        save, self.loopvars = self.loopvars, []
        b += self.stmts([res] + ([loc] if loc else []), S, '=', 6, 2, r.choice([1, 2]))
        L.append('    begin\n%s\n    end\n  endfunction' % '\n'.join(b))
        self.loopvars = lv
        self.funcs = self.funcs + [(n, len(args))]
        return '\n'.join(L)

    def instance(self, E, P):
        r = self.r
        lf = r.choice(self.leaves)
        self.count['instances'] += 1
        decls, news = [], []
        inst = self.fresh('u')
        pt = ''
        plain = [p for p in lf['params']]
        if plain and r.random() < .7:
            vals = [(p, r.choice([str(r.randint(1, 4)), "4'd%d" % r.randint(1, 5), '%d + 1' % r.randint(1, 3)] + [q for q, _, _ in P])) for p, _, _ in plain]
            if r.random() < .5:
                self.u('named-params')
                vals = r.sample(vals, r.randint(1, len(vals)))
                pt = ' #(%s)' % ', '.join('.%s(%s)' % v for v in vals)
            else:
                self.u('positional-params')
                pt = ' #(%s)' % ', '.join(v for _, v in vals[:r.randint(1, len(vals))])
        conn = []
        named = r.random() < .7
        for d, s, raw, isr in lf['ports']:
            if s.name in ('CLK', 'RST'):
                conn.append((s.name, s.name))
            elif d == 'input':
                if named and r.random() < .06:
                    self.u('open-input')
                    conn.append((s.name, ''))
                else:
                    conn.append((s.name, self.expr(E, 2)))
            else:
                w = self.newsig(self.fresh('n'))
                if named and r.random() < .12:
                    self.u('open-output')
                    conn.append((s.name, ''))
                    continue
                decls.append('  wire %s%s%s;' % ('signed ' if w.signed else '', self.rng_text(w, P), w.name))
                news.append(w)
                t = w.name
                if w.width > 3 and r.random() < .1:
                    self.u('part-output')
                    t = w.name + self.sel(w)
                conn.append((s.name, t))
        if named:
            self.u('named-ports')
            if r.random() < .5:
                r.shuffle(conn)
            c = ', '.join('.%s(%s)' % x for x in conn)
        else:
            self.u('positional-ports')
            c = ', '.join(v for _, v in conn)
        return (decls, '  %s%s %s(%s);' % (lf['name'], pt, inst, c)), news

    def generate(self, E, EE, P):
        """-> declarations, body, readable result wires"""
        r = self.r
        self.count['generates'] += 1
        w = self.fresh('gw')
        decls = ['  wire [15:0] %s;' % w]
        x = r.random()
        g = self.fresh('gi')
        n = r.choice(['2', '3', '4'] + [p for p, _, _ in P])
        src = [e for e in E]

        def leafbody(idx, lim):
            """assigns bit idx of w"""
            y = r.random()
            sc = [e for e in src]
            if y < .4 or not self.leaves:
                return '      assign %s[%s] = %s;' % (w, idx, self.expr(sc + ([idx] if not idx.isdigit() else []), 2))
            if y < .7:
                t = self.fresh('gt')
                self.u('generate-local')
                self.local = t
                return '      wire [3:0] %s;\n      assign %s = %s;\n      assign %s[%s] = ^%s;' % (t, t, self.expr(sc, 2), w, idx, t)
            if y < .85:
                t = self.fresh('gr')
                self.u('generate-always')
                return '      reg [3:0] %s;\n      always @(posedge CLK) begin\n        if(RST) %s <= %s;\n        else %s <= %s + %s;\n      end\n      assign %s[%s] = %s[%d];' % (
                    t, t, idx, t, t, self.leaf(sc), w, idx, t, r.randint(0, 3))
            lf = r.choice(self.leaves)
            self.u('generate-instance')
            self.count['instances'] += 1
            o = [s for d, s, raw, isr in lf['ports'] if d == 'output'][0]
            conn = []
            for d, s, raw, isr in lf['ports']:
                if s.name in ('CLK', 'RST'):
                    conn.append('.%s(%s)' % (s.name, s.name))
                elif d == 'input':
                    conn.append('.%s(%s)' % (s.name, self.expr(sc, 1)))
                elif s is o:
                    conn.append('.%s(%s)' % (s.name, self.fresh('go')))
            t = self.fresh('go')
            conn = [c if '.%s(' % o.name not in c else '.%s(%s)' % (o.name, t) for c in conn]
            return '      wire [7:0] %s;\n      %s %s(%s);\n      assign %s[%s] = ^%s;' % (t, lf['name'], self.fresh('u'), ', '.join(conn), w, idx, t)
        if x < .55:
            self.u('generate-for')
            self.local = None
            body = leafbody(g, n)
            hier = self.local
            lab = self.fresh('gs')
            if hier:
                if r.random() < .5:
                    self.u('hierarchical')
                    w = '(%s ^ %s[%d].%s)' % (w, lab, r.randint(0, 1) if n.isdigit() else 0, hier)
            elif r.random() < .35:
                self.u('generate-if-in-for')
                els = ' else begin%s\n%s\n    end' % (r.choice(['', ' : ' + self.fresh('gs')]), leafbody(g, n))
                body = '    if(%s %s %s) begin%s\n%s\n    end%s' % (g, r.choice(['==', '<', '>', '!=']), r.choice(['0', '1', '2']), r.choice(['', ' : ' + self.fresh('gs')]), body, els)
            b = '  genvar %s;\n  generate for(%s = 0; %s < %s; %s = %s + 1) begin : %s\n%s\n  end endgenerate' % (g, g, g, n, g, g, lab, body)
        else:
            self.u('generate-if')
            c = r.choice([p for p, _, _ in P] or ['1'])
            cond = '%s %s %d' % (c, r.choice(['==', '>', '<', '!=']), r.randint(1, 3))
            real = leafbody

            def leafbody(idx, lim, depth=0):
                y = r.random()
                if y < .15:
                    self.u('generate-for-in-if')
                    return '    for(%s = %s; %s < %s; %s = %s + 1) begin : %s\n%s\n    end' % (g, idx, g, r.choice(['3', '4']), g, g, self.fresh('gs'), real(g, n))
                if y < .3 and depth < 2:
                    self.u('generate-if-in-if')
                    return '    if(%s %s %d) begin%s\n%s\n    end%s' % (c, r.choice(['==', '>', '<', '!=']), r.randint(1, 3), r.choice(['', ' : ' + self.fresh('gs')]), leafbody(idx, lim, depth + 1),
                                                                    r.choice(['', ' else begin\n%s\n    end' % leafbody('3', lim, depth + 1)]))
                return real(idx, lim)
            a = leafbody('0', '1')
            t = '  generate if(%s) begin%s\n%s\n  end' % (cond, r.choice(['', ' : ' + self.fresh('gs')]), a)
            if r.random() < .75:
                self.u('generate-else')
                if r.random() < .3:
                    self.u('generate-else-if')
                    t += ' else if(%s %s %d) begin%s\n%s\n  end else begin\n%s\n  end' % (c, r.choice(['==', '>', '<']), r.randint(1, 3), r.choice(['', ' : ' + self.fresh('gs')]), leafbody('1', '1'), leafbody('2', '1'))
                else:
                    t += ' else begin%s\n%s\n  end' % (r.choice(['', ' : ' + self.fresh('gs')]), leafbody('1', '1'))
            b = '  genvar %s;\n' % g + t + ' endgenerate'
        return decls, b, [w]

    def source(self):
        r = self.r
        texts = []
        self.nobodyparam = False
        for _ in range(r.choice([0, 1, 1, 2])):
            t, i = self.module(self.fresh('leaf'), False)
            texts.append(t)
            self.leaves.append(i)
        t, i = self.module('top_mod', True)
        texts.append(t)
        if r.random() < .3:
            self.u('modules-after-use')
            texts.reverse()
        code = '\n'.join(texts)
        if r.random() < .2:
            self.u('define')
            code = '`define WIDE 8\n`define SEL(x) ((x) ^ 3)\n' + code.replace('[7:0]', '[`WIDE-1:0]', 1)
        ins = [('RST', 1)] + [(s.name, s.width) for s, raw in i['ins']]
        outs = [(s.name, s.width) for s, raw, isr in i['outs']]
        edge = r.random() < .3
        stim = []
        n = r.choice([20, 40])
        rst = set(range(3)) | ({n // 2} if r.random() < .5 else set())
        for t in range(n):
            d = {'RST': int(t in rst)}
            for nm, w in ins[1:]:
                d[nm] = r.choice([0, (1 << w) - 1, 1 << (w - 1)]) if edge and r.random() < .4 else r.getrandbits(w)
            stim.append(d)
        return code, 'top_mod', ins, outs, stim
