"""Expression trees, independent of veriloggen: random generation, evaluation
by the IEEE-1364 sizing/signedness rules, construction through veriloggen's
public API, and direct printing as fully parenthesised Verilog.

A tree is JSON: [kind, ...].  env: name -> (width, signed) for vectors;
arrays: name -> (width, signed, (dims...)).
Values: dict name -> unsigned int (vectors) / list (arrays).
None stands for "contains x" (the comparison is then skipped)."""


def mask(w):
    return (1 << w) - 1


def ext(v, w, W, s):
    v &= mask(w)
    if W <= w:
        return v & mask(W)
    if s and v >> (w - 1) & 1:
        return (v | ~mask(w)) & mask(W)
    return v


def tosigned(v, w):
    v &= mask(w)
    return v - (1 << w) if v >> (w - 1) & 1 else v


ARITH = ('+', '-', '*', '/', '%', '&', '|', '^', '~^')
CMP = ('<', '>', '<=', '>=', '==', '!=', '===', '!==')
SHIFT = ('<<', '>>', '>>>')
LOGIC = ('&&', '||')
RED = ('r&', 'r~&', 'r|', 'r~|', 'r^', 'r~^')


class Eval:
    """env gives widths/signs; vals the current values"""

    def __init__(self, env, arrays=None):
        self.env = env
        self.arrays = arrays or {}
        self._ss = {}

    # (size, signed), self-determined
    def ss(self, n):
        k = id(n)
        r = self._ss.get(k)
        if r is None or r[0] is not n:
            r = (n, self._size_sign(n))
            self._ss[k] = r
        return r[1]

    def _size_sign(self, n):
        k = n[0]
        if k == 'var':
            return self.env[n[1]]
        if k == 'int':
            return (32, True)
        if k == 'pybool':
            return (32, True)
        if k == 'lit':
            v, w, b, s = n[1:]
            # python-side rule: an unsized, unbased constant is a plain decimal
            sg = True if v < 0 else bool(s)
            if w is None and b is None and not sg:
                return (32, True)
            return (w or 32, sg)
        if k == 'bin':
            op = n[1]
            lw, ls = self.ss(n[2])
            if op in ARITH:
                rw, rs = self.ss(n[3])
                return (max(lw, rw), ls and rs)
            if op in CMP or op in LOGIC:
                return (1, False)
            if op in SHIFT:
                return (lw, ls)
            if op == '**':
                rw, rs = self.ss(n[3])
                return (lw, ls and rs)
        if k == 'un':
            op = n[1]
            if op in RED or op == '!':
                return (1, False)
            return self.ss(n[2])
        if k in ('ptr', 'pyidx'):
            return (1, False)
        if k == 'slice':
            return (n[2] - n[3] + 1, False)
        if k == 'pyslice':
            return (len(self._bits(n)), False)
        if k == 'cat':
            return (sum(self.ss(x)[0] for x in n[1]), False)
        if k == 'rep':
            return (self.ss(n[1])[0] * n[2], False)
        if k == 'mux':
            tw, ts = self.ss(n[2])
            fw, fs = self.ss(n[3])
            return (max(tw, fw), ts and fs)
        if k == 'abs':
            w, s = self.ss(n[1])
            return (max(w, 32), s)
        if k == 'sign':
            return (1, False)
        if k == 'sysf':
            return (self.ss(n[2])[0], n[1] == 'signed')
        if k == 'arr':
            w, s, d = self.arrays[n[1]]
            return (w, s)
        if k == 'arrbit':
            return (1, False)
        if k == 'andor':
            if len(n[2]) == 1:
                return self.ss(n[2][0])
            return (1, False)
        if k == 'patmux':
            ws = [self.ss(v) for c, v in n[1]]
            return (max(w for w, s in ws), all(s for w, s in ws))
        raise ValueError(k)

    def _bits(self, n):
        """LSB-first bit indices of a python slice"""
        w = self.env[n[1]][0]
        return list(range(w))[slice(n[2], n[3], n[4])]

    def self_det(self, n, vals):
        w, s = self.ss(n)
        return self.ev(n, w, s, vals), w, s

    def truth(self, n, vals):
        v, w, s = self.self_det(n, vals)
        return None if v is None else v != 0

    def ev(self, n, W, S, vals):
        """value of n in a context of width W (>= its size) and sign S"""
        k = n[0]
        if k == 'var':
            w, s = self.env[n[1]]
            v = vals[n[1]]
            return None if v is None else ext(v, w, W, S)
        if k == 'int':
            v = n[1]
            if v < 0:
                return (-ext(-v, 32, W, S)) & mask(W)
            return ext(v, 32, W, S)
        if k == 'pybool':
            return 1 if n[1] else 0
        if k == 'lit':
            v, w, b, s = n[1:]
            w = w or 32
            if v < 0:
                return (-ext(-v, w, W, S)) & mask(W)
            return ext(v, w, W, S)
        if k == 'bin':
            op = n[1]
            if op in ARITH:
                a = self.ev(n[2], W, S, vals)
                b = self.ev(n[3], W, S, vals)
                if a is None or b is None:
                    return None
                return self.arith(op, a, b, W, S)
            if op in CMP:
                lw, ls = self.ss(n[2])
                rw, rs = self.ss(n[3])
                w, s = max(lw, rw), ls and rs
                a = self.ev(n[2], w, s, vals)
                b = self.ev(n[3], w, s, vals)
                if a is None or b is None:
                    return None
                if s:
                    a, b = tosigned(a, w), tosigned(b, w)
                return int({'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b,
                            '===': a == b, '!==': a != b}[op])
            if op in LOGIC:
                a = self.truth(n[2], vals)
                b = self.truth(n[3], vals)
                if op == '&&':
                    if a is False or b is False:
                        return 0
                else:
                    if a is True or b is True:
                        return 1
                if a is None or b is None:
                    return None
                return int(a and b) if op == '&&' else int(a or b)
            if op in SHIFT:
                b, bw, bs = self.self_det(n[3], vals)
                a = self.ev(n[2], W, S, vals)
                if a is None or b is None:
                    return None
                if op == '<<':
                    return (a << b) & mask(W) if b < W else 0
                if op == '>>' or not S:
                    return a >> b
                return (tosigned(a, W) >> min(b, W)) & mask(W)
            if op == '**':
                a = self.ev(n[2], W, S, vals)
                b, bw, bs = self.self_det(n[3], vals)
                if a is None or b is None:
                    return None
                return pow(a, b, 1 << W)
        if k == 'un':
            op = n[1]
            if op in ('+', '-', '~'):
                a = self.ev(n[2], W, S, vals)
                if a is None:
                    return None
                return {'+': a, '-': -a, '~': ~a}[op] & mask(W)
            a, w, s = self.self_det(n[2], vals)
            if a is None:
                return None
            if op == '!':
                return int(a == 0)
            ones = bin(a).count('1')
            return {'r&': ones == w, 'r~&': ones != w, 'r|': ones > 0, 'r~|': ones == 0,
                    'r^': ones & 1, 'r~^': 1 - (ones & 1)}[op] * 1
        if k == 'ptr':
            w, s = self.env[n[1]]
            i, iw, is_ = self.self_det(n[2], vals)
            if i is None or vals[n[1]] is None:
                return None
            if is_:
                i = tosigned(i, iw)
            if i < 0 or i >= w:
                return None
            return vals[n[1]] >> i & 1
        if k == 'pyidx':
            w, s = self.env[n[1]]
            return vals[n[1]] >> list(range(w))[n[2]] & 1
        if k == 'slice':
            return vals[n[1]] >> n[3] & mask(n[2] - n[3] + 1)
        if k == 'pyslice':
            v = 0
            for j, i in enumerate(self._bits(n)):
                v |= (vals[n[1]] >> i & 1) << j
            return v
        if k == 'cat':
            v = 0
            for x in n[1]:
                a, w, s = self.self_det(x, vals)
                if a is None:
                    return None
                v = v << w | a
            return v
        if k == 'rep':
            a, w, s = self.self_det(n[1], vals)
            if a is None:
                return None
            v = 0
            for _ in range(n[2]):
                v = v << w | a
            return v
        if k == 'mux':
            c = self.truth(n[1], vals)
            if c is None:
                return None
            return self.ev(n[2] if c else n[3], W, S, vals)
        if k == 'abs':
            # documented meaning: |x|; only generated for signed operands
            a, w, s = self.self_det(n[1], vals)
            if a is None:
                return None
            return abs(tosigned(a, w)) & mask(W) if W > w or tosigned(a, w) != -(1 << (w - 1)) else a
        if k == 'sign':
            a, w, s = self.self_det(n[1], vals)
            return None if a is None else int(tosigned(a, w) < 0)
        if k == 'sysf':
            a, w, s = self.self_det(n[2], vals)
            return None if a is None else ext(a, w, W, S)
        if k == 'arr':
            w, s, dims = self.arrays[n[1]]
            off = 0
            for d, x in zip(dims, n[2]):
                i, iw, is_ = self.self_det(x, vals)
                if i is None:
                    return None
                if is_:
                    i = tosigned(i, iw)
                if i < 0 or i >= d:
                    return None
                off = off * d + i
            return ext(vals[n[1]][off], w, W, S)
        if k == 'arrbit':
            a = self.ev(['arr', n[1], n[2]], self.arrays[n[1]][0], False, vals)
            i, iw, is_ = self.self_det(n[3], vals)
            if a is None or i is None:
                return None
            if is_:
                i = tosigned(i, iw)
            if i < 0 or i >= self.arrays[n[1]][0]:
                return None
            return a >> i & 1
        if k == 'andor':
            if len(n[2]) == 1:
                return self.ev(n[2][0], W, S, vals)
            ts = [self.truth(x, vals) for x in n[2]]
            if n[1] == '&&':
                if any(t is False for t in ts):
                    return 0
                return None if None in ts else 1
            if any(t is True for t in ts):
                return 1
            return None if None in ts else 0
        if k == 'patmux':
            for c, v in n[1]:
                if c is None:
                    return self.ev(v, W, S, vals)
                t = self.truth(c, vals)
                if t is None:
                    return None
                if t:
                    return self.ev(v, W, S, vals)
        raise ValueError(k)

    def arith(self, op, a, b, W, S):
        m = mask(W)
        if op == '+':
            return (a + b) & m
        if op == '-':
            return (a - b) & m
        if op == '*':
            return (a * b) & m
        if op == '&':
            return a & b
        if op == '|':
            return a | b
        if op == '^':
            return a ^ b
        if op == '~^':
            return ~(a ^ b) & m
        if b == 0:
            return None
        if not S:
            return a // b if op == '/' else a % b
        a, b = tosigned(a, W), tosigned(b, W)
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        return (q if op == '/' else a - q * b) & m

    def assign(self, n, tw, vals):
        """value stored in a target of width tw by `target = n`"""
        w, s = self.ss(n)
        v = self.ev(n, max(w, tw), s, vals)
        return None if v is None else v & mask(tw)


# ---------------------------------------------------------------- generation
class Gen:
    def __init__(self, rng, env, arrays=None, allow=None, maxw=80):
        self.r = rng
        self.env = env
        self.arrays = arrays or {}
        self.names = sorted(env)
        self.E = Eval(env, self.arrays)
        self.maxw = maxw
        self.nosel = ()            # variables declared without a range (Integer)

    def leaf(self, sized=False):
        r = self.r.random()
        if r < 0.62:
            return ['var', self.r.choice(self.names)]
        if r < 0.78 or sized:
            w = self.r.choice([1, 2, 4, 7, 8, 16, 31, 32, 33])
            s = self.r.random() < 0.35
            v = self.r.choice([0, 1, mask(w), 1 << (w - 1), self.r.getrandbits(w)])
            if s and self.r.random() < 0.4 and w > 1:
                v = -self.r.randrange(1, 1 << (w - 1))
            return ['lit', v, w, self.r.choice([None, 2, 8, 10, 16]), s]
        if r < 0.97:
            v = self.r.choice([0, 1, 2, 3, 5, 7, 8, 10, 255, 256, 1000, 65535, self.r.randrange(1 << 15)])
            if self.r.random() < 0.25:
                v = -v if v else -1
            return ['int', v]
        return ['pybool', self.r.random() < 0.5]

    def scalar(self):
        return ['var', self.r.choice(self.names)]

    def expr(self, d):
        n = self._expr(d)
        if self.E.ss(n)[0] > self.maxw:
            return self.leaf()
        return n

    def nonconst(self, d):
        """operand that is a veriloggen object (so Python operators apply)"""
        n = self.expr(d)
        if n[0] in ('int', 'pybool') or (n[0] == 'andor' and len(n[2]) == 1) or (n[0] == 'patmux' and len(n[1]) == 1):
            return self.scalar()
        return n

    def sized(self, d):
        """operand with a definite self-determined size (legal in a concat)"""
        for _ in range(8):
            n = self.expr(d)
            if self.is_sized(n):
                return n
        return self.scalar()

    def is_sized(self, n):
        k = n[0]
        if k in ('int', 'pybool', 'abs'):
            return False
        if k == 'lit':
            return n[2] is not None
        if k == 'bin':
            return self.is_sized(n[2]) and self.is_sized(n[3])
        if k == 'un':
            return self.is_sized(n[2])
        if k == 'mux':
            return self.is_sized(n[2]) and self.is_sized(n[3]) and self.is_sized(n[1])
        if k == 'patmux':
            return all(self.is_sized(v) for c, v in n[1])
        if k == 'andor':
            return len(n[2]) > 1
        if k == 'sysf':
            return self.is_sized(n[2])
        return True

    def _expr(self, d):
        R = self.r
        if d <= 0 or R.random() < 0.1:
            return self.leaf()
        x = R.random()
        if x < 0.34:
            op = R.choice(['+', '-', '*', '/', '%', '&', '|', '^', '~^', '+', '-', '-'])
            l, r = self.expr(d - 1), self.expr(d - 1)
            if l[0] in ('int', 'pybool') and r[0] in ('int', 'pybool'):
                l = self.scalar()
            return ['bin', op, l, r]
        if x < 0.44:
            op = R.choice(CMP)
            return ['bin', op, self.nonconst(d - 1), self.expr(d - 1)]
        if x < 0.53:
            op = R.choice(SHIFT)
            l = self.expr(d - 1)
            if R.random() < 0.5:
                r = ['int', R.randrange(0, 20)]
            else:
                r = self.expr(min(d - 1, 1))
            if l[0] in ('int', 'pybool') and r[0] in ('int', 'pybool') or op == '>>>' and l[0] in ('int', 'pybool'):
                l = self.scalar()
            return ['bin', op, l, r]
        if x < 0.55:
            return ['bin', '**', self.scalar(), ['int', R.randrange(0, 4)]]
        if x < 0.60:
            return ['bin', R.choice(LOGIC), self.expr(d - 1), self.expr(d - 1)]
        if x < 0.62:
            return ['andor', R.choice(LOGIC), [self.nonconst(d - 1) for _ in range(R.randrange(1, 4))]]
        if x < 0.70:
            return ['un', R.choice(['+', '-', '~', '-', '~', '!']), self.nonconst(d - 1)]
        if x < 0.75:
            return ['un', R.choice(RED), self.nonconst(d - 1)]
        if x < 0.78:
            n = R.choice(self.names)
            w = self.env[n][0]
            if w == 1 or n in self.nosel:
                return ['var', n]      # a scalar cannot be selected in Verilog
            if R.random() < 0.5:
                return ['ptr', n, ['int', R.randrange(w)]]
            return ['ptr', n, self.nonconst(min(d - 1, 1))]
        if x < 0.80:
            n = R.choice(self.names)
            w = self.env[n][0]
            if w == 1 or n in self.nosel:
                return ['var', n]
            return ['pyidx', n, R.randrange(-w, w)]
        if x < 0.84:
            n = R.choice(self.names)
            w = self.env[n][0]
            if w == 1 or n in self.nosel:
                return ['var', n]
            a = R.randrange(w)
            b = R.randrange(a + 1)
            return ['slice', n, a, b]
        if x < 0.89:
            n = R.choice(self.names)
            w = self.env[n][0]
            if w == 1 or n in self.nosel:
                return ['var', n]
            for _ in range(20):
                st = R.choice([None, R.randrange(0, w), R.randrange(-w, 0)])
                en = R.choice([None, R.randrange(1, w + 1), R.randrange(-w + 1, 0)])
                step = R.choice([None, None, None, 1, 2, 3])
                if list(range(w))[slice(st, en, step)]:
                    return ['pyslice', n, st, en, step]
            return ['var', n]
        if x < 0.93:
            return ['cat', [self.sized(d - 1) for _ in range(R.randrange(1, 4))]]
        if x < 0.945:
            return ['rep', self.sized(d - 1), R.randrange(1, 5)]
        if x < 0.975:
            return ['mux', self.nonconst(d - 1), self.expr(d - 1), self.expr(d - 1)]
        if x < 0.98:
            pats = [[self.nonconst(d - 1), self.expr(d - 1)] for _ in range(R.randrange(0, 3))]
            pats.append([None, self.expr(d - 1)])
            return ['patmux', pats]
        if x < 0.99:
            return ['sysf', R.choice(['signed', 'unsigned']), self.nonconst(d - 1)]
        if self.arrays:
            n = R.choice(sorted(self.arrays))
            w, s, dims = self.arrays[n]
            idx = [(['int', R.randrange(q)] if R.random() < 0.4 else
                    ['bin', '%', self.scalar(), ['lit', q, 8, 10, False]]) for q in dims]
            if R.random() < 0.3 and w > 1:
                return ['arrbit', n, idx, ['int', R.randrange(w)]]
            return ['arr', n, idx]
        return ['sign', self._signed_leaf()]

    def _signed_leaf(self):
        c = [n for n in self.names if self.env[n][1]]
        return ['var', self.r.choice(c)] if c else ['sysf', 'signed', self.scalar()]


# ------------------------------------------------- construction via veriloggen
BINF = {'+': lambda v, a, b: a + b, '-': lambda v, a, b: a - b, '*': lambda v, a, b: a * b,
        '/': lambda v, a, b: a / b, '%': lambda v, a, b: a % b, '&': lambda v, a, b: a & b,
        '|': lambda v, a, b: a | b, '^': lambda v, a, b: a ^ b, '~^': lambda v, a, b: v.Xnor(a, b),
        '<': lambda v, a, b: a < b, '>': lambda v, a, b: a > b, '<=': lambda v, a, b: a <= b,
        '>=': lambda v, a, b: a >= b, '==': lambda v, a, b: a == b, '!=': lambda v, a, b: a != b,
        '===': lambda v, a, b: v.Eql(a, b), '!==': lambda v, a, b: v.NotEql(a, b),
        '<<': lambda v, a, b: a << b, '>>': lambda v, a, b: a >> b, '>>>': lambda v, a, b: a.sra(b),
        '**': lambda v, a, b: a ** b, '&&': lambda v, a, b: v.Land(a, b), '||': lambda v, a, b: v.Lor(a, b)}
BINC = {'+': 'Plus', '-': 'Minus', '*': 'Times', '/': 'Divide', '%': 'Mod', '&': 'And', '|': 'Or', '^': 'Xor',
        '~^': 'Xnor', '<': 'LessThan', '>': 'GreaterThan', '<=': 'LessEq', '>=': 'GreaterEq', '==': 'Eq',
        '!=': 'NotEq', '===': 'Eql', '!==': 'NotEql', '<<': 'Sll', '>>': 'Srl', '>>>': 'Sra', '**': 'Power',
        '&&': 'Land', '||': 'Lor'}
UNC = {'+': 'Uplus', '-': 'Uminus', '~': 'Unot', '!': 'Ulnot', 'r&': 'Uand', 'r~&': 'Unand', 'r|': 'Uor',
       'r~|': 'Unor', 'r^': 'Uxor', 'r~^': 'Uxnor'}


class SimpleGen(Gen):
    """operators every simulator agrees about: for checks whose subject is not expressions"""

    def leaf(self, sized=False):
        R = self.r
        if R.random() < 0.75:
            return ['var', R.choice(self.names)]
        w = R.choice([1, 2, 4, 8, 16, 31])
        return ['lit', R.choice([0, 1, mask(w), R.getrandbits(w)]), w, R.choice([None, 2, 10, 16]), False]

    def _expr(self, d):
        R = self.r
        if d <= 0 or R.random() < 0.15:
            return self.leaf()
        x = R.random()
        if x < 0.45:
            return ['bin', R.choice(['+', '-', '&', '|', '^', '+', '*']), self.expr(d - 1), self.expr(d - 1)]
        if x < 0.58:
            return ['bin', R.choice(['==', '!=', '<', '<=', '>', '>=']), self.nonconst(d - 1), self.expr(d - 1)]
        if x < 0.63:
            return ['bin', R.choice(['>>', '<<']), self.nonconst(d - 1), ['lit', R.randrange(9), 4, 10, False]]
        if x < 0.68:
            return ['un', R.choice(['~', '!', 'r|', 'r&', 'r^']), self.nonconst(d - 1)]
        if x < 0.80:
            n = R.choice(self.names)
            w = self.env[n][0]
            if w > 1 and n not in self.nosel:
                a = R.randrange(w)
                return ['ptr', n, ['int', a]] if R.random() < 0.4 else ['slice', n, a, R.randrange(a + 1)]
            return ['var', n]
        if x < 0.85:
            return ['cat', [self.sized(d - 1) for _ in range(R.randrange(1, 4))]]
        if x < 0.92 and self.arrays:
            n = R.choice(sorted(self.arrays))
            return ['arr', n, [['bin', '%', self.scalar(), ['lit', q, 8, 10, False]] for q in self.arrays[n][2]]]
        return ['mux', self.nonconst(d - 1), self.expr(d - 1), self.expr(d - 1)]


def build(n, sig, v, style):
    """style(n) -> True: use constructor classes, False: Python operators"""
    k = n[0]
    B = lambda x: build(x, sig, v, style)
    if k == 'var':
        return sig[n[1]]
    if k == 'int':
        return n[1]
    if k == 'pybool':
        return bool(n[1])
    if k == 'lit':
        val, w, b, s = n[1:]
        return v.Int(val, width=w, base=b, signed=s)
    if k == 'bin':
        a, b = B(n[2]), B(n[3])
        if style(n) or not (hasattr(a, 'object_id') or hasattr(b, 'object_id')):
            return getattr(v, BINC[n[1]])(a, b)
        return BINF[n[1]](v, a, b)
    if k == 'un':
        a = B(n[2])
        if n[1] in '+-~' and not style(n):
            return {'+': lambda: +a, '-': lambda: -a, '~': lambda: ~a}[n[1]]()
        if n[1] == '!' and not style(n):
            return v.Not(a)
        return getattr(v, UNC[n[1]])(a)
    if k == 'ptr':
        return v.Pointer(sig[n[1]], B(n[2])) if style(n) else sig[n[1]][B(n[2])]
    if k == 'pyidx':
        return sig[n[1]][n[2]]
    if k == 'slice':
        return v.Slice(sig[n[1]], n[2], n[3]) if style(n) else sig[n[1]].slice(n[2], n[3])
    if k == 'pyslice':
        return sig[n[1]][n[2]:n[3]:n[4]]
    if k == 'cat':
        return v.Cat(*[B(x) for x in n[1]])
    if k == 'rep':
        a = B(n[1])
        return v.Repeat(a, n[2]) if style(n) else a.repeat(n[2])
    if k == 'mux':
        return v.Mux(B(n[1]), B(n[2]), B(n[3]))
    if k == 'abs':
        return abs(B(n[1]))
    if k == 'sign':
        return v.Sign(B(n[1]))
    if k == 'sysf':
        if n[1] == 'signed' and style(n):
            return v.Signed(B(n[2]))
        return v.SystemTask(n[1], B(n[2]))
    if k == 'arr':
        a = sig[n[1]]
        for x in n[2]:
            a = a[B(x)]
        return a
    if k == 'arrbit':
        a = sig[n[1]]
        for x in n[2]:
            a = a[B(x)]
        return a[B(n[3])]
    if k == 'andor':
        xs = [B(x) for x in n[2]]
        return (v.Ands if n[1] == '&&' else v.Ors)(*xs)
    if k == 'patmux':
        return v.PatternMux([(None if c is None else B(c), B(x)) for c, x in n[1]])
    raise ValueError(k)


def ops(n):
    """multiset of constructors in a tree (for reporting coverage)"""
    out = []

    def walk(x):
        if isinstance(x, list):
            if x and isinstance(x[0], str):
                out.append(x[0] + (x[1] if x[0] in ('bin', 'un', 'sysf', 'andor') else ''))
            for y in x[1:] if x and isinstance(x[0], str) else x:
                walk(y)
    walk(n)
    return out


def corner_values(rng, env, arrays, i):
    vals = {}
    for n in sorted(env):
        w, s = env[n]
        if i == 0:
            vals[n] = 0
        elif i == 1:
            vals[n] = mask(w)
        else:
            vals[n] = rng.choice([rng.getrandbits(w), rng.getrandbits(w), 1 << (w - 1), mask(w) >> 1, 1,
                                  rng.getrandbits(min(w, 3)), mask(w)]) & mask(w)
    for n in sorted(arrays or {}):
        w, s, dims = arrays[n]
        t = 1
        for d in dims:
            t *= d
        vals[n] = [rng.getrandbits(w) for _ in range(t)]
    return vals


# ------------------------------------------- reference text, fully parenthesised
def pv(n, env=None):
    k = n[0]
    pv = lambda x: globals()['pv'](x, env)
    if k == 'var':
        return n[1]
    if k == 'int':
        return '(-%d)' % -n[1] if n[1] < 0 else '%d' % n[1]
    if k == 'pybool':
        return '1' if n[1] else '0'
    if k == 'lit':
        v, w, b, s = n[1:]
        s = s or v < 0
        if w is None and b is None and not s:
            t = '%d' % v
        else:
            f = {None: 'd', 2: 'b', 8: 'o', 10: 'd', 16: 'h'}[b]
            dg = {'d': '%d' % abs(v), 'b': bin(abs(v))[2:], 'o': '%o' % abs(v), 'h': '%x' % abs(v)}[f]
            t = "%s'%s%s%s" % (w or '', 's' if s else '', f, dg)
        return '(-%s)' % t if v < 0 else t
    if k == 'bin':
        return '(%s %s %s)' % (pv(n[2]), n[1], pv(n[3]))
    if k == 'un':
        return '(%s(%s))' % (n[1].lstrip('r'), pv(n[2]))
    if k == 'ptr':
        return '%s[%s]' % (n[1], pv(n[2]))
    if k == 'slice':
        return '%s[%d:%d]' % (n[1], n[2], n[3])
    if k == 'cat':
        return '{%s}' % ', '.join(pv(x) for x in n[1])
    if k == 'rep':
        return '{%d{%s}}' % (n[2], pv(n[1]))
    if k == 'mux':
        return '((%s)? (%s) : (%s))' % (pv(n[1]), pv(n[2]), pv(n[3]))
    if k == 'sysf':
        return '$%s(%s)' % (n[1], pv(n[2]))
    if k == 'arr':
        return n[1] + ''.join('[%s]' % pv(x) for x in n[2])
    if k == 'arrbit':
        return n[1] + ''.join('[%s]' % pv(x) for x in n[2] + [n[3]])
    if k == 'andor':
        return '(%s)' % (' %s ' % n[1]).join('(%s)' % pv(x) for x in n[2])
    if k == 'pyidx' and env is not None:
        return '%s[%d]' % (n[1], list(range(env[n[1]][0]))[n[2]])
    if k == 'pyslice' and env is not None:
        bits = list(range(env[n[1]][0]))[slice(n[2], n[3], n[4])]
        return '{%s}' % ', '.join('%s[%d]' % (n[1], b) for b in reversed(bits))
    if k == 'abs':
        x = pv(n[1])
        return "((%s < 0)? (-(%s)) : (%s))" % (x, x, x)
    if k == 'sign':
        return '(%s < 0)' % pv(n[1])
    if k == 'patmux':
        t = ''
        for c, x in n[1]:
            t += pv(x) if c is None else '(%s)? (%s) : (' % (pv(c), pv(x))
        return '(%s)' % (t + ')' * (len(n[1]) - 1))
    raise NotImplementedError(k)
