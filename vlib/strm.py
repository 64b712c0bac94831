"""Random graphs of veriloggen.stream operators: generation, construction through the public API,
and an independent cycle-level evaluator (integers, IEEE-1364 sizing through vexpr)."""
import veriloggen.stream as stream
from vlib.vexpr import Eval, mask, tosigned, ext

CMPS = {'LessThan': '<', 'GreaterThan': '>', 'LessEq': '<=', 'GreaterEq': '>=', 'Eq': '==', 'NotEq': '!='}
BITS = {'And': '&', 'Or': '|', 'Xor': '^', 'Xnor': '~^'}
REDS = {'Uand': 'r&', 'Unand': 'r~&', 'Uor': 'r|', 'Unor': 'r~|', 'Uxor': 'r^', 'Uxnor': 'r~^'}
SHS = {'Sll': '<<', 'Srl': '>>', 'Sra': '>>>'}
PYOP = {'Plus': lambda a, b: a + b, 'Minus': lambda a, b: a - b, 'Times': lambda a, b: a * b, 'Divide': lambda a, b: a / b,
        'Mod': lambda a, b: a % b, 'LessThan': lambda a, b: a < b, 'GreaterThan': lambda a, b: a > b, 'LessEq': lambda a, b: a <= b,
        'GreaterEq': lambda a, b: a >= b, 'Eq': lambda a, b: a == b, 'NotEq': lambda a, b: a != b, 'And': lambda a, b: a & b,
        'Or': lambda a, b: a | b, 'Xor': lambda a, b: a ^ b, 'Sll': lambda a, b: a << b, 'Srl': lambda a, b: a >> b,
        'Sra': lambda a, b: a.sra(b)}
ACC = ('ReduceAdd', 'ReduceSub', 'ReduceMax', 'ReduceMin', 'ReduceCustom')
ACCM = ('ReduceMul', 'ReduceDiv')


def cwidth(v):
    return v.bit_length() + 1


class G:
    """graph under construction with the attributes (width, point, signed) of each node"""

    def __init__(self):
        self.nodes = []
        self.at = []

    def add(self, n):
        self.nodes.append(n)
        self.at.append(attr(n, self.at))
        return len(self.nodes) - 1


TREES = ('AddTree', 'Max', 'Min', 'Average', 'AverageRound')


def expand(n, base):
    """the composed operators, as the primitive nodes they are documented to compute;
    indices >= base refer to the list returned"""
    L = []

    def put(x):
        L.append(x)
        return base + len(L) - 1

    k = n['op']

    def tree(a, f):
        if len(a) == 1:
            return a[0]
        h = len(a) // 2
        return f(tree(a[:h], f), tree(a[h:], f))
    if k in ('Max', 'Min'):
        r = tree(n['a'], lambda x, y: put({'op': 'Mux', 'a': [put({'op': 'GreaterThan' if k == 'Max' else 'LessThan', 'a': [x, y]}), x, y]}))
    else:
        r = tree(n['a'], lambda x, y: put({'op': 'Plus', 'a': [x, y]}))
    m = len(n['a'])
    if k == 'AverageRound':
        r = put({'op': 'Plus', 'a': [r, put({'op': 'const', 'v': m // 2})]})
    if k.startswith('Average'):
        if m & (m - 1) == 0:
            b = m.bit_length() - 1
            r = put({'op': 'Sra', 'a': [r, put({'op': 'const', 'v': b})], 'sh': b})
        else:
            r = put({'op': 'Divide', 'a': [r, put({'op': 'const', 'v': m})]})
    if r < base:
        put({'op': 'Alias', 'a': [r]})
    return L


def attr(n, at):
    k = n['op']
    if k in TREES:
        at = list(at)
        for x in expand(n, len(at)):
            at.append(attr(x, at))
        return at[-1]
    a = [at[i] for i in n.get('a', [])]
    if k in ('var', 'param'):
        return (n['w'], n['p'], n['s'])
    if k == 'const':
        return (cwidth(n['v']), n.get('p', 0), True)
    if k in ('Plus', 'Minus'):
        return addattr(a[0], a[1])
    if k in ('Divide', 'Mod', 'DivideMultiCycle'):
        return addattr(a[0], a[1])
    if k == 'Times':
        return (max(a[0][0], a[1][0]), min(max(a[0][1], a[1][1]), a[0][1] + a[1][1]), a[0][2] and a[1][2])
    if k in CMPS or k in ('Land', 'Lor', 'Ulnot', 'Pointer') or k in REDS:
        return (1, 0, False)
    if k in BITS:
        return (max(a[0][0], a[1][0]), 0, False)
    if k == 'Sll':
        v = n['sh'] if n.get('sh') is not None else 2 ** a[1][0]
        return (a[0][0] + v, a[0][1], a[0][2])
    if k == 'Srl':
        return (a[0][0], a[0][1], False)
    if k == 'Sra':
        return (a[0][0], a[0][1], a[0][2])
    if k in ('Uminus', 'Uplus', 'Abs', 'Complement2', 'Sign', 'prev', 'Alias', 'Sync', 'Predicate', 'Reg', 'Probe'):
        return a[0]
    if k == 'Unot':
        return (a[0][0], 0, False)
    if k == 'Mux':
        f, t = a[1], a[2]
        P = max(f[1], t[1])
        return (max(f[0] - f[1], t[0] - t[1]) + P, P, f[2] or t[2])
    if k in ('RingRead', 'PadRead'):
        return a[0] if len(n['rd']) == 1 else (a[0][0], 0, False)
    if k == 'Cat':
        return (sum(x[0] for x in a), 0, False)
    if k == 'Slice':
        return (n['msb'] - n['lsb'] + 1, 0, False)
    if k == 'Repeat':
        return (a[0][0] * n['n'], 0, False)
    if k in ('Cast', 'ReinterpretCast'):
        return (n['w'] if n['w'] is not None else a[0][0], n['p'] if n['p'] is not None else a[0][1],
                n['s'] if n['s'] is not None else a[0][2])
    if k == 'Split':
        return (n['w'], a[0][1], a[0][2])
    if k == 'LUT':
        return (n['w'], 0, n['s'])
    if k == 'MulAdd':
        return (max(x[0] for x in a), a[0][1] + a[1][1], a[0][2] and a[1][2] and a[2][2])
    if k == 'AddN':
        return (max(x[0] for x in a), 0, any(x[2] for x in a))
    if k == 'SraRound':
        return (a[0][0], a[0][1], True)
    if k in ACC or k in ACCM:
        return (n['w'], a[0][1], n['s'])
    if k == 'Counter':
        return (n['w'], 0, n['s'])
    if k == 'RandXorshift':
        return (n['w'], 0, False)
    if k == 'Pulse':
        return (1, 0, False)
    if k == 'readram':
        return (n['w'], 0, n['s'])
    if k == 'CustomCounter':
        return (n['w'], 0, True)
    raise ValueError(k)


def addattr(l, r):
    P = max(l[1], r[1])
    return (max(l[0] - l[1], r[0] - r[1]) + P, P, l[2] and r[2])


# ---------------------------------------------------------------- construction
def customop(which):
    import veriloggen.core.vtypes as vt
    return {'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y, 'and': lambda x, y: x & y,
            'diff': lambda x, y: vt.Mux(x > y, x - y, y - x)}[which]


def build(nodes, st=stream, made=None):
    """st: the module `stream`, or a Stream manager object; made: names of variables already created"""
    E = []
    for n in nodes:
        k = n['op']
        a = [E[i] for i in n.get('a', [])]
        E.append(build1(n, k, a, st, made or {}))
    return E


def kwn(n, E, names):
    return {x: E[n[x]] for x in names if n.get(x) is not None}


def build1(n, k, a, st, made):
    if k in ('var', 'param'):
        if n['name'] in made:
            return made[n['name']]
        f = st.Variable if k == 'var' else st.ParameterVariable
        return f(n['name'], width=n['w'], point=n['p'], signed=n['s'])
    if k == 'const':
        if n.get('raw'):
            return n['v']
        return st.Constant(n['v'] / 2 ** n['p'], point=n['p']) if n.get('p') else st.Constant(n['v'])
    if k in PYOP and n.get('py') and not isinstance(a[0], int):
        return PYOP[k](a[0], a[1])
    if k in PYOP or k in BITS or k in CMPS or k in ('Land', 'Lor', 'Divide', 'Mod', 'DivideMultiCycle'):
        return getattr(st, k)(*a)
    if k in REDS or k in ('Uminus', 'Uplus', 'Unot', 'Ulnot', 'Abs', 'Complement2', 'Sign', 'Alias', 'Probe', 'Mux', 'Cat', 'MulAdd'):
        if k in ('Uminus', 'Abs', 'Uplus') and n.get('py'):
            return {'Uminus': lambda x: -x, 'Abs': abs, 'Uplus': lambda x: +x}[k](a[0])
        return getattr(st, k)(*a)
    if k == 'prev':
        return a[0].prev(n['n'])
    if k == 'readram':
        return st.read_RAM(n['name'], a[0], datawidth=n['w'], signed=n['s'])
    if k == 'Pointer':
        if n.get('pos') is not None:
            return a[0][n['pos']] if n.get('py') else st.Pointer(a[0], n['pos'])
        return st.Pointer(a[0], a[1])
    if k == 'Slice':
        return a[0][n['lsb']:n['msb'] + 1] if n.get('py') else st.Slice(a[0], n['msb'], n['lsb'])
    if k == 'Repeat':
        return st.Repeat(a[0], n['n'])
    if k in ('Cast', 'ReinterpretCast'):
        return getattr(st, k)(a[0], width=n['w'], point=n['p'], signed=n['s'])
    if k == 'Split':
        kw = {'num_chunks': n['chunks']} if n.get('bychunks') else {'width': n['w']}
        r = st.Split(a[0], reverse=n['rev'], **kw)
        if len(r) != n['chunks']:
            raise AssertionError('Split returned %d chunks for %s' % (len(r), n))
        return r[n['i'] if n['rev'] else len(r) - 1 - n['i']]
    if k == 'LUT':
        return st.LUT(a[0], list(n['pat']), width=n['w'], signed=n['s'])
    if k == 'AddN' or k in TREES:
        return getattr(st, k)(*a)
    if k == 'SraRound':
        return st.SraRound(a[0], n['sh'])
    if k == 'Sync':
        return st.Sync(*a)[0]
    kw = {}
    names = list(n.get('kw', {}))
    for i, x in enumerate(names):
        kw[x] = a[n['kw'][x]]
    for x in ('size', 'interval', 'initval', 'step', 'offset', 'reg_initval'):
        if n.get(x) is not None:
            kw[x] = n[x]
    if k in ACC or k in ACCM:
        kw.update(width=n['w'], signed=n['s'])
        if k == 'ReduceCustom':
            if n.get('valid'):
                return st.ReduceCustomValid(customop(n['f']), a[0], **kw)[n['i']]
            return st.ReduceCustom(customop(n['f']), a[0], **kw)
        return getattr(st, k)(a[0], **kw)
    if k == 'Counter':
        return st.Counter(width=n['w'], signed=n['s'], **kw)
    if k == 'Pulse':
        return st.Pulse(**kw)
    if k == 'RandXorshift':
        return st.RandXorshift(width=n['w'], reg_initval=n['seed'], **kw)
    if k in ('Predicate', 'Reg'):
        return getattr(st, k)(a[0], **kw)
    if k in ('RingRead', 'PadRead'):
        en = kw.get('enable')
        en = [] if en is None else [en]
        if k == 'RingRead':
            b = st.RingBuffer(a[0], n['len'], *en)
        else:
            b = st.Scratchpad(a[0], a[1], n['len'], *en)
        r = [b.read(n['off'][j] if k == 'RingRead' else a[x], *([kw['late']] if 'late' in kw else en if n['ren'] else [])) for j, x in enumerate(n['rd'])]
        return r[0] if len(r) == 1 else st.Xor(r[0], r[1])
    raise ValueError(k)


# ---------------------------------------------------------------- evaluation
class Model:
    def __init__(self, nodes):
        self.nodes = nodes
        self.at = []
        for n in nodes:
            self.at.append(attr(n, self.at))
        self.st = [dict() for _ in nodes]
        self.hist = [[] for _ in nodes]
        self.subs = {}

    def step(self, ins, valid):
        """one enabled cycle: ins name->raw bits; -> list of raw bits of every node (None = unknown)"""
        V = []
        for i, n in enumerate(self.nodes):
            v = self.ev(i, n, V, ins, valid)
            w = self.at[i][0]
            V.append(None if v is None else v & mask(w))
            if n.get('hist'):
                self.hist[i].append(V[i])
        return V

    def num(self, i, V):
        w, p, s = self.at[i]
        return None if V[i] is None else (tosigned(V[i], w) if s else V[i])

    def vx(self, tree, V, idx, W):
        env = {str(i): (self.at[i][0], self.at[i][2]) for i in idx}
        vals = {str(i): V[i] for i in idx}
        e = Eval(env)
        w, s = e.ss(tree)
        return e.ev(tree, max(w, W), s, vals)

    def leaf(self, i):
        # a constant is emitted as a (negated) sized signed literal
        if self.nodes[i]['op'] == 'const':
            return ['lit', self.nodes[i]['v'], self.at[i][0], 10, True]
        return ['var', str(i)]

    def ev(self, i, n, V, ins, valid):
        k = n['op']
        a = n.get('a', [])
        w, p, s = self.at[i]
        if k in ('var', 'param'):
            return ins[n['name']]
        if k == 'const':
            return n['v']
        if k in TREES:
            sub = self.subs.get(i)
            if sub is None:
                L = expand(n, i)
                sub = self.subs[i] = Model(self.nodes[:i] + L)
            V2 = list(V)
            for j in range(i, len(sub.nodes)):
                x = sub.ev(j, sub.nodes[j], V2, ins, valid)
                V2.append(None if x is None else x & mask(sub.at[j][0]))
            return V2[-1]
        if any(V[x] is None for x in a) and k not in ACC + ACCM + ('Counter', 'Pulse', 'Predicate', 'Reg', 'RingRead', 'PadRead'):
            return None
        v = lambda j: self.leaf(a[j])
        if k in ('Plus', 'Minus'):
            if self.at[a[0]][1] or self.at[a[1]][1]:
                x, y = [self.num(j, V) << (p - self.at[j][1]) for j in a]
                return x + y if k == 'Plus' else x - y
            return self.vx(['bin', '+' if k == 'Plus' else '-', v(0), v(1)], V, a, w)
        if k in CMPS:
            if self.at[a[0]][1] or self.at[a[1]][1]:
                P = max(self.at[a[0]][1], self.at[a[1]][1])
                x, y = [self.num(j, V) << (P - self.at[j][1]) for j in a]
                return int({'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '!=': x != y}[CMPS[k]])
            return self.vx(['bin', CMPS[k], v(0), v(1)], V, a, 1)
        if k == 'Times':
            x = self.num(a[0], V) * self.num(a[1], V)
            return x >> (self.at[a[0]][1] + self.at[a[1]][1] - p)
        if k in ('Divide', 'Mod', 'DivideMultiCycle'):
            x, y = [self.num(j, V) << (p - self.at[j][1]) for j in a]
            if y == 0:
                return None
            q = abs(x) // abs(y)
            q = -q if (x < 0) != (y < 0) else q
            return x - q * y if k == 'Mod' else q
        if k in BITS:
            return self.vx(['bin', BITS[k], v(0), v(1)], V, a, w)
        if k in ('Land', 'Lor'):
            return int((V[a[0]] and V[a[1]]) != 0) if k == 'Land' else int((V[a[0]] or V[a[1]]) != 0)
        if k in SHS:
            b = n['sh'] if n.get('sh') is not None else V[a[1]]
            x = self.num(a[0], V) if k != 'Srl' else V[a[0]]
            return x << b if k == 'Sll' else x >> b
        if k == 'Uminus':
            return -V[a[0]]
        if k == 'readram':
            return self.rams[n['name']][V[a[0]]]
        if k in ('Uplus', 'Alias', 'Probe', 'Sync'):
            return V[a[0]]
        if k == 'Unot':
            return ~V[a[0]]
        if k == 'Ulnot':
            return int(V[a[0]] == 0)
        if k in REDS:
            return self.vx(['un', REDS[k], v(0)], V, a, 1)
        if k == 'Abs':
            return abs(self.num(a[0], V))
        if k == 'Complement2':
            return -V[a[0]]
        if k == 'Sign':
            return int(self.num(a[0], V) < 0)
        if k == 'Mux':
            f, t = a[2], a[1]
            c = t if V[a[0]] else f
            if self.at[t][1] or self.at[f][1]:
                return self.num(c, V) << (p - self.at[c][1])
            both = self.at[t][2] and self.at[f][2]
            if self.nodes[c]['op'] == 'const':
                return self.nodes[c]['v']
            return ext(V[c], self.at[c][0], w, both)
        if k == 'Cat':
            r = 0
            for x in a:
                r = r << self.at[x][0] | V[x]
            return r
        if k == 'Slice':
            return V[a[0]] >> n['lsb']
        if k == 'Pointer':
            pos = n['pos'] if n.get('pos') is not None else V[a[1]]
            if pos < 0:
                pos += self.at[a[0]][0]
            return V[a[0]] >> pos & 1 if pos < self.at[a[0]][0] else None
        if k == 'Repeat':
            r = 0
            for _ in range(n['n']):
                r = r << self.at[a[0]][0] | V[a[0]]
            return r
        if k == 'Cast':
            x = self.num(a[0], V)
            d = p - self.at[a[0]][1]
            return x << d if d >= 0 else x >> -d
        if k == 'ReinterpretCast':
            return self.num(a[0], V)
        if k == 'Split':
            return (self.num(a[0], V) >> (n['i'] * n['w']))
        if k == 'LUT':
            return n['pat'][V[a[0]]] if V[a[0]] < len(n['pat']) else None
        if k == 'MulAdd':
            return self.num(a[0], V) * self.num(a[1], V) + self.num(a[2], V)
        if k == 'AddN':
            t = v(0)
            for j in range(1, len(a)):
                t = ['bin', '+', t, v(j)]
            return self.vx(t, V, a, w)
        if k == 'SraRound':
            # round half away from zero (what the rounder/sign-corrected shift computes)
            x = self.num(a[0], V)
            r = n['sh']
            if r <= 0:
                return x
            return (x + (1 << (r - 1)) + (-1 if x < 0 else 0)) >> r
        if k == 'prev':
            h = self.hist[a[0]]
            return h[-1 - n['n']] if len(h) > n['n'] else None
        return self.acc(i, n, k, a, V, valid)

    def acc(self, i, n, k, a, V, valid):
        w, p, s = self.at[i]
        st = self.st[i]
        kw = {x: V[a[j]] for x, j in n.get('kw', {}).items()}
        en, rst = kw.get('enable'), kw.get('reset')
        if not st:
            iv = n.get('initval') or 0
            pulse = k == 'ReduceCustom' and n.get('valid') and n['i'] == 1
            st.update(data=None if k in ('RingRead', 'PadRead') else iv if k not in ('Predicate', 'Reg', 'Pulse', 'RandXorshift') and not pulse else 0, cnt=0, full=False, ic=0, count=iv)
            if n.get('reg_initval') is not None:
                st['data'] = st['count'] = n['reg_initval']
            if k == 'RandXorshift':
                st['data'] = st['count'] = n['seed']
        out = st['data']
        if not valid:
            return None if st.get('bad') else st['data']
        if st.get('bad') or (valid and any(V[x] is None for x in (a[1:] if k in ('RingRead', 'PadRead') else a))):
            st['bad'] = True
            return None
        if k in ('Predicate', 'Reg'):
            if kw.get('when', 1):
                st['data'] = V[a[0]]
            return st['data']
        if k in ('RingRead', 'PadRead'):
            en = en is None or en
            mem, L = st.setdefault('mem', {}), n['len']
            slot = st['cnt'] % L if k == 'RingRead' else V[a[1]]
            if en:
                mem[slot] = V[a[0]]
                st['cnt'] += 1
            if kw['late'] if 'late' in kw else en or not n['ren']:
                r = []
                aw, _, asg = self.at[a[0]]
                for j, x in enumerate(n['rd']):
                    v = mem.get((slot + n['off'][j]) % L if k == 'RingRead' else V[a[x]])
                    r.append(None if v is None else (tosigned(v, aw) if asg else v))
                st['data'] = None if None in r else (r[0] if len(r) == 1 else (r[0] & mask(w)) ^ (r[1] & mask(w)))
            return st['data']
        iv = n.get('initval') or 0
        if k == 'RandXorshift':
            if en is None or en:
                x = st['count']
                st['data'] = x
                m = mask(w)
                if w == 32:
                    x = x ^ (x << 13) & m
                    x ^= x >> 17
                    x = (x ^ (x << 5)) & m
                else:
                    x = x ^ (x << 13) & m
                    x ^= x >> 7
                    x = (x ^ (x << 17)) & m
                st['count'] = x
            return st['data']
        itv = n.get('interval')
        size = kw.get('size', n.get('size'))
        if k == 'Counter':
            cur = iv if rst else st['count']
            st['data'] = cur
            if en is None or en:
                go = True
                if itv is not None:
                    c = 0 if rst else st['ic']
                    st['ic'] = 0 if c >= itv - 1 else c + 1
                    go = c == itv - 1
                if go:
                    step = n.get('step') or 1
                    nx = cur + step
                    if size is not None and cur >= size - step:
                        nx = n['offset'] if n.get('offset') is not None else nx - size
                    st['count'] = nx
                else:
                    st['count'] = st['count'] if not rst else st['count']
            return st['data']
        # Reduce*, Pulse
        restart = bool(rst) or st['full']
        if rst:
            st['data'] = iv
        go = en is None or en
        if go and itv is not None:
            c = 0 if rst else st['ic']
            st['ic'] = 0 if c >= itv - 1 else c + 1
            go = c == itv - 1
        if not go:
            return st['data']
        cur = iv if restart else st['data']
        c = 0 if restart else st['cnt']
        if size is not None:
            st['full'] = c >= size - 1
            st['cnt'] = 0 if st['full'] else c + 1
        if k == 'Pulse' or (k == 'ReduceCustom' and n.get('valid') and n['i'] == 1):
            st['data'] = int(c >= size - 1)
            return st['data']
        st['data'] = self.redop(n, k, cur, a[0], V, w, s)
        return st['data']

    def redop(self, n, k, cur, r, V, w, s):
        rw, _, rs = self.at[r]
        W = max(w, rw)
        both = s and rs
        x = ext(cur & mask(w), w, W, both)
        y = ext(V[r], rw, W, both)
        xs, ys = (tosigned(x, W), tosigned(y, W)) if both else (x, y)
        if k == 'ReduceAdd':
            v = x + y
        elif k == 'ReduceSub':
            v = x - y
        elif k == 'ReduceMax':
            v = max(xs, ys)
        elif k == 'ReduceMin':
            v = min(xs, ys)
        elif k == 'ReduceMul':
            v = (tosigned(cur & mask(w), w) if s else cur & mask(w)) * (tosigned(V[r], rw) if rs else V[r])
        elif k == 'ReduceDiv':
            a = tosigned(cur & mask(w), w) if s else cur & mask(w)
            b = tosigned(V[r], rw) if rs else V[r]
            q = abs(a) // abs(b)
            v = -q if (a < 0) != (b < 0) else q
        else:
            f = n['f']
            v = {'or': x | y, 'xor': x ^ y, 'and': x & y, 'diff': abs(xs - ys)}[f]
        return v & mask(w)


# ---------------------------------------------------------------- generation
def fin(g):
    """mark the nodes whose history a prev() reads"""
    for n in g.nodes:
        if n['op'] == 'prev':
            g.nodes[n['a'][0]]['hist'] = 1
    return g.nodes


def gen_graph(rng, nvars=None, nops=None, kinds=None, acc=False, fixed=None, params=True, maxw=24, wide=None):
    g = G()
    nv = nvars or rng.randint(1, 3)
    fixed = rng.random() < 0.3 if fixed is None else fixed
    for i in range(nv):
        w = wide or rng.choice([4, 5, 8, 8, 12, 16, 16, 24, 32][:9 if maxw >= 32 else 8])
        p = rng.choice([0, 2, 4, w // 2]) if fixed else 0
        g.add({'op': 'var', 'name': 'x%d' % i, 'w': w, 'p': min(p, w - 1), 's': True if fixed else rng.random() < 0.6})
    if params and rng.random() < 0.4:
        w = rng.choice([4, 8, 16])
        g.add({'op': 'param', 'name': 'p0', 'w': w, 'p': 0, 's': True if fixed else rng.random() < 0.6})
    n = nops or rng.randint(2, 9)
    for _ in range(n):
        for _t in range(30):
            if gen_op(rng, g, fixed, acc, kinds):
                break
    return g


def isconst(g, i):
    return g.nodes[i]['op'] == 'const'


def pick(rng, g, f=lambda at: True, const=False):
    c = [i for i in range(len(g.nodes)) if f(g.at[i]) and (const or not isconst(g, i)) and g.at[i][0] <= 40]
    if not c:
        return None
    # prefer recent nodes
    return c[max(rng.randrange(len(c)), rng.randrange(len(c)))]


def mkconst(rng, g, lo=-20, hi=40, p=0):
    return g.add({'op': 'const', 'v': rng.randint(lo, hi), 'p': p, 'raw': p == 0 and rng.random() < 0.5})


def bit(rng, g):
    """a 1-bit condition node"""
    i = pick(rng, g, lambda at: at[0] == 1)
    if i is not None and rng.random() < 0.4:
        return i
    x = pick(rng, g)
    c = rng.randrange(3)
    if c == 0:
        return g.add({'op': 'Pointer', 'a': [x], 'pos': rng.randrange(g.at[x][0])})
    if c == 1:
        return g.add({'op': 'Uxor', 'a': [x]})
    y = g.add({'op': 'const', 'v': rng.randint(0, 3), 'raw': rng.random() < 0.5})
    if g.at[x][1]:
        return g.add({'op': 'Uor', 'a': [x]})
    return g.add({'op': rng.choice(list(CMPS)), 'a': [x, y]})


DEFAULT = (['Plus'] * 4 + ['Minus'] * 3 + ['Times'] * 2 + ['cmp'] * 2 + ['bits'] * 2 + ['logic', 'shc', 'shc', 'shv', 'Uminus', 'Unot', 'Ulnot', 'red', 'Abs',
           'Complement2', 'Sign', 'Mux', 'Mux', 'Cat', 'Slice', 'Pointer', 'Repeat', 'Cast', 'Cast', 'ReinterpretCast', 'Split', 'LUT', 'MulAdd', 'AddN',
           'AddTree', 'maxmin', 'Average', 'SraRound', 'prev', 'prev', 'Alias', 'Sync', 'div'])
ACCK = ['Reduce'] * 5 + ['Counter'] * 2 + ['Pulse', 'Predicate', 'Predicate', 'Rand', 'ReduceV', 'ArgMax']


def gen_op(rng, g, fixed, acc, kinds=None):
    ks = kinds or (DEFAULT + (ACCK if acc else []))
    k = rng.choice(ks)
    same = (lambda at: at[2]) if fixed else (lambda at: True)
    py = rng.random() < 0.5
    if k in ('Plus', 'Minus', 'cmp'):
        x = pick(rng, g, same)
        y = pick(rng, g, same) if rng.random() < 0.8 else mkconst(rng, g, p=rng.choice([0, 0, 2, 5]) if fixed else 0)
        if x is None or y is None:
            return False
        if k == 'cmp':
            k = rng.choice(list(CMPS))
        ab = [x, y]
        if rng.random() < 0.2 and not g.nodes[y].get('raw'):
            ab.reverse()
        g.add({'op': k, 'a': ab, 'py': py})
    elif k == 'Times':
        x = pick(rng, g, lambda at: same(at) and at[0] <= 24)
        y = pick(rng, g, lambda at: same(at) and at[0] <= 24) if rng.random() < 0.8 else mkconst(rng, g)
        if x is None or y is None:
            return False
        g.add({'op': k, 'a': [x, y], 'py': py})
    elif k in ('div', 'DivMC'):
        x = pick(rng, g, lambda at: 4 <= at[0] <= 16 and at[1] == 0)
        if x is None:
            return False
        s = g.at[x][2]
        if rng.random() < 0.3 and s:
            y = g.add({'op': 'const', 'v': rng.choice([1, 2, 3, 5, 7, -2, -3, 11]), 'raw': False})
        else:
            z = pick(rng, g, lambda at: 4 <= at[0] <= 16 and at[1] == 0)
            o = g.add({'op': 'const', 'v': 1, 'raw': False})
            y = g.add({'op': 'Or', 'a': [z, o]})
            if s:
                y = g.add({'op': 'ReinterpretCast', 'a': [y], 'w': None, 'p': None, 's': True})
        g.add({'op': rng.choice(['Divide', 'Mod']) if k == 'div' else 'DivideMultiCycle', 'a': [x, y], 'py': py})
    elif k == 'bits':
        g.add({'op': rng.choice(list(BITS)), 'a': [pick(rng, g), pick(rng, g)], 'py': py and False})
    elif k == 'logic':
        g.add({'op': rng.choice(['Land', 'Lor']), 'a': [pick(rng, g), pick(rng, g)]})
    elif k == 'shc':
        x = pick(rng, g, lambda at: at[0] <= 32)
        sh = rng.randint(0, min(g.at[x][0], 7))
        c = g.add({'op': 'const', 'v': sh, 'raw': rng.random() < 0.5})
        kk = rng.choice(list(SHS))
        g.add({'op': kk, 'a': [x, c], 'sh': sh, 'py': py and kk != 'Sra'})
    elif k == 'shv':
        x = pick(rng, g, lambda at: at[0] <= 24)
        y = pick(rng, g, lambda at: at[0] <= 4 and at[1] == 0)
        if y is None:
            return False
        g.add({'op': rng.choice(list(SHS)), 'a': [x, y]})
    elif k in ('Uminus', 'Unot', 'Ulnot', 'Complement2', 'Alias'):
        g.add({'op': k, 'a': [pick(rng, g)], 'py': py})
    elif k in ('Abs', 'Sign'):
        x = pick(rng, g, lambda at: at[2])
        if x is None:
            return False
        g.add({'op': k, 'a': [x], 'py': py})
    elif k == 'red':
        g.add({'op': rng.choice(list(REDS)), 'a': [pick(rng, g)]})
    elif k == 'Mux':
        c = bit(rng, g)
        x = pick(rng, g, same)
        y = pick(rng, g, same) if rng.random() < 0.8 else mkconst(rng, g)
        if x is None or y is None:
            return False
        g.add({'op': 'Mux', 'a': [c, x, y]})
    elif k == 'Cat':
        a = [pick(rng, g, lambda at: at[0] <= 12) for _ in range(rng.randint(1, 3))]
        if None in a:
            return False
        g.add({'op': 'Cat', 'a': a})
    elif k == 'Slice':
        x = pick(rng, g)
        l = rng.randrange(g.at[x][0])
        g.add({'op': 'Slice', 'a': [x], 'lsb': l, 'msb': rng.randrange(l, g.at[x][0]), 'py': py})
    elif k == 'Pointer':
        x = pick(rng, g)
        if rng.random() < 0.6:
            g.add({'op': 'Pointer', 'a': [x], 'pos': rng.randrange(g.at[x][0]), 'py': py})
        else:
            x = pick(rng, g, lambda at: at[0] >= 8)
            y = pick(rng, g, lambda at: at[0] <= 3 and not at[2] and at[1] == 0)
            if x is None or y is None:
                return False
            g.add({'op': 'Pointer', 'a': [x, y]})
    elif k == 'Repeat':
        x = pick(rng, g, lambda at: at[0] <= 8)
        if x is None:
            return False
        g.add({'op': 'Repeat', 'a': [x], 'n': rng.randint(1, 4)})
    elif k in ('Cast', 'ReinterpretCast'):
        x = pick(rng, g)
        w = rng.choice([None, 4, 8, 12, 20, 32])
        W = w or g.at[x][0]
        p = rng.choice([None, 0, 2, 4, 6]) if fixed and W > 8 else rng.choice([None, 0])
        if (p if p is not None else g.at[x][1]) >= W:
            return False
        g.add({'op': k, 'a': [x], 'w': w, 'p': p, 's': True if fixed else rng.choice([None, True, False])})
    elif k == 'Split':
        x = pick(rng, g, lambda at: at[0] >= 4 and at[1] == 0)
        if x is None:
            return False
        W = g.at[x][0]
        by = rng.random() < 0.5
        if by:
            ch = rng.choice([1, 2, 3, 4])
            w = -(-W // ch)
            if w * (ch - 1) >= W:
                return False
        else:
            w = rng.randint(2, W)
            ch = -(-W // w)
        g.add({'op': 'Split', 'a': [x], 'w': w, 'chunks': ch, 'bychunks': by, 'i': rng.randrange(ch), 'rev': rng.random() < 0.5})
    elif k == 'LUT':
        x = pick(rng, g)
        nb = rng.randint(1, min(4, g.at[x][0]))
        l = rng.randint(0, g.at[x][0] - nb)
        y = g.add({'op': 'Slice', 'a': [x], 'lsb': l, 'msb': l + nb - 1})
        w = rng.choice([4, 8, 16])
        npat = 2 ** nb if rng.random() < 0.6 else rng.randint(2 ** (nb - 1) + (nb > 1), 2 ** nb)
        if npat < 2:
            return False
        g.add({'op': 'LUT', 'a': [y], 'w': w, 's': rng.random() < 0.5, 'pat': [rng.randrange(2 ** (w - 1)) for _ in range(npat)]})
    elif k == 'MulAdd':
        f = lambda at: at[0] <= 20 and at[1] == 0 and same(at)
        a = [pick(rng, g, f) for _ in range(3)]
        if None in a:
            return False
        g.add({'op': 'MulAdd', 'a': a})
    elif k == 'AddN':
        a = [pick(rng, g, lambda at: at[1] == 0) for _ in range(rng.randint(1, 5))]
        if None in a:
            return False
        if len(a) == 1:
            a = a * 2
        g.add({'op': 'AddN', 'a': a})
    elif k in ('AddTree', 'maxmin', 'Average'):
        return gen_tree(rng, g, k, same)
    elif k == 'SraRound':
        x = pick(rng, g, lambda at: at[2] and at[1] == 0 and at[0] >= 4)
        if x is None:
            return False
        g.add({'op': 'SraRound', 'a': [x], 'sh': rng.randint(0, min(6, g.at[x][0] - 1))})
    elif k == 'prev':
        g.add({'op': 'prev', 'a': [pick(rng, g)], 'n': rng.randint(1, 4)})
    elif k == 'Sync':
        g.add({'op': 'Sync', 'a': [pick(rng, g) for _ in range(rng.randint(1, 3))]})
    else:
        return gen_acc(rng, g, k)
    return True


def gen_tree(rng, g, k, same):
    op = {'AddTree': 'AddTree', 'maxmin': rng.choice(['Max', 'Min']), 'Average': rng.choice(['Average', 'AverageRound'])}[k]
    f = same
    if k == 'Average':
        f = lambda at: at[2] and at[1] == 0 and 4 <= at[0] <= 16
    a = [pick(rng, g, f) for _ in range(rng.randint(1, 5))]
    if None in a or (len(a) == 1 and op == 'AverageRound'):
        return False
    g.add({'op': op, 'a': a})
    return True


def gen_acc(rng, g, k):
    kw, a = {}, []
    if k == 'ReduceM':
        w = rng.choice([8, 16, 32])
        x = pick(rng, g, lambda at: at[0] <= w and at[1] == 0)
        if x is None:
            return False
        s = g.at[x][2]
        op = rng.choice(ACCM)
        if op == 'ReduceDiv':
            x = g.add({'op': 'Or', 'a': [x, g.add({'op': 'const', 'v': 1, 'raw': False})]})
            s = False
        g.add({'op': op, 'a': [x], 'w': w, 's': s, 'size': rng.choice([None, None, 2, 3]), 'initval': rng.choice([1, 3, 100, 127]), 'kw': {}})
        return True
    if k in ('Reduce', 'ReduceV', 'ArgMax'):
        a.append(pick(rng, g))
    if k == 'Predicate':
        a.append(pick(rng, g))
        if rng.random() < 0.8:
            kw['when'] = len(a)
            a.append(bit(rng, g))
        g.add({'op': rng.choice(['Predicate', 'Reg']), 'a': a, 'kw': kw})
        return True
    if k in ('RingRead', 'PadRead'):
        x = pick(rng, g)
        n = {'op': k, 'a': [x], 'kw': kw, 'ren': rng.random() < .5, 'rd': [0] * rng.choice([1, 1, 2])}
        if k == 'RingRead':
            n['len'] = rng.choice([2, 3, 4, 5, 8, 13])
            n['off'] = [rng.choice([0, 1, n['len'] - 1, rng.randrange(n['len']), rng.randrange(n['len'])]) for _ in n['rd']]
        else:
            L = rng.choice([4, 8, 16])
            n['len'] = L
            y = pick(rng, g, lambda at: at[1] == 0)
            if y is None:
                return False
            n['a'].append(g.add({'op': 'And', 'a': [y, g.add({'op': 'const', 'v': L - 1, 'raw': False})], 'py': False}))
            for j in range(len(n['rd'])):
                n['rd'][j] = len(n['a'])
                n['a'].append(rng.choice([n['a'][1], g.add({'op': 'const', 'v': rng.randrange(L), 'raw': rng.random() < .5})]))
        if rng.random() < .5:
            kw['enable'] = len(n['a'])
            n['a'].append(bit(rng, g))
        n['ren'] = n['ren'] and 'enable' in kw
        if k == 'RingRead' and rng.random() < .35:
            # read some stages after the write: the later items must not have come round
            n['len'] = 64
            n['off'] = [rng.choice([0, 63, 62, 60]) for _ in n['rd']]
            kw['late'] = len(n['a'])
            n['a'].append(bit(rng, g))
        if k == 'RingRead':
            # an item of the past is named by a negative offset
            n['off'] = [o - n['len'] if o and rng.random() < .5 else o for o in n['off']]
        g.add(n)
        return True
    en = rng.random() < 0.4
    rs = rng.random() < 0.4
    n = {'size': rng.choice([None, 1, 2, 3, 4, 7]), 'interval': None}
    if k in ('Counter', 'Rand') and (rng.random() < 0.5 or k == 'Rand'):
        if en:
            rs = False
    if k == 'Counter' and en and rs:
        rs = False
    if (n['size'] is not None or k in ('ReduceV', 'Pulse')) and en and rs:
        en = False
    if k == 'Rand':
        rs = False
    if en:
        kw['enable'] = len(a)
        a.append(bit(rng, g))
    if rs:
        kw['reset'] = len(a)
        a.append(bit(rng, g))
    if k not in ('Rand', 'ReduceV') and rng.random() < 0.3:
        n['interval'] = rng.choice([1, 2, 3, 5, 5, 9, 20])
    if rs and (k in ('Counter', 'Pulse') or n['size'] is not None):
        n['interval'] = None
    n['kw'] = kw
    n['a'] = a
    n['w'] = rng.choice([4, 8, 16, 32, 40])
    n['s'] = rng.random() < 0.6
    if k == 'Reduce':
        n['op'] = rng.choice(ACC)
        n['f'] = rng.choice(['or', 'xor', 'and', 'diff'])
        n['initval'] = rng.choice([None, 0, 1, 5, 100, -3 if n['s'] else 3])
    elif k == 'ReduceV':
        n.update(op='ReduceCustom', valid=1, i=rng.randrange(2), f=rng.choice(['or', 'xor', 'diff']), size=n['size'] or 3, initval=rng.choice([0, 7]))
        if n['i'] == 1:
            n['w'], n['s'] = 1, False
    elif k == 'Counter':
        st = rng.choice([None, 1, 2, 3])
        n.update(op='Counter', s=rng.random() < 0.3, step=st, initval=rng.choice([None, 0, 2]))
        if n['size'] is not None:
            n['size'] = rng.choice([4, 5, 8, 9])
            n['offset'] = rng.choice([None, None, 0, 1])
            n['w'] = max(n['w'], 8)
    elif k == 'Pulse':
        n.update(op='Pulse', size=n['size'] or 4, w=1, s=False)
    elif k == 'Rand':
        n.update(op='RandXorshift', w=rng.choice([32, 64]), seed=rng.choice([0x12345678, 1, 0xdeadbeef]), size=None)
    else:
        return False
    g.add(n)
    return True
