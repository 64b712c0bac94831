"""C02: constants keep value, width, base and sign."""
import struct
from vlib.harness import Violation, Inconclusive
from vlib.sim import iverilog

PID = 'C02'
RULE = ('random and boundary constants (Python ints/bools, Int(value,width,base,signed), Int("literal string" with '
        'underscores/x/z), IntX/IntZ, floats, strings) used as a system-task argument (self-determined width observed by '
        '%b), an assignment source to a 96-bit target (sign extension observed), a localparam, a register initial value '
        'and a case label; distinct by (form, width, base, sign, value class, context)')
ASSUMPTIONS = ['Icarus Verilog implements IEEE-1364 literals', 'unsized constants are 32 bits',
               'string constants contain printable characters other than double quote and backslash']
MIN_EVENTS = {'literals_self': 500, 'literals_ctx': 500, 'literals_x': 20, 'reals': 20, 'strings': 20}
BASES = {2: 'b', 8: 'o', 10: 'd', 16: 'h'}
CTXW = 96


def counts(tier):
    return 60 if tier == 'quick' else 1500


def rnd_int(rng, w):
    return rng.choice([0, 1, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, rng.getrandbits(w)]) & ((1 << w) - 1)


def digits(rng, v, w, base):
    t = {2: bin(v)[2:], 8: '%o' % v, 10: '%d' % v, 16: '%x' % v}[base]
    if base == 16 and rng.random() < 0.3:
        t = t.upper()
    if rng.random() < 0.3:
        t = t.zfill(len(t) + rng.randrange(0, 2))
    if len(t) > 1 and rng.random() < 0.4:
        p = rng.randrange(1, len(t))
        t = t[:p] + '_' + t[p:]
    return t


def one(rng):
    x = rng.random()
    w = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 24, 31, 32, 33, 40, 63, 64, 65, 80])
    if x < 0.10:
        v = rng.choice([0, 1, 2, 7, 255, 256, 65535, 65536, 2 ** 31 - 1, rng.getrandbits(30)])
        return ['py', -v if rng.random() < 0.4 else v]
    if x < 0.13:
        return ['pybool', rng.random() < 0.5]
    if x < 0.18:
        return ['intbool', rng.random() < 0.5, rng.choice([None, 1, 4])]
    if x < 0.60:
        wid = w if rng.random() < 0.8 else None
        base = rng.choice([None, 2, 8, 10, 16])
        sg = rng.random() < 0.4
        if rng.random() < 0.4 and (wid or 32) > 1:
            ww = wid or 32
            v = -rng.choice([1, 1 << (ww - 1), (1 << (ww - 1)) - 1, 1 + rng.getrandbits(ww - 1) % max(1, (1 << (ww - 1)))])
            v = max(v, -(1 << (ww - 1)))
            if wid is None:
                v = max(v, -(2 ** 31 - 1))
        else:
            v = rnd_int(rng, wid or 31)
        return ['num', v, wid, base, sg]
    if x < 0.78:
        base = rng.choice([2, 8, 10, 16])
        wid = w if rng.random() < 0.8 else None
        sg = rng.random() < 0.4
        v = rnd_int(rng, wid or 31)
        return ['nstr' if wid and (not sg or v < 1 << (wid - 1)) and rng.random() < 0.15 else 'str', digits(rng, v, wid, base), v, wid, base, sg]
    if x < 0.82:
        v = rng.getrandbits(31)
        return ['strdec', digits(rng, v, None, 10), v]
    if x < 0.90:
        base = rng.choice([2, 8, 10, 16])
        per = {2: 1, 8: 3, 16: 4}.get(base, 0)
        wid = w if rng.random() < 0.8 else None
        if base == 10:
            d = rng.choice('xzXZ')
        else:
            n = max(1, min(((wid or 32) + per - 1) // per, rng.randrange(1, 9)))
            if wid and per * n > wid:
                n = wid // per or 1
            d = ''.join(rng.choice('01xzXZ' + {2: '', 8: '57', 16: '9aF'}[base]) for _ in range(n))
            if all(c not in 'xzXZ' for c in d):
                d = 'x' + d[1:]
        return ['xz', d, wid, base, rng.random() < 0.3]
    if x < 0.93:
        return ['IntXZ', rng.choice('XZ'), w if rng.random() < 0.8 else None, rng.choice([None, 2, 8, 16])]
    if x < 0.97:
        f = rng.choice([0.5, 1.0, 3.25, 1e-9, 1e16, 1e22, 123456789.125, 0.1, rng.random() * 1000, 2.0 ** rng.randrange(-60, 60),
                        float(rng.randrange(1000)), rng.uniform(-1e6, 1e6)])
        return ['float', -f if rng.random() < 0.4 else f, rng.choice(['Float', 'py'])]
    n = rng.randrange(1, 20)
    return ['string', ''.join(rng.choice("abcXYZ0189 _-+*/<>()[]{}:;,.%'!?@#$^&|~=") for _ in range(n)).strip() or 'q',
            rng.choice(['Str', 'py'])]


def gen(rng, i, tier):
    return {'consts': [one(rng) for _ in range(40)]}


def directed():
    c = []
    for w in (1, 2, 7, 8, 16, 32, 33, 64):
        for b in (None, 2, 8, 10, 16):
            for v in (0, 1, (1 << w) - 1, 1 << (w - 1)):
                for s in (False, True):
                    c.append(['num', v, w, b, s])
            if w > 1:
                c.append(['num', -1, w, b, False])
                c.append(['num', -(1 << (w - 1)) + 1, w, b, True])
            c.append(['num', -(1 << (w - 1)), w, b, False])
    for b in (2, 8, 10, 16):
        for s in (False, True):
            for v in (0, 5, 200, 255):
                c.append(['str', {2: bin(v)[2:], 8: '%o' % v, 10: '%d' % v, 16: '%x' % v}[b], v, 8, b, s])
                c.append(['str', {2: bin(v)[2:], 8: '%o' % v, 10: '%d' % v, 16: '%x' % v}[b], v, None, b, s])
    c += [['nstr', '5', 5, 8, 10, False], ['nstr', '7f', 127, 8, 16, True], ['nstr', '11', 3, 4, 2, False]]
    for d in ('x', 'z', '1x', 'xz01', '0_x1'):
        c.append(['xz', d, 8, 2, False])
        c.append(['xz', d, None, 2, False])
    c += [['xz', 'x', 8, 16, False], ['xz', 'fx', 12, 16, False], ['xz', 'zF', 8, 16, True], ['xz', 'x', 9, 8, False]]
    c += [['py', v] for v in (0, 1, -1, 2 ** 31 - 1, -(2 ** 31 - 1), 255)]
    c += [['pybool', True], ['pybool', False], ['intbool', True, None], ['intbool', False, 4], ['intbool', True, 1]]
    c += [['float', 5.0, 'Float'], ['float', -2.5, 'Float'], ['float', 1e20, 'py'], ['floatint', 5], ['floatint', -3]]
    out = []
    for j in range(0, len(c), 40):
        out.append({'consts': c[j:j + 40]})
    return out


def expected(c):
    """-> (bits string self-determined, signed) by the Verilog meaning of the request"""
    k = c[0]
    if k == 'py':
        return tobits(c[1], 32), True
    if k == 'pybool':
        return tobits(int(c[1]), 32), True
    if k == 'intbool':
        return tobits(int(c[1]), c[2] or 32), c[2] is None
    if k == 'num':
        v, w, b, s = c[1:]
        sg = v < 0 or s or (w is None and b is None)
        return tobits(v, w or 32), sg
    if k in ('str', 'nstr'):
        d, v, w, b, s = c[1:]
        return tobits(v if k == 'str' else -v, w or 32), s
    if k == 'strdec':
        return tobits(c[2], 32), True
    if k in ('xz', 'IntXZ'):
        if k == 'IntXZ':
            d, w, b, s = c[1].lower(), c[2], 16, False
        else:
            d, w, b, s = c[1].replace('_', '').lower(), c[2], c[3], c[4]
        per = {2: 1, 8: 3, 16: 4}.get(b, 0)
        W = w or 32
        if b == 10:
            return d * W, s
        bits = ''.join(ch * per if ch in 'xz' else tobits(int(ch, 16), per) for ch in d)
        if len(bits) < W:
            bits = (bits[0] if bits[0] in 'xz' else '0') * (W - len(bits)) + bits
        return bits[-W:], s
    raise ValueError(c)


def tobits(v, w):
    return bin((v & ((1 << w) - 1)) | (1 << w))[3:]


def literal(c):
    if c[0] in ('str', 'nstr'):
        d, v, w, b, s = c[1:]
    else:
        d, w, b, s = c[1:]
    return "%s%s'%s%s%s" % ('-' if c[0] == 'nstr' else '', w or '', 's' if s else '', BASES[b], d)


def build(c, v):
    k = c[0]
    if k in ('py', 'pybool'):
        return c[1]
    if k == 'intbool':
        return v.Int(bool(c[1]), width=c[2])
    if k == 'num':
        return v.Int(c[1], width=c[2], base=c[3], signed=c[4])
    if k == 'strdec':
        return v.Int(c[1])
    if k in ('str', 'nstr', 'xz'):
        return v.Int(literal(c))
    if k == 'IntXZ':
        return (v.IntX if c[1] == 'X' else v.IntZ)(c[2], c[3])
    if k == 'float':
        return v.Float(c[1]) if c[2] == 'Float' else c[1]
    if k == 'floatint':
        return v.Float(c[1])
    if k == 'string':
        return v.Str(c[1]) if c[2] == 'Str' else c[1]


def run(case, ctx):
    import veriloggen as vg
    import veriloggen.core.vtypes as v
    m = vg.Module('top')
    clk = m.Reg('clk', initval=0)
    st = []
    exp = {}
    for k, c in enumerate(case['consts']):
        if c[0] in ('num', 'str', 'xz') and c[-3] is None and (c[-1] or c[0] == 'num' and c[1] < 0) and c[-2] in (2, 8, 16):
            continue      # unsized signed based constants: simulators disagree on the sign position
        L = lambda: build(c, v)
        if c[0] in ('float', 'floatint'):
            st.append(v.Systask('display', 'F %d %%h' % k, v.SystemTask('realtobits', L())))
            exp['F', k] = struct.pack('>d', float(c[1])).hex()
            r = v.Minus(1.5, L()) if k & 1 else v.Uminus(L())
            st.append(v.Systask('display', 'N %d %%h' % k, v.SystemTask('realtobits', r)))
            exp['N', k] = struct.pack('>d', 1.5 - c[1] if k & 1 else -float(c[1])).hex()
            if k % 3 == 0:
                st.append(v.Systask('display', 'Q %d %%h' % k, v.SystemTask('realtobits', v.Divide(L(), 3))))
                exp['Q', k] = struct.pack('>d', float(c[1]) / 3).hex()
            continue
        if c[0] == 'string':
            st.append(v.Systask('display', 'T %d <%%0s>' % k, L()))
            exp['T', k] = '<%s>' % c[1]
            continue
        bits, sg = expected(c)
        st.append(v.Systask('display', 'S %d %%b' % k, L()))
        exp['S', k] = bits
        w = m.Wire('w%d' % k, CTXW, signed=bool(k & 1))
        w.assign(L())
        st.append(v.Systask('display', 'C %d %%b' % k, w))
        pad = bits[0] if (sg or bits[0] in 'xz') else '0'
        ebits = pad * (CTXW - len(bits)) + bits
        if 'x' in bits or 'z' in bits:
            # (simulator-dependent) unsized x/z constants extend to the context, sized ones by sign; only the literal's own bits are judged
            ebits = None if len(bits) < CTXW and not sg and bits[0] in 'xz' else ebits
        if c[0] == 'nstr':      # the minus applies to the extended literal
            b0 = tobits(c[2], c[3])
            ebits = tobits(-int((b0[0] if sg else '0') * (CTXW - len(b0)) + b0, 2), CTXW)
            if L().width != c[3] or L().value % (1 << c[3]) != int(bits, 2):
                raise Violation('negative-string', 'Int(%r) has width %r and value %r' % (literal(c), L().width, L().value))
        exp['C', k] = ebits
        if k % 4 == 0:
            p = m.Localparam('P%d' % k, L())
            st.append(v.Systask('display', 'P %d %%b' % k, p))
            exp['P', k] = bits
        elif k % 4 == 1:
            r = m.Reg('r%d' % k, CTXW, initval=L())
            exp['R', k] = ebits
            st.append(v.Systask('display', 'R %d %%b' % k, r))
        elif k % 4 == 2 and 'x' not in bits and 'z' not in bits and c[0] != 'pybool':
            sel = m.Reg('s%d' % k, len(bits), signed=sg)
            st.append(sel(v.EmbeddedNumeric("%d'b%s" % (len(bits), bits)), blk=True))
            st.append(v.Case(sel)(v.When(L())(v.Systask('display', 'K %d hit' % k)),
                                  v.When()(v.Systask('display', 'K %d miss' % k))))
            exp['K', k] = 'hit'
    rst = m.make_reset()
    m.Initial(v.EmbeddedCode('#0;') if False else [s for s in rst], v.Delay(1), *st)
    code = m.to_verilog()
    r = iverilog(code, 'top', ctx)
    got = {}
    for line in r.lines:
        f = line.split(' ', 2)
        if len(f) == 3 and f[1].isdigit():
            got[f[0], int(f[1])] = f[2]
    for key in sorted(exp, key=lambda q: (q[1], q[0])):
        e = exp[key]
        c = case['consts'][key[1]]
        if key not in got:
            raise Violation('silent', 'no output for %r %r' % (key, c), code=code, out=r.out)
        if e is None:
            continue
        g = got[key]
        if key[0] in 'SCPR':
            g = g.lower()
        if key[0] == 'S' or key[0] == 'P':
            if c[0] in ('py', 'pybool', 'strdec') or (c[0] != 'IntXZ' and None in c[2:4] or c[0] == 'IntXZ' and c[2] is None):
                # unsized: simulators may use more than 32 bits; the low 32 must agree and the rest extend them
                if len(g) >= 32 and g[-32:] == e:
                    ctx.ev('literals_self')
                    ctx.sig(key[0], c)
                    continue
        if g != e:
            raise Violation('value:' + key[0], 'constant %r in context %s: requested %s, emitted design has %s\nemitted: %s'
                            % (c, key[0], e, g, [l for l in code.splitlines() if ' %d ' % key[1] in l or 'w%d ' % key[1] in l]),
                            code=code)
        ctx.ev({'S': 'literals_self', 'F': 'reals', 'N': 'reals', 'Q': 'reals', 'T': 'strings'}.get(key[0], 'literals_ctx'))
        if c[0] in ('xz', 'IntXZ'):
            ctx.ev('literals_x')
        ctx.sig(key[0], c)
    ctx.evaluations = len(exp)
    ctx.sample = {'const': case['consts'][0], 'observed': got.get(('S', 0)) or got.get(('F', 0)) or got.get(('T', 0))}
