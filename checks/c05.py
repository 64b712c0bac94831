"""C05: hierarchy. Random module trees (instances, Submodule wrappers, generates, copy helpers, parameters) elaborated by the simulator and
compared with a Python evaluation of the same tree; misuse must be rejected."""
import random
import veriloggen
from veriloggen import Module, Submodule, Slice, Int
import veriloggen.core.vtypes as vt
from vlib.harness import Violation, Inconclusive
from vlib.trace import trace, b2i

PID = 'C05'
RULE = ('a case is a random tree of modules (parameterised leaves, instances with named/positional/dictionary/connect_* bindings, Submodule '
        'wrappers with argument, io and wire ports, generate loops and conditions, copied parameters/ports with prefixes and filters, '
        'colliding module names) whose elaborated outputs are compared with a Python evaluation of the tree, or one misuse that must '
        'raise; distinct = tree shape')
ASSUMPTIONS = ['iverilog elaborates and simulates the emitted Verilog faithfully', 'signals are unsigned, at most 24 bits; parameters are small non-negative numbers']
MIN_EVENTS = {'outputs': 3000, 'instances': 400, 'rejected': 40, 'name_collisions': 20, 'generated': 60, 'nested_generates': 60, 'submodules': 60, 'wrappers': 40}


def counts(tier):
    return 500 if tier == 'quick' else 12000


# ---- expressions: ['int', n] ['p', param] ['s', signal] [op, a, b]
def pexpr(rng, params, d=1):
    """constant expression of parameters"""
    if not params or (d == 0 and rng.random() < .4) or rng.random() < .2:
        return ['int', rng.randint(1, 4)]
    if d == 0 or rng.random() < .5:
        return ['p', rng.choice(params)]
    return [rng.choice('+*'), pexpr(rng, params, d - 1), pexpr(rng, params, d - 1)]


def wexpr(rng, wps):
    """width expression: at least 1, at most 24"""
    x = rng.random()
    if not wps or x < .4:
        return ['int', rng.choice([1, 1, 2, 3, 5, 8, 8, 12])]
    p = ['p', rng.choice(wps)]
    return p if x < .8 else ['+', p, ['int', rng.randint(1, 3)]] if x < .9 else ['*', p, ['int', 2]]


def sexpr(rng, sigs, params, d=2):
    if d == 0 or rng.random() < .2:
        x = rng.random()
        if sigs and x < .75:
            return ['s', rng.choice(sigs)]
        if params and x < .9:
            return ['p', rng.choice(params)]
        return ['int', rng.randint(0, 9)]
    return [rng.choice(['+', '+', '-', '*', '^', '&', '|']), sexpr(rng, sigs, params, d - 1), sexpr(rng, sigs, params, d - 1)]


def ev(e, P, S):
    k = e[0]
    if k == 'int':
        return e[1]
    if k == 'p':
        return P[e[1]]
    if k == 's':
        return S[e[1]]
    a, b = ev(e[1], P, S), ev(e[2], P, S)
    return {'+': a + b, '-': a - b, '*': a * b, '^': a ^ b, '&': a & b, '|': a | b}[k]


def has_signal(e):
    return e[0] == 's' or len(e) == 3 and (has_signal(e[1]) or has_signal(e[2]))


def build(e, P, S):
    k = e[0]
    if k == 'int':
        return e[1]
    if k == 'p':
        return P[e[1]]
    if k == 's':
        return S[e[1]]
    a, b = build(e[1], P, S), build(e[2], P, S)
    if isinstance(a, int) and isinstance(b, int):
        return ev([k, ['int', a], ['int', b]], {}, {})
    if isinstance(a, int):
        a = Int(a)
    return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '^': lambda: a ^ b, '&': lambda: a & b, '|': lambda: a | b}[k]()


def gen(rng, i, tier):
    """modules are listed bottom-up; the last one is the top"""
    mods = []
    n = rng.randint(2, 5)
    pool = ['sub', 'core', 'sub', 'unit']
    for k in range(n):
        last = k == n - 1
        collide = rng.random() < .5 and not last
        name = rng.choice(pool) if collide else 'm%d' % k
        # parameters: W* are widths, K* values
        ps = [['W%d' % j, ['int', rng.randint(1, 8)]] for j in range(rng.choice([0, 1, 1, 2]))] + [['K%d' % j, ['int', rng.randint(0, 9)]] for j in range(rng.choice([0, 1, 2]))]
        rng.shuffle(ps)
        if ps and rng.random() < .3:
            ps.append(['K9', pexpr(rng, [x for x, _ in ps])])
        wps = [x for x, _ in ps if x[0] == 'W']
        lps = []
        if wps and rng.random() < .4:
            lps.append(['LW', ['+', ['p', rng.choice(wps)], ['int', rng.randint(1, 4)]]])
            wps = wps + ['LW']
        if ps and rng.random() < .4:
            lps.append(['LK', pexpr(rng, [x for x, _ in ps])])
        ports = [['in', 'x%d' % j, wexpr(rng, wps)] for j in range(rng.randint(1, 3))] + [['out', 'y%d' % j, wexpr(rng, wps)] for j in range(rng.randint(1, 2))]
        if rng.random() < .6:
            rng.shuffle(ports)
        par = [x for x, _ in ps + lps]
        ins = [p[1] for p in ports if p[0] == 'in']
        m = {'name': name, 'ps': ps, 'lps': lps, 'ports': ports, 'kids': []}
        if k and (last or rng.random() < .65):
            sigs = list(ins)
            wraps = rng.random() < .25
            for c in range(1 if wraps else rng.choice([1, 1, 2, 3])):
                t = rng.randrange(k) if c or not last else k - 1
                style = rng.choice(['inst', 'inst', 'inst', 'sub', 'sub', 'genfor', 'genif', 'gennest', 'wrap'])
                kid = {'mod': t, 'id': 'u%d' % c, 'style': style}
                tm = mods[t]
                tins = [p[1] for p in tm['ports'] if p[0] == 'in'] + tm.get('xin', [])
                touts = [p[1] for p in tm['ports'] if p[0] == 'out'] + tm.get('xout', [])
                ov = [x for x, _ in tm['ps'] if rng.random() < .6]
                kid['params'] = [[x, ['int', rng.randint(1, 7)] if not par or x[0] == 'W' or rng.random() < .4 else pexpr(rng, par, 0)] for x in ov]
                for q in kid['params']:
                    if q[0][0] == 'W' and wps and rng.random() < .6:
                        q[1] = ['p', rng.choice(wps)]
                rng.shuffle(kid['params'])
                kid['form'] = rng.choice(['dict', 'list', 'tuple', 'pos', 'shuffled', 'connect'])
                kid['pform'] = rng.choice(['dict', 'list', 'pos'])
                kid['in'] = {x: sexpr(rng, sigs, par, 1) for x in tins}
                kid['opt'] = rng.getrandbits(16)
                kid['n'] = rng.randint(1, 3)
                kid['alt'] = [[x, ['int', rng.randint(1, 7)]] for x in ov]
                kid['cut'] = rng.randint(0, 3)
                kid['empty'] = rng.choice([None, None, 'then', 'else'])
                kid['cond'] = ['>', pexpr(rng, par, 0), ['int', rng.randint(0, 6)]]
                if style in ('sub', 'wrap'):
                    kid['asio'] = [x for x in tins + touts if rng.random() < .25] if style == 'sub' else [x for x in tins + touts if rng.random() < .6]
                m['kids'].append(kid)
                for x in touts:
                    sigs.append('u%d.%s' % (c, x))
            m['use'] = sigs
        else:
            sigs = ins
        m['outs'] = {p[1]: sexpr(rng, sigs, par, 2) for p in ports if p[0] == 'out'}
        # what as-io ports add to the interface of the parent is fixed at build time: record the names
        m['xin'], m['xout'] = [], []
        for kid in m['kids']:
            tm = mods[kid['mod']]
            tin = [p[1] for p in tm['ports'] if p[0] == 'in'] + tm['xin']
            for x in kid.get('asio', []):
                (m['xin'] if x in tin else m['xout']).append(kid['id'] + '_' + x)
        mods.append(m)
    top = mods[-1]
    return {'mods': mods, 'top_params': [[x, rng.randint(1, 7)] for x, _ in top['ps'] if rng.random() < .6], 'seed': rng.getrandbits(32)}


def directed():
    D = []
    for k in ('dup_decl', 'dup_copy', 'bad_port', 'bad_param', 'sub_port', 'sub_param', 'sub_io', 'many_ports', 'many_params', 'dup_scope', 'dup_port',
              'reuse_copy'):
        D.append({'misuse': k})
    return D


class Lim(Exception):
    pass


def evaluate(mods, t, over, ins, ctx=None):
    """outputs of module t, parameters over, inputs (masked here to the port widths)"""
    m = mods[t]
    P = {}
    for x, d in m['ps']:
        P[x] = over[x] if x in over else ev(d, P, {})
    for x, d in m['lps']:
        P[x] = ev(d, P, {})
    S = {}
    W = widths(mods, t, over)
    for x in W[0]:
        S[x] = ins[x] & ((1 << W[0][x]) - 1)
    outs = {}
    for kid in m['kids']:
        kt = kid['mod']
        kp = {x: ev(e, P, {}) for x, e in kid['params']}
        if kid['style'] == 'genif':
            taken = 'then' if ev(kid['cond'][1], P, {}) > kid['cond'][2][1] else 'else'
            if taken == 'else':
                kp = {x: ev(e, P, {}) for x, e in kid['alt']}
            if taken == kid['empty']:
                # a branch without an instance ties the outputs to 5
                for x in widths(mods, kt, kp)[1]:
                    S[kid['id'] + '.' + x] = 5
                continue
        reps = kid['n'] if kid['style'] in ('genfor', 'gennest') else 1
        acc = {}
        for r in range(reps):
            kin = {}
            kw = widths(mods, kt, kp)
            for x in kw[0]:
                if x in kid.get('asio', []):
                    kin[x] = S[kid['id'] + '_' + x]
                else:
                    kin[x] = ev(kid['in'][x], P, S) + (r if kid['style'] in ('genfor', 'gennest') else 0)
            if kid['style'] == 'gennest' and r >= kid['cut']:
                # the inner branch: another parameterisation of the module or nothing (5)
                if kid['empty'] == 'else':
                    o = {x: 5 for x in kw[1]}
                else:
                    o = evaluate(mods, kt, {x: ev(e, P, {}) for x, e in kid['alt']}, kin)
            elif kid['style'] == 'gennest' and kid['empty'] == 'then':
                o = {x: 5 for x in kw[1]}
            else:
                o = evaluate(mods, kt, kp, kin)
            for x, v in o.items():
                acc.setdefault(x, 0)
                # a generate loop combines its instances in one vector: fold by weighted sum
                acc[x] += v * (2 * r + 1) if kid['style'] in ('genfor', 'gennest') else v
        for x, v in acc.items():
            # width of the parent's wire: 24 bits for generated ones, the port's width otherwise
            S[kid['id'] + '.' + x] = v & 0xffffff
            if x in kid.get('asio', []):
                outs[kid['id'] + '_' + x] = v
    for x, e in m['outs'].items():
        outs[x] = ev(e, P, S)
    return {x: outs[x] & ((1 << W[1][x]) - 1) for x in W[1]}


def widths(mods, t, over):
    m = mods[t]
    P = {}
    for x, d in m['ps']:
        P[x] = over[x] if x in over else ev(d, P, {})
    for x, d in m['lps']:
        P[x] = ev(d, P, {})
    wi, wo = {}, {}
    for d, x, w in m['ports']:
        v = ev(w, P, {})
        if not 1 <= v <= 24:
            raise Lim()
        (wi if d == 'in' else wo)[x] = v
    for kid in m['kids']:
        if kid.get('asio'):
            kp = {x: ev(e, P, {}) for x, e in kid['params']}
            kwi, kwo = widths(mods, kid['mod'], kp)
            for x in kid['asio']:
                if x in kwi:
                    wi[kid['id'] + '_' + x] = kwi[x]
                else:
                    wo[kid['id'] + '_' + x] = kwo[x]
    return wi, wo


def run(case, ctx):
    veriloggen.reset()
    if 'misuse' in case:
        return misuse(case, ctx)
    mods = case['mods']
    over = dict(case['top_params'])
    try:
        wi, wo = widths(mods, len(mods) - 1, over)
        r0 = evaluate(mods, len(mods) - 1, over, {x: 0 for x in wi})
        evaluate(mods, len(mods) - 1, {}, {x: 0 for x in widths(mods, len(mods) - 1, {})[0]})
    except Lim:
        raise Inconclusive('width out of range')
    built = []
    for m in mods:
        built.append(mk(m, mods, built, ctx))
    code = built[-1].to_verilog()
    top = built[-1].name
    ins = sorted(wi.items())
    outs = sorted(wo.items())
    rng = random.Random(case['seed'])
    st = [{x: rng.choice([rng.getrandbits(w), (1 << w) - 1, rng.getrandbits(w)]) for x, w in ins} for _ in range(12)]
    sh = 'module shell__(input CLK, %s);\n%s %s u(%s);\nendmodule\n' % (
        ', '.join(['input [%d:0] %s' % (w - 1, x) for x, w in ins] + ['output [%d:0] %s' % (w - 1, x) for x, w in outs]), top,
        '#(%s)' % ', '.join('.%s(%d)' % x for x in sorted(over.items())) if over else '', ', '.join('.%s(%s)' % (x, x) for x, _ in ins + outs))
    rows, _ = trace(code + '\n' + sh, 'shell__', ins, outs, st, ctx)
    for r, s in zip(rows, st):
        exp = evaluate(mods, len(mods) - 1, over, s)
        for x, w in outs:
            if b2i(r[x]) != exp[x]:
                raise Violation('output', 'top output %s is %s, the tree computes %s (inputs %s, parameters %s)' % (x, r[x], bin(exp[x]), s, over), code=code)
            ctx.ev('outputs')
    names = [m['name'] for m in mods]
    ctx.ev('name_collisions', len(names) - len(set(names)))
    ctx.ev('instances', sum(len(m['kids']) for m in mods))
    for m in mods:
        for k in m['kids']:
            ctx.ev({'sub': 'submodules', 'wrap': 'wrappers', 'genfor': 'generated', 'genif': 'generated', 'gennest': 'nested_generates'}.get(k['style'], 'plain'))
    ctx.sig(tuple((m['name'], len(m['ports']), tuple((k['mod'], k['style'], k['form']) for k in m['kids'])) for m in mods))
    ctx.evaluations += len(rows)
    ctx.sample = {'modules': names, 'styles': [k['style'] for m in mods for k in m['kids']]}


def mk(m, mods, built, ctx):
    M = Module(m['name'])
    P, S = {}, {}
    for x, d in m['ps']:
        P[x] = M.Parameter(x, build(d, P, {}))
    for x, d in m['lps']:
        P[x] = M.Localparam(x, build(d, P, {}))
    W = lambda e: build(e, P, {})
    O = {}
    for d, x, w in m['ports']:
        if d == 'in':
            S[x] = M.Input(x, W(w))
        else:
            O[x] = M.Output(x, W(w))
    for kid in m['kids']:
        child = built[kid['mod']]
        cm = mods[kid['mod']]
        u, st, opt = kid['id'], kid['style'], random.Random(kid['opt'])
        cin = [n for n in child.get_ports() if child.is_input(n)]
        cout = [n for n in child.get_ports() if child.is_output(n)]
        asio = kid.get('asio', [])
        prm = {x: build(e, P, {}) for x, e in kid['params']}
        cw = {}

        def bindp(vals):
            order = list(child.get_params())
            if kid['pform'] == 'dict':
                return dict(vals)
            if kid['pform'] == 'pos' and vals and all(x in vals for x in order[:len(vals)]):
                return [vals[x] for x in order[:len(vals)]]
            return [(x, vals[x]) for x in vals]

        def bind(sig):
            order = list(child.get_ports())
            f = kid['form']
            if f == 'dict':
                return dict(sig)
            if f == 'pos':
                return [sig[x] for x in order]
            L = [(x, sig[x]) for x in sig]
            if f == 'shuffled':
                opt.shuffle(L)
            return tuple(L) if f == 'tuple' else L

        def src(x):
            return build(kid['in'][x], P, S)

        def feed(x, add=0):
            """a wire of the parent that carries the value for input x (wide enough for any port)"""
            w = M.Wire('%s_f_%s' % (u, x), 24)
            w.assign(src(x))
            return w
        def branches(outer, G, sig):
            E = G.Else(u + '_e') if opt.random() < .5 else G.Else
            for B, br, vals in ((G, 'then', prm), (E, 'else', {x: build(e, P, {}) for x, e in kid['alt']})):
                if kid['empty'] == br:
                    for x in cout:
                        B.Assign((sig[x])(5))
                else:
                    B.Instance(child, u, bindp(vals), bind(sig))

        if st == 'inst':
            if kid['form'] == 'connect':
                pre, post = opt.choice([(u + '_', None), ('p_' + u, '_q')])
                d = M.copy_ports_as_vars(child, prefix=pre, postfix=post, use_wire=True, rename_exclude=None) if False else None
                for x in cin:
                    w = M.Wire('%s%s%s' % (pre, x, post or ''), 24)
                    w.assign(src(x))
                for x in cout:
                    S['%s.%s' % (u, x)] = M.Wire('%s%s%s' % (pre, x, post or ''), 24)
                ports = M.connect_ports(child, prefix=pre, postfix=post, strict=opt.random() < .5)
                M.Instance(child, u, bindp(prm), ports)
                for x in cout:
                    S.setdefault('%s.%s' % (u, x), M['%s%s%s' % (pre, x, post or '')])
            else:
                sig = {}
                for x in cin:
                    e = src(x)
                    sig[x] = feed(x) if isinstance(e, int) or opt.random() < .5 else feed(x)
                for x in cout:
                    S['%s.%s' % (u, x)] = sig[x] = M.Wire('%s_%s' % (u, x), 24)
                M.Instance(child, u, bindp(prm), bind(sig))
        elif st == 'sub':
            pre = opt.choice([None, u + '_'])
            args, wires = {}, []
            for x in cin:
                if x in asio:
                    continue
                y = opt.random()
                if y < .5 or not has_signal(kid['in'][x]) and y >= .75:
                    args[x] = feed(x)
                elif y < .75:
                    wires.append(x)
            for x in cout:
                if x in asio:
                    continue
                if opt.random() < .3:
                    args[x] = S['%s.%s' % (u, x)] = M.Wire('%s_a_%s' % (u, x), 24)
                elif opt.random() < .3:
                    wires.append(x)
            order = [x for x in child.get_ports()]
            aform = opt.choice(['dict', 'list'])
            kp = {k: v for k, v in prm.items()}
            sub = Submodule(M, child, u, prefix=pre, arg_params=(dict(kp) if opt.random() < .5 else [(a, b) for a, b in kp.items()]) if kp or opt.random() < .5 else None,
                            arg_ports=(dict(args) if aform == 'dict' else list(args.items())) if args or opt.random() < .5 else None,
                            as_io=asio or None, as_wire=(wires[0] if len(wires) == 1 and opt.random() < .5 else wires) or None)
            for x in cin:
                if x in asio:
                    S[u + '_' + x] = sub[x]
                elif x not in args:
                    if x in wires:
                        sub[x].assign(src(x))
                    else:
                        M.Always()(sub[x](src(x), blk=True))
            for x in cout:
                S['%s.%s' % (u, x)] = getattr(sub, x) if opt.random() < .5 else sub[x]
        elif st == 'wrap':
            # copy the child's interface under a prefix, tie what is not exported
            pre, post = opt.choice([(u + '_', None)])
            lp = M.copy_params_as_localparams(child, prefix=pre)
            M.copy_localparams(child, prefix=pre)
            for x, v in prm.items():
                lp[pre + x].value = v
            io = M.copy_ports(child, prefix=pre, include=asio, use_fullmatch=True) if asio else {}
            M.copy_ports_as_vars(child, prefix=pre, exclude=asio or None, use_fullmatch=True, use_wire=True)
            for x in cin:
                if x in asio:
                    S[u + '_' + x] = io[pre + x]
                else:
                    M[pre + x].assign(src(x))
            for x in cout:
                S['%s.%s' % (u, x)] = M[pre + x]
            M.Instance(child, u, M.connect_params(child, prefix=pre), M.connect_ports(child, prefix=pre, strict=True))
        elif st in ('genfor', 'gennest'):
            n = kid['n']
            g = M.Genvar('%s_i' % u)
            np_ = M.Localparam('%s_N' % u, n)
            fin = {x: feed(x) for x in cin}
            fo = {x: M.Wire('%s_v_%s' % (u, x), 24 * n) for x in cout}
            sc = opt.choice([u + '_g', u + '_g', None])
            G = M.GenerateFor(g(0), g < np_, g(g + 1), scope=sc)
            sig = {}
            for x in cin:
                if sc is not None or opt.random() < .5:
                    w = G.Wire('%s_l_%s' % (u, x), 24)
                    w.assign(fin[x] + g)
                    sig[x] = w
                else:
                    sig[x] = fin[x] + g
            for x in cout:
                sig[x] = Slice(fo[x], g * 24 + 23, g * 24)
            if st == 'genfor':
                G.Instance(child, u, bindp(prm), bind(sig))
            else:
                branches(G, G.GenerateIf(g < kid['cut'], opt.choice([None, u + '_t'])), sig)
            for x in cout:
                e = None
                for r in range(n):
                    t = Slice(fo[x], r * 24 + 23, r * 24) * (2 * r + 1)
                    e = t if e is None else e + t
                w = M.Wire('%s_s_%s' % (u, x), 24)
                w.assign(e)
                S['%s.%s' % (u, x)] = w
        elif st == 'genif':
            fin = {x: feed(x) for x in cin}
            fo = {x: M.Wire('%s_%s' % (u, x), 24) for x in cout}
            c = build(kid['cond'][1], P, {})
            G = M.GenerateIf((Int(c) if isinstance(c, int) else c) > kid['cond'][2][1], opt.choice([None, u + '_t']))
            sig = dict(fin, **fo)
            for x in cout:
                S['%s.%s' % (u, x)] = fo[x]
            branches(M, G, sig)
    for x, e in m['outs'].items():
        r = build(e, P, S)
        O[x].assign(r)
    return M


def misuse(case, ctx):
    k = case['misuse']

    def child(name='child'):
        c = Module(name)
        c.Parameter('W', 4)
        c.Input('a', 4)
        c.Output('y', 4).assign(0)
        return c

    def top():
        m = Module('top')
        m.Input('CLK')
        return m, child()

    def expect(what, f):
        try:
            f()
        except Exception as e:
            ctx.ev('rejected')
            return
        raise Violation('accepted:' + k, '%s is accepted' % what)
    if k in ('dup_decl', 'dup_scope'):
        decl = {'Input': lambda m: m.Input('x'), 'Output': lambda m: m.Output('x'), 'OutputReg': lambda m: m.OutputReg('x'), 'Inout': lambda m: m.Inout('x'),
                'Wire': lambda m: m.Wire('x'), 'Reg': lambda m: m.Reg('x'), 'Integer': lambda m: m.Integer('x'), 'Real': lambda m: m.Real('x'),
                'Genvar': lambda m: m.Genvar('x'), 'Parameter': lambda m: m.Parameter('x', 1), 'Localparam': lambda m: m.Localparam('x', 1),
                'Function': lambda m: m.Function('x', 4), 'Task': lambda m: m.Task('x'), 'Instance': lambda m: m.Instance(child(), 'x')}
        if k == 'dup_scope':
            for a in sorted(decl):
                def f():
                    m = Module('top')
                    decl[a](m)
                    g = m.Genvar('g')
                    m.GenerateFor(g(0), g < 2, g(g + 1), scope='x')
                expect('a generate scope x after %s x' % a, f)

                def f2():
                    m = Module('top')
                    m.GenerateIf(Int(1) > 0, 'x')
                    decl[a](m)
                expect('%s x after a generate scope x' % a, f2)
            return
        legal = {('Output', 'Reg'), ('Output', 'Wire'), ('Input', 'Wire'), ('Inout', 'Wire'), ('Reg', 'Output'), ('Wire', 'Output'), ('Wire', 'Input'), ('Wire', 'Inout')}
        for a in sorted(decl):
            for b in sorted(decl):
                if (a, b) in legal:
                    continue

                def f():
                    m = Module('top')
                    decl[a](m)
                    decl[b](m)
                expect('%s x after %s x' % (b, a), f)
    elif k in ('dup_copy', 'reuse_copy'):
        for w in ('copy_params_as_localparams', 'copy_ports_as_vars', 'copy_vars', 'copy_localparams'):
            def f():
                m, c = top()
                c.Wire('v', 3)
                c.Localparam('L', 3)
                if k == 'dup_copy':
                    getattr(m, w)(c, prefix='p_')
                else:
                    for x in 'WayvL':
                        m.Localparam('p_' + x, 7)
                getattr(m, w)(c, prefix='p_')
            expect(w + ' onto declared names', f)
    else:
        def f():
            m, c = top()
            x = m.Wire('xx', 4)
            y = m.Wire('yy', 4)
            if k == 'bad_port':
                m.Instance(c, 'u', ports=[('a', x), ('b', y)])
            elif k == 'bad_param':
                m.Instance(c, 'u', params=[('V', 3)], ports=[('a', x)])
            elif k == 'dup_port':
                m.Instance(c, 'u', ports=[('a', x), ('a', y)])
            elif k == 'many_ports':
                m.Instance(c, 'u', ports=[x, y, x])
            elif k == 'many_params':
                m.Instance(c, 'u', params=[3, 4], ports=[x, y])
            elif k == 'sub_port':
                Submodule(m, c, 'u', arg_ports=[('a', x), ('b', y)])
            elif k == 'sub_param':
                Submodule(m, c, 'u', arg_params=[('V', 1)])
            elif k == 'sub_io':
                Submodule(m, c, 'u', as_io=['b'])
        expect(k, f)
    ctx.sig(k)
    ctx.evaluations += 1
    ctx.sample = dict(case)
