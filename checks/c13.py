"""C13: RAM / ROM / banked memories. Port accesses and complete memory contents compared every cycle with an array model."""
import random
import veriloggen
import veriloggen.core.vtypes
from veriloggen import Module, Ands, Int, Not
import veriloggen.thread as vthread
from veriloggen.types.ram import mkRAMDefinition, SyncRAM, AsyncRAM
from veriloggen.types.rom import SyncROM, AsyncROM
from vlib.harness import Violation, Inconclusive
from vlib.trace import trace, b2i
from vlib import thr

PID = 'C13'
RULE = ('a case is a memory geometry (width 1..70, 1..64 words, 1..3 ports, plain / banked / nested banks, initial contents, sync or '
        'async, enables) under random access histories from logic, bursts (linear, block, packed, broadcast with random stalls, quits '
        'and lengths) or threads; every cycle the read data and the whole array are compared; distinct = configuration and history')
ASSUMPTIONS = ['two ports do not write one address in the same cycle', 'a burst is started only when the previous one of its port is finished',
               'one access per port and cycle', 'iverilog simulates the emitted Verilog faithfully']
MIN_EVENTS = {'read': 2000, 'write': 2000, 'array_compare': 5000, 'burst_words': 1000, 'thread_read': 250, 'thread_write': 250, 'rom_read': 300}


def counts(tier):
    return 420 if tier == 'quick' else 3500


def gen(rng, i, tier):
    kind = rng.choice(['core', 'cls', 'rom', 'api', 'api', 'burst', 'burst', 'burst', 'thread', 'thread', 'thread'])
    c = {'kind': kind, 'seed': rng.getrandbits(40), 'dw': rng.choice([1, 3, 8, 16, 31, 32, 33, 64, 70]), 'aw': rng.choice([1, 2, 3, 4, 5])}
    if kind in ('core', 'cls'):
        c.update(ports=rng.randint(1, 3), sync=rng.random() < .6, enable=rng.random() < .5, n=rng.randint(40, 150),
                 init=rng.choice([None, 'full', 'part', 'neg', 'intobj']))
        if kind == 'cls' and rng.random() < .5:
            c['init'] = None
    elif kind == 'rom':
        c.update(sync=rng.random() < .5, enable=rng.random() < .5, n=rng.randint(20, 60), len=rng.choice([2, 3, 4, 5, 8, 13, 16]),
                 vals=rng.choice(['int', 'int', 'sized']), width=rng.choice([None, True]))
    elif kind in ('api', 'burst'):
        c['type'] = rng.choice(['ram', 'ram', 'multi', 'tomulti', 'nested'])
        c['nb'] = rng.choice([2, 4])
        c['aw'] = rng.choice([2, 3, 4])
        c['n'] = rng.randint(60, 200)
        if kind == 'api':
            c['ports'] = rng.randint(1, 3)
            c['mode'] = [rng.choice(['rw', 'rw', 'connect']) for _ in range(c['ports'])]
            c['init'] = rng.choice([None, 'full', 'part']) if c['type'] in ('ram', 'tomulti') else None
        else:
            c['type'] = rng.choice(['ram', 'multi', 'multi', 'tomulti', 'multi3'])
            if c['type'] == 'multi3':
                c['nb'] = 3
            c['wm'] = rng.choice(['lin', 'block', 'packed', 'bcast'] if c['type'] != 'multi3' else ['block', 'bcast'])
            c['rm'] = rng.choice(['lin', 'block', 'packed'] if c['type'] != 'multi3' else ['block'])
            c['dw'] = rng.choice([1, 8, 16, 32, 33])
            c['n'] = rng.randint(150, 400)
            c['lw'] = rng.choice([4, 8, 32])
            c['quit'] = rng.random() < .3
            c['rates'] = [rng.choice([.3, .6, .9, 1]) for _ in range(2)]
            c['same_port'] = rng.random() < .3
    else:
        c['type'] = rng.choice(['ram', 'ram', 'multi', 'tomulti', 'fixed', 'ext'])
        c['dw'] = rng.choice([8, 16, 31, 32])
        c['nb'] = rng.choice([2, 4])
        c['aw'] = rng.choice([1, 2, 3])
        c['ports'] = rng.randint(1, 3)
        c['init'] = rng.choice([None, 'full', 'part']) if c['type'] in ('ram', 'tomulti', 'fixed') else None
        c['threads'] = []
        for p in range(c['ports']):
            ops = []
            for _ in range(rng.randint(3, 9)):
                x = rng.random()
                v = rng.randint(-2 ** (c['dw'] - 1), 2 ** (c['dw'] - 1) - 1)
                bank = c['type'] in ('multi', 'tomulti') and rng.random() < .35
                depth = 2 ** c['aw'] * (c['nb'] if c['type'] in ('multi', 'tomulti') and not bank else 1)
                a = rng.randrange(depth)
                b = rng.randrange(c['nb']) if bank else None
                if x < .1:
                    ops.append(['delay', rng.randint(0, 5)])
                elif x < .35:
                    ops.append(['w', b, a, v])
                elif x < .6:
                    ops.append(['r', b, a])
                elif x < .75:
                    ops.append(['wl', b, rng.randint(1, min(depth, 8)), rng.randint(0, depth - 1), rng.randint(1, 50)])
                elif x < .9:
                    ops.append(['rl', b, rng.randint(1, min(depth, 8)), rng.randint(0, depth - 1)])
                elif c['type'] == 'tomulti':
                    ops.append(['sub', rng.choice('rw'), rng.randrange(c['nb']), rng.randrange(2 ** c['aw']), v])
                else:
                    ops.append(['rmw', b, a, rng.randint(1, 9)])
            c['threads'].append(ops)
    return c


def directed():
    D = []
    for ln in (1, 2, 4):
        D.append({'kind': 'rom', 'seed': 3, 'dw': 8, 'aw': 2, 'sync': True, 'enable': False, 'n': 12, 'len': ln, 'vals': 'int', 'width': None})
        D.append({'kind': 'rom', 'seed': 3, 'dw': 8, 'aw': 2, 'sync': False, 'enable': False, 'n': 12, 'len': ln, 'vals': 'int', 'width': True})
    for sync in (True, False):
        D.append({'kind': 'cls', 'seed': 4, 'dw': 8, 'aw': 3, 'ports': 2, 'sync': sync, 'enable': True, 'n': 100, 'init': None})
    for t in ('ram', 'multi'):
        D.append({'kind': 'api', 'seed': 5, 'dw': 8, 'aw': 2, 'type': t, 'nb': 2, 'n': 60, 'ports': 2, 'mode': ['nocond', 'rw'], 'init': None})
    return D


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)
    ctx.sig(str(case))
    if ctx.sample is None:
        ctx.sample = case


def initlist(case, r, depth, dw):
    k = case['init']
    if k is None:
        return None, [None] * depth
    n = depth if k == 'full' else r.randint(1, depth)
    v = [r.getrandbits(dw) for _ in range(n)]
    arg = list(v)
    if k == 'neg':
        arg = [x - (1 << dw) if r.random() < .5 and x else x for x in v]
    if k == 'intobj':
        arg = [Int(x, width=dw) if r.random() < .5 else Int("%d'b%s" % (dw, bin(x)[2:])) if r.random() < .5 else x for x in v]
    return arg, v + [0] * (depth - n)


def cmp(bits, v):
    """v None = not defined yet"""
    return True if v is None else b2i(bits) == v


# ---------------------------------------------------------------- plain cores
def run_core(case, ctx):
    r = random.Random(case['seed'])
    dw, aw, P = case['dw'], case['aw'], case['ports']
    depth = 2 ** aw
    arg, mem = initlist(case, r, depth, dw)
    ins = []
    outs = []
    if case['kind'] == 'core':
        m = mkRAMDefinition('f', dw, aw, P, arg, sync=case['sync'], with_enable=case['enable'])
        nm = lambda p, s: 'f_%d_%s' % (p, s)
        top = 'f'
        peeks = [('mem%d' % i, 'mem[%d]' % i) for i in range(depth)]
        for p in range(P):
            outs.append((nm(p, 'rdata'), dw))
    else:
        m = Module('top')
        top = 'top'
        clk = m.Input('CLK')
        cls = SyncRAM if case['sync'] else AsyncRAM
        f = cls(m, 'f', clk, dw, aw, P, arg, with_enable=case['enable'])
        nm = lambda p, s: 'i%d_%s' % (p, s)
        for p in range(P):
            a = m.Input(nm(p, 'addr'), aw)
            d = m.Input(nm(p, 'wdata'), dw)
            w = m.Input(nm(p, 'wenable'))
            e = m.Input(nm(p, 'enable')) if case['enable'] else None
            f.connect(p, a, d, w, e)
            o = m.Output(nm(p, 'rdata'), dw)
            o.assign(f.rdata(p))
            outs.append((nm(p, 'rdata'), dw))
        peeks = [('mem%d' % i, 'f.mem[%d]' % i) for i in range(depth)]
    for p in range(P):
        ins += [(nm(p, 'addr'), aw), (nm(p, 'wdata'), dw), (nm(p, 'wenable'), 1)]
        if case['enable']:
            ins.append((nm(p, 'enable'), 1))
    st = []
    for c in range(case['n']):
        s = {}
        wr = set()
        for p in range(P):
            a = r.randrange(depth)
            w = r.random() < .5 and a not in wr
            if w:
                wr.add(a)
            s[nm(p, 'addr')] = a
            s[nm(p, 'wdata')] = r.getrandbits(dw)
            s[nm(p, 'wenable')] = int(w)
            s[nm(p, 'enable')] = int(r.random() < .7)
        st.append(s)
    code = m.to_verilog()
    rows, _ = trace(code, top, ins, outs, [{k: v for k, v in s.items() if case['enable'] or not k.endswith('_enable')} for s in st], ctx, peeks=peeks)

    def bad(mech, msg):
        raise Violation(mech, msg, code=code, config=str(case))
    rd = [None] * P
    for c, (s, row) in enumerate(zip(st, rows)):
        for i in range(depth):
            if not cmp(row['mem%d' % i], mem[i]):
                bad('array', 'cycle %d: word %d is %s, expected %s' % (c, i, row['mem%d' % i], mem[i]))
        ctx.ev('array_compare', depth)
        for p in range(P):
            v = mem[s[nm(p, 'addr')]] if not case['sync'] else rd[p]
            if not cmp(row[nm(p, 'rdata')], v):
                bad('rdata', 'cycle %d: rdata of port %d is %s, expected %s' % (c, p, row[nm(p, 'rdata')], v))
            if v is not None:
                ctx.ev('read')
        old = list(mem)
        for p in range(P):
            if case['enable'] and not s[nm(p, 'enable')]:
                continue
            a = s[nm(p, 'addr')]
            if s[nm(p, 'wenable')]:
                mem[a] = s[nm(p, 'wdata')]
                rd[p] = mem[a]
                ctx.ev('write')
            else:
                rd[p] = old[a]
    ctx.evaluations = len(rows) * (depth + P)


run_cls = run_core


def run_rom(case, ctx):
    r = random.Random(case['seed'])
    dw, n = case['dw'], case['len']
    m = Module('top')
    size = max(1, (n - 1).bit_length())
    a = m.Input('a', size)
    vals = [r.getrandbits(dw) for _ in range(n)]
    arg = [Int(v, width=dw) for v in vals] if case['vals'] == 'sized' else vals
    en = m.Input('e') if case['enable'] and case['sync'] else None
    kw = {}
    w = dw
    if case['width']:
        kw['datawidth'] = dw
    else:
        w = max(veriloggen.core.vtypes.get_width(v) for v in arg)
    ins = [('a', size)]
    if en is not None:
        ins.append(('e', 1))
        kw['enable'] = en
    if case['sync']:
        clk = m.Input('CLK')
        rom = SyncROM(m, 'rom', clk, a, arg, **kw)
    else:
        clk = m.Input('CLK')
        rom = AsyncROM(m, 'rom', a, arg, **kw)
    o = m.Output('o', max(w, dw))
    o.assign(rom.rdata)
    code = m.to_verilog()
    st = [{'a': r.randrange(n), 'e': int(r.random() < .6)} for _ in range(case['n'])]
    rows, _ = trace(code, 'top', ins, [('o', max(w, dw))], st, ctx)
    reg = None
    for c, (s, row) in enumerate(zip(st, rows)):
        v = reg if case['sync'] else vals[s['a']]
        if not cmp(row['o'], v):
            raise Violation('rom', 'cycle %d: ROM value %s, expected %s' % (c, row['o'], v), code=code, config=str(case))
        if v is not None:
            ctx.ev('rom_read')
        if en is None or s['e']:
            reg = vals[s['a']]
    ctx.evaluations = len(rows)


# ---------------------------------------------------------------- the thread package's memories, from logic
def mkmem(m, case, clk, rst, ports, r):
    """-> (ram, peeks [(bank tuple..)], locate(addr)->index in flat list, flat initial contents)"""
    dw, aw, nb = case['dw'], case['aw'], case['nb']
    depth = 2 ** aw
    t = case['type']
    if t in ('ram', 'fixed'):
        arg, mem = initlist(dict(case, init=case.get('init')), r, depth, dw)
        ram = vthread.RAM(m, 'f', clk, rst, dw, aw, ports, initvals=arg)
        return ram, ['inst_f.mem[%d]' % i for i in range(depth)], (lambda a: a % depth), mem, ['f']
    if t in ('multi', 'multi3'):
        ram = vthread.MultibankRAM(m, 'f', clk, rst, dw, aw, ports, numbanks=nb)
        names = ['f_%d' % b for b in range(nb)]
        mem = [None] * (depth * nb)
    elif t == 'tomulti':
        subs = []
        mem = []
        names = []
        for b in range(nb):
            arg, v = initlist(dict(case, init=case.get('init')), r, depth, dw)
            subs.append(vthread.RAM(m, 'g%d' % b, clk, rst, dw, aw, ports, initvals=arg))
            mem += v
            names.append('g%d' % b)
        ram = vthread.to_multibank_ram(subs)
    elif t == 'nested':
        subs = [vthread.MultibankRAM(m, 'g%d' % b, clk, rst, dw, aw, ports, numbanks=2) for b in range(nb)]
        ram = vthread.to_multibank_ram(subs, keep_hierarchy=True)
        names = ['g%d_%d' % (b, i) for b in range(nb) for i in range(2)]
        mem = [None] * (depth * nb * 2)
        sh = nb.bit_length() - 1

        def loc(a):
            b, rest = a % nb, a >> sh
            return ((b * 2 + rest % 2) * depth) + (rest >> 1) % depth
        return ram, ['inst_%s.mem[%d]' % (n, i) for n in names for i in range(depth)], loc, mem, names
    sh = (nb - 1).bit_length()

    def loc(a):
        return (a % nb) * depth + (a >> sh) % depth
    return ram, ['inst_%s.mem[%d]' % (n, i) for n in names for i in range(depth)], loc, mem, names


def run_api(case, ctx):
    r = random.Random(case['seed'])
    dw, P = case['dw'], case['ports']
    m = Module('top')
    clk = m.Input('CLK')
    rst = m.Input('RST')
    ram, peeks, loc, mem, _ = mkmem(m, case, clk, rst, P, r)
    AW = ram.addrwidth
    ins = [('RST', 1)]
    outs = []
    for p, mode in enumerate(case['mode']):
        a = m.Input('a%d' % p, AW)
        b = m.Input('b%d' % p, AW)
        w = m.Input('w%d' % p, dw)
        op = m.Input('op%d' % p, 2)
        ins += [('a%d' % p, AW), ('b%d' % p, AW), ('w%d' % p, dw), ('op%d' % p, 2)]
        q0 = m.Output('q%d' % p, dw)
        outs.append(('q%d' % p, dw))
        if mode == 'connect':
            rd = m.Wire('rd%d' % p, dw)
            ram.connect_rtl(p, a, w, op == 3, rd, op != 0)
            q0.assign(rd)
        elif mode == 'nocond':
            ram.write_rtl(a, w, p)
            q0.assign(0)
        else:
            d0, v0 = ram.read_rtl(a, p, cond=op == 1)
            ram.write_rtl(a, w, p, cond=op == 3)
            d1, v1 = ram.read_rtl(b, p, cond=op == 2)
            q0.assign(veriloggen.Mux(v0, d0, d1))
            v = m.Output('v%d' % p, 2)
            v.assign(veriloggen.Cat(v1, v0))
            outs.append(('v%d' % p, 2))
    code = m.to_verilog()
    st = [{'RST': 1}, {'RST': 1}]
    for c in range(case['n']):
        s = {}
        wr = set()
        for p, mode in enumerate(case['mode']):
            a, b = r.randrange(2 ** AW), r.randrange(2 ** AW)
            if r.random() < .4 and wr:
                a = r.choice(sorted(wr))
            o = r.choice([0, 1, 2, 3, 3])
            if mode == 'nocond':
                while loc(a) in wr:
                    a = r.randrange(2 ** AW)
                o = 3
            elif o == 3 and loc(a) in wr:
                o = 1
            if o == 3:
                wr.add(loc(a))
            s.update({'a%d' % p: a, 'b%d' % p: b, 'w%d' % p: r.getrandbits(dw), 'op%d' % p: o})
        st.append(s)
    rows, _ = trace(code, 'top', ins, outs, st, ctx, peeks=[('mem%d' % i, e) for i, e in enumerate(peeks)])

    def bad(mech, msg):
        raise Violation(mech, msg, code=code, config=str(case))
    exp = [None] * P
    undef = False
    for c, (s, row) in enumerate(zip(st, rows)):
        if s.get('RST'):
            if any(md == 'nocond' for md in case['mode']):
                mem[loc(0)] = 0
            continue
        for i in range(len(mem)):
            if not cmp(row['mem%d' % i], mem[i]):
                bad('array', 'cycle %d: %s is %s, expected %s' % (c, peeks[i], row['mem%d' % i], mem[i]))
        ctx.ev('array_compare', len(mem))
        old = list(mem)
        for p, mode in enumerate(case['mode']):
            if mode == 'rw' and c > 2:
                pv = st[c - 1]['op%d' % p]
                want = {1: '01', 2: '10'}.get(pv, '00')
                if row['v%d' % p] != want:
                    bad('rvalid', 'cycle %d: rvalid of port %d is %s, expected %s' % (c, p, row['v%d' % p], want))
            if exp[p] is not None and not cmp(row['q%d' % p], exp[p]):
                bad('rdata', 'cycle %d: data of port %d (%s) is %s, expected %s' % (c, p, mode, row['q%d' % p], exp[p]))
            if exp[p] is not None:
                ctx.ev('read')
            exp[p] = None
            o = s['op%d' % p]
            if o == 3:
                mem[loc(s['a%d' % p])] = s['w%d' % p]
                ctx.ev('write')
            elif o == 1 or (o == 2 and mode == 'connect'):
                exp[p] = old[loc(s['a%d' % p])]
            elif o == 2:
                exp[p] = old[loc(s['b%d' % p])]
    ctx.evaluations = len(rows) * (len(mem) + P)


# ---------------------------------------------------------------- bursts
def run_burst(case, ctx):
    r = random.Random(case['seed'])
    dw, nb = case['dw'], case['nb']
    depth = 2 ** case['aw']
    multi = case['type'] != 'ram'
    m = Module('top')
    clk = m.Input('CLK')
    rst = m.Input('RST')
    sp = case['same_port']
    ram, peeks, loc, mem, names = mkmem(m, case, clk, rst, 1 if sp else 2, r)
    wm, rm = case['wm'], case['rm']
    AW = ram.addrwidth
    pdw = ram.packed_datawidth
    wdw = pdw if wm == 'packed' and multi else dw
    rdw = pdw if rm == 'packed' and multi else dw
    LW = case['lw']
    spec = [('RST', 1), ('ws', 1), ('wa', AW), ('wt', AW), ('wl', LW), ('wb', 4), ('wd', wdw), ('wv', 1), ('wz', 1), ('wq', 1),
            ('rs', 1), ('ra', AW), ('rt', AW), ('rl', LW), ('rb', 4), ('rr', 1), ('rq', 1)]
    I = {n: (rst if n == 'RST' else m.Input(n, w) if w > 1 else m.Input(n)) for n, w in spec}
    wmeth = {'lin': ram.write_burst, 'block': ram.write_burst_block, 'packed': ram.write_burst_packed, 'bcast': ram.write_burst_bcast}[wm]
    rmeth = {'lin': ram.read_burst, 'block': ram.read_burst_block, 'packed': ram.read_burst_packed}[rm]
    wready, done = wmeth(I['wa'], I['wt'], I['wl'], I['wb'], I['wd'], I['wv'], I['wz'], I['wq'], port=0, cond=I['ws'])
    rdata, rvalid, rlast = rmeth(I['ra'], I['rt'], I['rl'], I['rb'], I['rr'], I['rq'], port=0 if sp else 1, cond=I['rs'])
    outs = []
    for n, v, w in (('wready', wready, 1), ('done', done, 1), ('rdata', rdata, rdw), ('rvalid', rvalid, 1), ('rlast', rlast, 1)):
        o = m.Output(n, w) if w > 1 else m.Output(n)
        o.assign(v)
        outs.append((n, w))
    code = m.to_verilog()

    def bad(mech, msg):
        raise Violation(mech, msg, code=code, config=str(case))
    # addresses touched by word k of a transaction -> list of flat indices per lane
    sh = (nb - 1).bit_length()

    def lanes(mode, a, stride, blk, k):
        if not multi:
            return [(a + k * stride) % depth]
        if mode == 'lin':
            return [loc((a + k * stride) % 2 ** AW)]
        if mode == 'packed':
            x = ((a + k * stride) % 2 ** AW) >> sh
            return [b * depth + x % depth for b in range(nb)]
        if mode == 'bcast':
            x = (a + k * stride) % depth
            return [b * depth + x for b in range(nb)]
        # block: blk words per bank in turn, every bank continues where it stopped
        blkno, off = divmod(k, blk)
        b = blkno % nb
        kk = (blkno // nb) * blk + off
        return [b * depth + (a + kk * stride) % depth]
    # stimulus: alternate transactions, static schedule long enough to finish
    st = [{'RST': 1}, {'RST': 1}]
    rate = case['rates']
    while len(st) < case['n']:
        L = r.choice([0, 1, 2, 3, 4, 5, r.randint(1, 2 ** min(LW, 4) - 1)])
        w = r.random() < .5
        lens = {}
        maxlen = depth * (nb if multi else 1)
        L = min(L, maxlen)
        a = r.randrange(2 ** AW)
        stride = r.choice([1, 1, 1, 2, 3, r.randrange(2 ** AW)])
        blk = r.randint(1, 5)
        both = not sp and r.random() < .3
        k = int(L * 4 / min(rate)) + 12
        zc = r.randint(2, k) if case['quit'] and r.random() < .5 else None
        for c in range(k):
            s = {'wd': r.getrandbits(wdw), 'wv': int(r.random() < rate[0]), 'rr': int(r.random() < rate[1])}
            # address inputs are only meaningful in the start cycle
            s.update({'wa': r.randrange(2 ** AW), 'wt': r.randrange(2 ** AW), 'wl': r.randrange(8), 'wb': r.randint(1, 5),
                      'ra': r.randrange(2 ** AW), 'rt': r.randrange(2 ** AW), 'rl': r.randrange(8), 'rb': r.randint(1, 5)})
            if c == 0:
                if w or both:
                    s.update({'ws': 1, 'wa': a, 'wt': stride, 'wl': L, 'wb': blk})
                if not w or both:
                    s.update({'rs': 1, 'ra': a, 'rt': stride, 'rl': L, 'rb': blk})
            if zc == c:
                if r.random() < .5:
                    s['wq' if w else 'rq'] = 1
                else:
                    s['wz'] = 1
            st.append(s)
    rows, _ = trace(code, 'top', spec, outs, st, ctx, peeks=[('mem%d' % i, e) for i, e in enumerate(peeks)])
    hist = [[v] for v in mem]
    W = R = None
    wend = None
    rd_wait = 0
    lastw = {}
    for c, (s, row) in enumerate(zip(st, rows)):
        if s.get('RST'):
            continue
        g = lambda n: s.get(n, 0)
        for i in range(len(mem)):
            if not cmp(row['mem%d' % i], mem[i]):
                bad('array', 'cycle %d: %s is %s, expected %s (write %s)' % (c, peeks[i], row['mem%d' % i], mem[i], W))
        ctx.ev('array_compare', len(mem))
        # write side
        if row['wready'] != ('1' if W else '0'):
            bad('wready', 'cycle %d: wready = %s, transaction %s' % (c, row['wready'], W))
        if row['done'] != ('1' if wend == c else '0'):
            bad('wdone', 'cycle %d: done = %s, expected %d' % (c, row['done'], wend == c))
        newW = W
        if W:
            if g('wv'):
                k = W['k']
                ls = lanes(wm, W['a'], W['t'], W['b'], k)
                for j, ix in enumerate(ls):
                    mem[ix] = s['wd'] >> (dw * j) & ((1 << dw) - 1) if wm == 'packed' else s['wd']
                    lastw[ix] = c
                W['k'] = k + 1
                ctx.ev('write', len(ls))
                ctx.ev('burst_words')
                if W['k'] >= W['L'] or g('wz'):
                    wend = c + 1
                    newW = None
            if g('wq'):
                newW = None
        elif g('ws') and g('wl') > 0:
            newW = {'a': s['wa'], 't': s['wt'], 'L': s['wl'], 'b': s['wb'], 'k': 0}
        # read side
        rv, rl = row['rvalid'], row['rlast']
        if R is None:
            if rv != '0':
                bad('rvalid', 'cycle %d: rvalid without transaction' % c)
            if g('rs') and g('rl') > 0:
                R = {'a': s['ra'], 't': s['rt'], 'L': s['rl'], 'b': s['rb'], 'k': 0, 'c': c, 'stall': 0}
        else:
            if rv == '1':
                ls = lanes(rm, R['a'], R['t'], R['b'], R['k'])
                # words overwritten during the transaction may be seen old or new
                amb = any(lastw.get(ix, -1) >= R['c'] for ix in ls)
                vals = [hist[ix][-1] if hist[ix][-1] is not None else None for ix in ls]
                if not amb and all(v is not None for v in vals):
                    want = 0
                    for j, v in enumerate(vals):
                        want |= v << (dw * j)
                    if b2i(row['rdata']) != want:
                        bad('rdata', 'cycle %d: word %d of %s is %s, expected %d' % (c, R['k'], R, row['rdata'], want))
                    ctx.ev('read')
                if rl != ('1' if R['k'] == R['L'] - 1 else '0'):
                    bad('rlast', 'cycle %d: rlast = %s at word %d of %d' % (c, rl, R['k'], R['L']))
                if g('rr'):
                    R['k'] += 1
                    ctx.ev('burst_words')
            elif rv != '0':
                bad('rvalid', 'cycle %d: rvalid = %s' % (c, rv))
            else:
                if g('rr') and c > R['c'] + 1:
                    R['stall'] += 1
                    if R['stall'] > 4:
                        bad('rstall', 'cycle %d: no data although ready for 4 cycles, %s' % (c, R))
            if g('rq') or R['k'] >= R['L']:
                R = None
        W = newW
        for i, v in enumerate(mem):
            hist[i][-1] = v
    if R and (R['k'] < R['L']) and c - R['c'] > 8 * R['L'] / min(rate) + 40:
        bad('rhang', 'read burst incomplete %s' % R)
    ctx.evaluations = len(rows) * (len(mem) + 5)


# ---------------------------------------------------------------- threads
def tsource(case, initargs):
    dw, aw, nb, P = case['dw'], case['aw'], case['nb'], case['ports']
    t = case['type']
    L = ['import veriloggen as vg', 'import veriloggen.thread as vthread', 'def mk():', '    D = []',
         '    m = vg.Module("top")', '    clk = m.Input("CLK")', '    rst = m.Input("RST")']
    g = '%d, %d, %d' % (dw, aw, P)
    if t == 'ram':
        L.append('    f = vthread.RAM(m, "f", clk, rst, %s, initvals=%s)' % (g, initargs[0]))
    elif t == 'fixed':
        L.append('    f = vthread.FixedRAM(m, "f", clk, rst, %s, point=4, initvals=%s, noconvert_initvals=True)' % (g, initargs[0]))
    elif t == 'ext':
        L.append('    f = vthread.ExtRAM(m, "f", clk, rst, %s)' % g)
    elif t == 'multi':
        L.append('    f = vthread.MultibankRAM(m, "f", clk, rst, %s, numbanks=%d)' % (g, nb))
    else:
        for b in range(nb):
            L.append('    g%d = vthread.RAM(m, "g%d", clk, rst, %s, initvals=%s)' % (b, b, g, initargs[b]))
        L.append('    f = vthread.to_multibank_ram([%s])' % ', '.join('g%d' % b for b in range(nb)))
    raw = ', raw=True' if t == 'fixed' else ''
    pa = lambda p: (', port=%d' % p if case['seed'] >> p & 1 else ', %d' % p) if p or case['seed'] >> 5 & 1 else ''
    for p, ops in enumerate(case['threads']):
        L.append('    def t%d():' % p)
        I = '        '
        q = pa(p)
        rd = lambda b, a: 'f.read(%s%s%s)' % (a, q, raw) if b is None else 'f.read_bank(%d, %s%s)' % (b, a, q)
        wr = lambda b, a, v: 'f.write(%s, %s%s%s)' % (a, v, q, raw) if b is None else 'f.write_bank(%d, %s, %s%s)' % (b, a, v, q)
        bs = lambda b: -1 if b is None else b
        for o in ops:
            k = o[0]
            if k == 'delay':
                L += [I + 'for d in range(%d):' % o[1], I + '    pass']
            elif k == 'w':
                L += [I + wr(o[1], o[2], o[3]), I + 'print("W %d %d %d %%d" %% (%d))' % (p, bs(o[1]), o[2], o[3])]
            elif k == 'r':
                L += [I + 'x = ' + rd(o[1], o[2]), I + 'print("R %d %d %d %%d" %% x)' % (p, bs(o[1]), o[2])]
            elif k == 'wl':
                L += [I + 'for i in range(%d):' % o[2], I + '    a = (i + %d) & %d' % (o[3], mask(case, o[1])), I + '    v = i * %d' % o[4],
                      I + '    ' + wr(o[1], 'a', 'v'), I + '    print("W %d %d %%d %%d" %% (a, v))' % (p, bs(o[1]))]
            elif k == 'rl':
                L += [I + 'for i in range(%d):' % o[2], I + '    a = (i + %d) & %d' % (o[3], mask(case, o[1])),
                      I + '    x = ' + rd(o[1], 'a'), I + '    print("R %d %d %%d %%d" %% (a, x))' % (p, bs(o[1]))]
            elif k == 'rmw':
                L += [I + 'x = ' + rd(o[1], o[2]), I + 'y = x + %d' % o[3], I + wr(o[1], o[2], 'y'),
                      I + 'print("M %d %d %d %%d %%d" %% (x, y))' % (p, bs(o[1]), o[2])]
            elif k == 'sub':
                if o[1] == 'w':
                    L += [I + 'g%d.write(%d, %d%s)' % (o[2], o[3], o[4], q), I + 'print("W %d %d %d %%d" %% (%d))' % (p, o[2], o[3], o[4])]
                else:
                    L += [I + 'x = g%d.read(%d%s)' % (o[2], o[3], q), I + 'print("R %d %d %d %%d" %% x)' % (p, o[2], o[3])]
        L.append('    D.append(vthread.Thread(m, "t%d", clk, rst, t%d).start())' % (p, p))
    L.append('    return m, D')
    return L


def mask(case, bank):
    return 2 ** case['aw'] * (case['nb'] if case['type'] in ('multi', 'tomulti') and bank is None else 1) - 1


def run_thread(case, ctx):
    r = random.Random(case['seed'])
    dw, aw, nb, P, t = case['dw'], case['aw'], case['nb'], case['ports'], case['type']
    depth = 2 ** aw
    multi = t in ('multi', 'tomulti')
    names = ['f_%d' % b for b in range(nb)] if t == 'multi' else ['g%d' % b for b in range(nb)] if t == 'tomulti' else ['f']
    inits = [initlist(dict(case, init=case['init']), r, depth, dw) for _ in names]
    lines = tsource(case, [a for a, _ in inits])
    mod, src = thr.load(lines, ctx)
    m, fsms = mod.mk()
    mem = [list(v) for _, v in inits]
    sig = [('addr', aw), ('rdata', dw), ('wdata', dw), ('wenable', 1), ('enable', 1)]
    peeks = [((b, p, s), ('dut.' if t != 'ext' else '') + '%s_%d_%s' % (n, p, s)) for b, n in enumerate(names) for p in range(P) for s, _ in sig]
    if t == 'ext':
        core = mkRAMDefinition('fcore', dw, aw, P, with_enable=True)
        thr.add_done(m, fsms)
        code = m.to_verilog() + '\n' + core.to_verilog()
        decl = ' '.join('wire [%d:0] f_%d_%s;' % (w - 1, p, s) for p in range(P) for s, w in sig)
        decl += ' fcore fc(.CLK(CLK), %s);' % ', '.join('.fcore_%d_%s(f_%d_%s)' % (p, s, p, s) for p in range(P) for s, _ in sig)
        conn = ', '.join('.f_%d_%s(f_%d_%s)' % (p, s, p, s) for p in range(P) for s, _ in sig)
        log = thr.simulate(m, fsms, ctx, 6000, peeks=peeks, decl=decl, conn=conn, code=code)
    else:
        log = thr.simulate(m, fsms, ctx, 6000, peeks=peeks)

    def bad(mech, msg):
        raise Violation(mech, msg + '\n' + '\n'.join(lines[7:60]), program=src, log=log.text, code=log.code)
    if not log.done:
        bad('hang', 'threads have not finished')
    M = (1 << dw) - 1
    sh = nb.bit_length() - 1
    # history of every word: [(from cycle, value)]
    H = {}
    for b in range(len(names)):
        for a in range(depth):
            H[(b, a)] = [(-1, mem[b][a])]
    writes = {}
    clash = set()
    for c, row in enumerate(log.cycles):
        for b in range(len(names)):
            here = []
            for p in range(P):
                e, w = row[(b, p, 'enable')], row[(b, p, 'wenable')]
                if e not in '01' or w not in '01':
                    bad('enable', 'cycle %d: enable %s wenable %s' % (c, e, w))
                if e == '1' and w == '1':
                    a, v = b2i(row[(b, p, 'addr')]), b2i(row[(b, p, 'wdata')])
                    if a is None:
                        bad('write-address', 'cycle %d: undefined write address' % c)
                    if (a in here):
                        clash.add((b, a))
                    here.append(a)
                    H[(b, a)].append((c, v))
                    writes.setdefault(p, []).append((c, b, a, v))
                elif w == '1':
                    bad('enable', 'cycle %d: wenable without enable' % c)

    def where(bank, a):
        if bank >= 0:
            return (bank, a)
        return (a % nb, a >> sh) if multi else (0, a)

    def judge_read(c, bank, a, txt):
        key = where(bank, a)
        if key in clash:
            return
        # the values the word had in the cycles in which the read was performed
        h = H[key]
        poss = set()
        for i, (c0, v) in enumerate(h):
            c1 = h[i + 1][0] if i + 1 < len(h) else 10 ** 9
            if c0 < c and c1 >= c - 6:
                poss.add(v)
        ctx.ev('thread_read')
        if None in poss:
            return
        if not txt.lstrip('-').isdigit() or int(txt) & M not in poss:
            bad('read', 'cycle %d: read of %s word %d gives %s, the memory holds %s' % (c, names[key[0]], key[1], txt, sorted(poss)))
        if len(poss) == 1:
            ctx.ev('read')

    def judge_write(p, c, bank, a, txt):
        ws = writes.get(p, [])
        j = nxt.get(p, 0)
        if j >= len(ws):
            bad('write-lost', 'cycle %d: write to %s of %d by thread %d has not reached the memory' % (c, a, bank, p))
        key = where(bank, a)
        if ws[j][1:3] != key or ws[j][3] != (int(txt) & M) or not c - 5 <= ws[j][0] < c:
            bad('write', 'cycle %d: thread %d writes %s to word %d (bank %d), the memory port shows %s' % (c, p, txt, a, bank, ws[j]))
        nxt[p] = j + 1
        ctx.ev('thread_write')
    nxt = {}
    last = {}
    for c, l in log.ev:
        k, p, bank, a = l[0], int(l[1]), int(l[2]), int(l[3])
        if k == 'W':
            judge_write(p, c, bank, a, l[4])
        elif k == 'R':
            judge_read(c, bank, a, l[4])
        elif k == 'M':
            if 'x' in l[4].lower() or 'x' in l[5].lower():
                nxt[p] = nxt.get(p, 0) + 1
                continue
            judge_write(p, c, bank, a, l[5])
    for p, ws in writes.items():
        if nxt.get(p, 0) != len(ws):
            bad('write-extra', 'port %d performs %d writes, the thread requested %d' % (p, len(ws), nxt.get(p, 0)))
    ctx.evaluations = len(log.ev) + len(log.cycles)
