"""C14: DMA moves exactly the requested words. Random thread programs of DMA operations run against an independent AXI slave model with
random back-pressure; final (and intermediate) contents of every local memory and of the global memory are compared with a Python model,
completion of every wait is checked against the recorded bus handshakes."""
import random
import veriloggen
import veriloggen.thread as vthread
from vlib.harness import Violation, Inconclusive
from vlib import thr, axitb

PID = 'C14'
RULE = ('after the wait of a DMA operation the destination holds exactly the source words in the specified order and no other location of '
        'any memory changed; a wait returns only after the transfer and its responses are complete')
ASSUMPTIONS = ['sizes are at least 1 and the accessed local addresses lie inside the memory', 'transfers occupy whole bus words (whole rows for '
               'packed mode): lanes beyond the requested size in the last bus word/row are unspecified',
               'the global address is rounded down to the bus word', 'operations in flight together do not touch the same words or memory port']
MIN_EVENTS = {'dma': 300, 'bus_beats': 3000, 'ram_words': 3000, 'waits_checked': 200}
BITS = axitb.MEMBITS
MEM = 2 ** BITS


def counts(tier):
    return 110 if tier == 'quick' else 1800


def ram_words(rm):
    return 2 ** rm['aw'] * rm['nb'] * rm.get('inner', 1)


def lanes(rm, op, k):
    """local flat word indices moved by transfer word k (lsb lane first); flat = bank * depth + index"""
    depth = 2 ** rm['aw']
    nb = rm['nb']
    a, st = op['la'], op['st']
    mode = op['mode']
    if rm['kind'] == 'ram':
        return [a + k * st]
    sh = (nb - 1).bit_length()
    if rm['kind'] == 'nested':
        inner = rm['inner']
        ish = (inner - 1).bit_length()
        if mode == 'block':
            rows = -(-op['blk'] // inner)
            q, off = divmod(k, rows)
            b = q % nb
            kk = (q // nb) * rows + off
            x = (a + kk * (st if st else inner)) >> ish
            return [(b * inner + i) * depth + x for i in range(inner)]
        x = a + k * st
        b, rest = x % nb, x >> sh
        return [(b * inner + rest % inner) * depth + (rest >> ish)]
    if mode == 'plain':
        x = a + k * st
        return [(x % nb) * depth + (x >> sh)]
    if mode == 'bank':
        return [op['bank'] * depth + a + k * st]
    if mode == 'bcast':
        return [b * depth + a + k * st for b in range(nb)]
    if mode == 'packed':
        x = (a + k * (st if st else nb)) >> sh
        return [b * depth + x for b in range(nb)]
    q, off = divmod(k, op['blk'])
    b = q % nb
    kk = (q // nb) * op['blk'] + off
    return [b * depth + a + kk * (st if st else 1)]


def xfer(rm, op):
    """(transfer words, bits per transfer word)"""
    if rm['kind'] == 'ram':
        return op['n'], rm['dw']
    if op['mode'] == 'packed':
        return -(-op['n'] // rm['nb']), rm['dw'] * rm['nb']
    if rm['kind'] == 'nested' and op['mode'] == 'block':
        return -(-op['n'] // rm['inner']), rm['dw'] * rm['inner']
    return op['n'], rm['dw']


def local_set(rm, op, bus):
    n, w = xfer(rm, op)
    s = set()
    for k in range(n):
        s.update(lanes(rm, op, k))
    return s


def byte_range(rm, op, bus):
    n, w = xfer(rm, op)
    g = op['ga'] // (bus // 8) * (bus // 8)
    nbytes = -(-(n * w) // bus) * bus // 8
    return g, nbytes


def gen_op(rng, case, ri, w):
    bus = case['bus']
    rm = case['rams'][ri]
    depth = 2 ** rm['aw']
    kind = rm['kind']
    if kind == 'ram':
        modes = ['plain'] * 5 + (['packed'] if w or True else [])
    elif kind == 'nested':
        modes = ['block', 'block', 'plain']
    else:
        modes = ['plain', 'bank', 'block', 'block', 'packed', 'packed'] + ([] if w else ['bcast', 'bcast'])
    pd = rm['dw'] * (rm['nb'] if kind != 'nested' else rm['inner'])
    for _ in range(200):
        mode = rng.choice(modes)
        tw = rm['dw']
        if kind == 'multi' and mode == 'plain' and rm['nb'] & (rm['nb'] - 1):
            continue
        if kind != 'ram' and mode == 'packed':
            tw = pd
            if rm['nb'] & (rm['nb'] - 1):
                continue
        if kind == 'nested' and mode == 'block':
            tw = pd
        if max(tw, bus) % min(tw, bus):
            continue
        op = {'k': 'w' if w else 'r', 'mode': mode, 'ram': ri, 'bank': rng.randrange(rm['nb']), 'blk': rng.randint(1, 6),
              'port': rng.randrange(rm['ports'])}
        op['st'] = 1 if rng.random() < .6 else rng.choice([1, 2, 3, 5, 7])
        op['n'] = rng.choice([1, 1, 2, 3, 4, 5, 7, 8, rng.randint(1, 20), rng.randint(1, 40), rng.randint(1, ram_words(rm))])
        if rng.random() < case['long']:
            op['n'] = rng.randint(ram_words(rm) // 2, ram_words(rm))
            op['st'] = 1
        if mode in ('packed', 'block') and rng.random() < .6:
            op['st'] = 0
        if kind == 'ram' and mode == 'packed':
            op['st'] = 1
        if kind == 'multi' and mode == 'packed':
            if rng.random() < .7:
                op['n'] = -(-op['n'] // rm['nb']) * rm['nb']
            if op['st']:
                op['st'] = rm['nb'] * rng.randint(1, 3)
        if kind == 'nested' and mode == 'block':
            op['blk'] = rm['inner'] * rng.randint(1, 3)
            op['n'] = -(-op['n'] // rm['inner']) * rm['inner']
            if op['st']:
                op['st'] = rm['inner'] * rng.randint(1, 2)
        lim = depth if mode in ('bank', 'bcast') or kind == 'ram' else depth * (rm['inner'] if kind == 'nested' and mode == 'block' else
                                                                             rm['nb'] * rm.get('inner', 1) if mode in ('plain', 'packed') else 1)
        op['la'] = rng.choice([0, 0, rng.randrange(lim), rng.randrange(lim), rng.randrange(lim)])
        if kind == 'multi' and mode == 'packed' or kind == 'nested' and mode == 'block':
            u = rm['nb'] if kind == 'multi' else rm['inner']
            op['la'] = op['la'] // u * u
        # address bounds
        n, tw = xfer(rm, op)
        # a wide write fetches whole bus words
        if w and tw < bus:
            n2 = -(-n * tw // bus) * bus // tw
        else:
            n2 = n
        ok = True
        for k in range(n2):
            ls = lanes(rm, op, k)
            for x in ls:
                if x < 0 or x >= ram_words(rm):
                    ok = False
            if kind != 'ram':
                # no wrap inside a bank
                a = op['la'] + k * (op['st'] or 1)
                d = depth
                if mode in ('bank', 'bcast') and a >= depth:
                    ok = False
                if mode == 'block':
                    rows = op['blk'] if kind == 'multi' else -(-op['blk'] // rm['inner'])
                    q, off = divmod(k, rows)
                    kk = (q // rm['nb']) * rows + off
                    step = op['st'] or (1 if kind == 'multi' else rm['inner'])
                    if op['la'] + kk * step >= (depth if kind == 'multi' else depth * rm['inner']):
                        ok = False
                if mode == 'plain' and (a >> (rm['nb'] - 1).bit_length()) >= depth * rm.get('inner', 1):
                    ok = False
                if mode == 'packed' and ((op['la'] + k * (op['st'] or rm['nb'])) >> (rm['nb'] - 1).bit_length()) >= depth:
                    ok = False
        if not ok:
            continue
        nbytes = -(-(n * tw) // bus) * bus // 8
        r = rng.random()
        if r < .5:
            pg = rng.randrange(1, MEM // 4096)
            g = pg * 4096 - (bus // 8) * rng.choice([0, 1, 2, 3, n // 2, n, rng.randint(0, 20)])
        else:
            g = rng.randrange(MEM)
        g = g // (bus // 8) * (bus // 8)
        if rng.random() < case.get('unaligned', .1):
            g += rng.randrange(bus // 8)
        if g < 0 or g + nbytes > MEM - 16:
            continue
        op['ga'] = g
        if len(local_set(rm, op, bus)) != xfer(rm, op)[0] * len(lanes(rm, op, 0)):
            continue                      # overlapping destination words: order is still defined, but keep it simple
        return op
    return None


def gen(rng, i, tier):
    bus = rng.choice([32, 32, 32, 64, 128, 16, 8])
    rams = []
    for k in range(rng.choice([1, 2, 2, 3])):
        kind = rng.choice(['ram', 'ram', 'ram', 'multi', 'multi', 'nested'])
        dw = rng.choice([8, 16, 32, 32, 64, bus * rng.choice([3, 5, 6])] + ([bus] * 3))
        rm = {'kind': kind, 'dw': dw, 'aw': rng.choice([3, 4, 5, 6, 7]), 'nb': 1, 'ports': rng.choice([1, 1, 2]), 'aslist': rng.random() < .3}
        if kind != 'ram':
            rm['nb'] = rng.choice([2, 2, 4, 4, 3 if rng.random() < .3 else 2])
        if kind == 'nested':
            rm['inner'] = rng.choice([2, 4])
            rm['nb'] = rng.choice([2, 4])
            rm['ports'] = 1
            rm['aw'] = min(rm['aw'], 5)
        rams.append(rm)
    long_ = 0.0
    if rng.random() < .2:
        long_ = .5
        rams[0]['aw'] = rng.choice([9, 10, 11]) if rams[0]['kind'] == 'ram' else 8
        if rams[0]['kind'] == 'nested':
            rams[0]['aw'] = 6
    case = {'bus': bus, 'rams': rams, 'long': long_, 'cfg': axitb.gen_cfg(rng), 'fsmmod': rng.random() < .1, 'sb': rng.choice([1, 1, 1, 2, 3]),
            'reqfifo': rng.choice([3, 3, 3, 2, 4]), 'gba': rng.random() < .2, 'seed': rng.randint(0, 10 ** 9), 'vars': rng.random() < .5,
            'loop': rng.random() < .3}
    if rams[0]['aw'] > 8:
        for k in ('PAW', 'PW', 'PB', 'PAR', 'PR'):
            case['cfg'][k] = max(case['cfg'][k], 50)
    case['ops'] = gen_ops(rng, case, rng.randint(3, 12) if not long_ else rng.randint(2, 5))
    return case


def gen_ops(rng, case, n):
    bus = case['bus']
    ops = []
    pend = {'r': [], 'w': []}
    idle_w = True
    base = 0
    asyncp = rng.choice([.0, .3, .6, .9])

    def conflict(kind, loc, mem):
        """loc: (ram, port, set) or None; mem: (lo, hi) or None; against pending of kind"""
        for p in pend[kind]:
            if loc and p['loc'] and p['loc'][0] == loc[0] and (p['loc'][1] == loc[1] or p['loc'][2] & loc[2]) and not p.get('ramfree'):
                return True
            if mem and p['mem'] and p['mem'][0] < mem[1] and mem[0] < p['mem'][1]:
                return True
        return False

    def resolve(kinds):
        if len(kinds) == 2:
            ops.append({'k': 'wait', 'w': 'wait'})
        elif kinds == ['r']:
            ops.append({'k': 'wait', 'w': rng.choice(['wait_read', 'wait'])})
        else:
            ops.append({'k': 'wait', 'w': rng.choice(['wait_write', 'wait', 'two'])})
        w = ops[-1]['w']
        if w in ('wait', 'wait_read'):
            pend['r'] = []
        if w in ('wait', 'wait_write', 'two'):
            pend['w'] = []
    if case['gba']:
        ops.append({'k': 'sgb', 'v': 0x10000 * rng.choice([0, 1, 0x4000, 0x7fff])})
    while len(ops) < n:
        x = rng.random()
        ri = rng.randrange(len(case['rams']))
        rm = case['rams'][ri]
        if x < .75:
            w = rng.random() < .5
            op = gen_op(rng, case, ri, w)
            if op is None:
                continue
            op['async'] = rng.random() < asyncp
            g, nb_ = byte_range(rm, op, bus)
            loc = (ri, op['port'], local_set(rm, op, bus))
            mem = (g, g + nb_)
            other = 'r' if w else 'w'
            # the other engine may be using the data
            if conflict(other, loc, mem):
                resolve([other])
            ops.append(op)
            pend['w' if w else 'r'].append({'loc': loc, 'mem': mem})
            if not op['async']:
                pend['w' if w else 'r'] = []
        elif x < .82:
            ws = rng.choice(['wait', 'wait_read', 'wait_write', 'wait_write_idle', 'two'])
            ops.append({'k': 'wait', 'w': ws})
            if ws in ('wait', 'wait_read'):
                pend['r'] = []
            if ws in ('wait', 'wait_write', 'two'):
                pend['w'] = []
            if ws == 'wait_write_idle':
                for p in pend['w']:
                    p['ramfree'] = True
        elif x < .88 and bus <= 64:
            a = rng.randrange(MEM // (bus // 8) - 8) * (bus // 8)
            if rng.random() < .5:
                if conflict('w', None, (a, a + bus // 8)):
                    resolve(['w'])
                ops.append({'k': 'ar', 'ga': a})
            else:
                if conflict('r', None, (a, a + bus // 8)):
                    resolve(['r'])
                f = rng.random() < .5
                ops.append({'k': 'awf' if f else 'aw', 'ga': a, 'v': rng.getrandbits(31)})
                pend['w'].append({'loc': None, 'mem': (a, a + bus // 8)})
                if f:
                    pend['w'] = []
        elif x < .96 and rm['kind'] == 'ram':
            a = rng.randrange(2 ** rm['aw'])
            p = rng.randrange(rm['ports'])
            loc = (ri, p, {a})
            ks = [k for k in 'rw' if conflict(k, loc, None)]
            if ks:
                resolve(ks)
            if rng.random() < .5:
                ops.append({'k': 'lr', 'ram': ri, 'la': a, 'port': p})
            else:
                ops.append({'k': 'lw', 'ram': ri, 'la': a, 'port': p, 'v': rng.getrandbits(31) & (2 ** rm['dw'] - 1)})
        elif case['gba'] and x >= .96:
            # the base is read when a request is taken over by the engine: only change it when nothing is waiting
            ops.append({'k': 'sgb', 'v': 0x10000 * rng.choice([0, 1, 2, 0x4000, 0x7fff])})
    return ops


def hazard(case):
    """does the program use a word or a port that an unfinished operation of the other engine is using?"""
    pend = {'r': [], 'w': []}
    bus = case['bus']

    def conflict(kind, loc, mem):
        for p in pend[kind]:
            if loc and p['loc'] and p['loc'][0] == loc[0] and (p['loc'][1] == loc[1] or p['loc'][2] & loc[2]) and not p.get('ramfree'):
                return True
            if mem and p['mem'] and p['mem'][0] < mem[1] and mem[0] < p['mem'][1]:
                return True
        return False
    for op in case['ops']:
        t = op['k']
        if t in 'rw':
            rm = case['rams'][op['ram']]
            g, n = byte_range(rm, op, bus)
            loc = (op['ram'], op['port'], local_set(rm, op, bus))
            if conflict('r' if t == 'w' else 'w', loc, (g, g + n)):
                return True
            pend[t].append({'loc': loc, 'mem': (g, g + n)})
            if not op['async']:
                pend[t] = []
        elif t == 'wait':
            if op['w'] in ('wait', 'wait_read'):
                pend['r'] = []
            if op['w'] in ('wait', 'wait_write', 'two'):
                pend['w'] = []
            if op['w'] == 'wait_write_idle':
                for p in pend['w']:
                    p['ramfree'] = True
        elif t in ('ar', 'aw', 'awf'):
            a = op['ga']
            if conflict('w' if t == 'ar' else 'r', None, (a, a + bus // 8)):
                return True
            if t != 'ar':
                pend['w'].append({'loc': None, 'mem': (a, a + bus // 8)})
                if t == 'awf':
                    pend['w'] = []
        elif t in ('lr', 'lw'):
            if conflict('r', (op['ram'], op['port'], {op['la']}), None) or conflict('w', (op['ram'], op['port'], {op['la']}), None):
                return True
    return False


def directed():
    base = {'long': 0, 'fsmmod': False, 'sb': 1, 'reqfifo': 3, 'gba': False, 'seed': 5, 'vars': False, 'loop': False,
            'cfg': dict(PAW=100, PW=100, PB=100, PAR=100, PR=100, QD=4, WPOL=0, AWDEP=0, ARDEP=0, SEED=1, BURSTY=0)}
    ds = []
    for bus, dw in ((32, 32), (32, 8), (32, 64), (128, 16), (8, 32)):
        rm = {'kind': 'ram', 'dw': dw, 'aw': 10, 'nb': 1, 'ports': 1, 'aslist': False}
        ops = []
        for n in (1, 255, 256, 257, 600):
            ops.append({'k': 'w', 'mode': 'plain', 'ram': 0, 'bank': 0, 'blk': 1, 'port': 0, 'st': 1, 'n': n, 'la': 3, 'ga': 4096 * 3 - 16, 'async': False})
            ops.append({'k': 'r', 'mode': 'plain', 'ram': 0, 'bank': 0, 'blk': 1, 'port': 0, 'st': 1, 'n': n, 'la': 300, 'ga': 4096 * 3 - 16, 'async': False})
        ds.append(dict(base, id='sizes-%d-%d' % (bus, dw), bus=bus, rams=[rm], ops=ops))
    rm = {'kind': 'ram', 'dw': 32, 'aw': 8, 'nb': 1, 'ports': 1, 'aslist': False}
    ops = [{'k': 'w', 'mode': 'plain', 'ram': 0, 'bank': 0, 'blk': 1, 'port': 0, 'st': 1, 'n': 3 + i, 'la': i * 4, 'ga': 128 * i, 'async': True} for i in range(20)]
    ops += [{'k': 'wait', 'w': 'wait'}]
    ops += [{'k': 'r', 'mode': 'plain', 'ram': 0, 'bank': 0, 'blk': 1, 'port': 0, 'st': 1, 'n': 3 + i, 'la': i * 4, 'ga': 128 * i, 'async': True} for i in range(20)]
    ops += [{'k': 'wait', 'w': 'wait'}]
    slow = dict(base['cfg'], PAW=10, PW=30, PB=10, PAR=10, PR=30, QD=1, AWDEP=1)
    ds.append(dict(base, id='back-to-back', bus=32, rams=[rm], ops=ops))
    ds.append(dict(base, id='back-to-back-slow', bus=32, rams=[rm], ops=ops, cfg=slow))
    return ds


def source(case):
    bus = case['bus']
    rams = case['rams']
    L = ['import veriloggen as vg', 'import veriloggen.thread as vthread', 'def mk():',
         '    m = vg.Module("top")', '    clk = m.Input("CLK")', '    rst = m.Input("RST")',
         '    ax = vthread.AXIM(m, "ax", clk, rst, %d, sb_depth=%d, req_fifo_addrwidth=%d, use_global_base_addr=%r, fsm_as_module=%r)' %
         (bus, case['sb'], case['reqfifo'], case['gba'], case['fsmmod'])]
    names = []
    for i, rm in enumerate(rams):
        g = '%d, %d, numports=%d' % (rm['dw'], rm['aw'], rm['ports'])
        if rm['kind'] == 'ram':
            L.append('    r%d = vthread.RAM(m, "r%d", clk, rst, %s)' % (i, i, g))
            names.append(['r%d' % i])
        elif rm['kind'] == 'multi':
            if rm['aslist']:
                L.append('    r%d = [vthread.RAM(m, "r%d_%%d" %% b, clk, rst, %s) for b in range(%d)]' % (i, i, g, rm['nb']))
            else:
                L.append('    r%d = vthread.MultibankRAM(m, "r%d", clk, rst, %s, numbanks=%d)' % (i, i, g, rm['nb']))
            names.append(['r%d_%d' % (i, b) for b in range(rm['nb'])])
        else:
            L.append('    r%d = vthread.to_multibank_ram([vthread.MultibankRAM(m, "r%d_%%d" %% b, clk, rst, %s, numbanks=%d) for b in range(%d)], keep_hierarchy=True)' %
                     (i, i, g, rm['inner'], rm['nb']))
            names.append(['r%d_%d_%d' % (i, b, k) for b in range(rm['nb']) for k in range(rm['inner'])])
    L.append('    def go():')
    r = random.Random(case['seed'])
    used = set()

    def arg(v):
        if case['vars'] and r.random() < .5:
            x = 'v%d' % r.choice([q for q in range(12) if q not in used])
            used.add(int(x[1:]))
            L.append('        %s = %d' % (x, v))
            return x
        return str(v)
    ops = case['ops'] + [{'k': 'wait', 'w': 'wait'}]
    for k, op in enumerate(ops):
        t = op['k']
        used.clear()                  # a variable is reused by later calls, but not within one call
        if t in 'rw':
            rm = rams[op['ram']]
            f = {'r': 'dma_read', 'w': 'dma_write'}[t]
            mode = op['mode']
            if mode != 'plain':
                f += '_' + mode
            if op['async']:
                f += '_async'
            a = ['r%d' % op['ram']]
            if mode == 'bank':
                a.append(arg(op['bank']))
            a += [arg(op['la']), arg(op['ga']), arg(op['n'])]
            if mode == 'block':
                a.append(arg(op['blk']))
                if op['st']:
                    a.append(arg(op['st']))
            elif op['st'] not in (0, 1) or (op['st'] == 1 and mode == 'packed' and rm['kind'] != 'ram') or r.random() < .2 and op['st']:
                a.append(arg(op['st']))
            if op['port']:
                a.append('port=%d' % op['port'])
            L.append('        ax.%s(%s)' % (f, ', '.join(a)))
        elif t == 'wait':
            if op['w'] == 'two':
                L.append('        ax.dma_wait_write_idle()')
                L.append('        ax.dma_wait_write_response()')
            else:
                L.append('        ax.dma_%s()' % op['w'])
        elif t == 'sgb':
            L.append('        ax.set_global_base_addr(%s)' % arg(op['v']))
        elif t == 'ar':
            L.append('        x = ax.read(%s)' % arg(op['ga']))
            L.append('        print("R", %d, x)' % k)
        elif t in ('aw', 'awf'):
            L.append('        ax.%s(%s, %s)' % ('write' if t == 'aw' else 'write_fence', arg(op['ga']), arg(op['v'])))
        elif t == 'lr':
            L.append('        x = r%d.read(%s, port=%d)' % (op['ram'], arg(op['la']), op['port']))
            L.append('        print("R", %d, x)' % k)
        elif t == 'lw':
            L.append('        r%d.write(%s, %s, port=%d)' % (op['ram'], arg(op['la']), arg(op['v']), op['port']))
        L.append('        print("D", %d)' % k)
    ks = {op['k'] for op in case['ops']}
    if not ks & {'w', 'aw', 'awf'} and case['seed'] % 2:
        L.append('    ax.disable_write()')
    if not ks & {'r', 'ar'} and case['seed'] % 2:
        L.append('    ax.disable_read()')
    L += ['    th = vthread.Thread(m, "th", clk, rst, go)', '    f = th.start()', '    return m, [f]']
    return L, names


def init_word(ri, x, dw):
    return ((x * 2654435761 + ri * 40503 + 12345) * 0x9E3779B97F4A7C15 >> 3) & ((1 << dw) - 1)


def run(case, ctx):
    run_dma(case, ctx, None)


def run_dma(case, ctx, extra):
    if hazard(case):
        raise Inconclusive('hazard in the generated program')
    lines, names = source(case)
    mod, src = thr.load(lines, ctx)
    m, fsms = mod.mk()
    thr.add_done(m, fsms)
    code = m.to_verilog()
    bus = case['bus']
    rams = case['rams']
    stext, decl, conn, peeks, dump = axitb.hook('ax', bus, case['cfg'])
    ini = ['initial begin #1;']
    dumps = [dump]
    for i, rm in enumerate(rams):
        depth = 2 ** rm['aw']
        for b, nm in enumerate(names[i]):
            ini.append('for (k__ = 0; k__ < %d; k__ = k__ + 1) dut.inst_%s.mem[k__] = iw__(%d, k__ + %d);' % (depth, nm, i, b * depth))
            dumps.append('for (k__ = 0; k__ < %d; k__ = k__ + 1) if (dut.inst_%s.mem[k__] !== (iw__(%d, k__ + %d) & {%d{1\'b1}})) $display("L %d %%0d %%b", k__ + %d, dut.inst_%s.mem[k__]);' %
                         (depth, nm, i, b * depth, rm['dw'], i, b * depth, nm))
    ini.append('end')
    decl = ('integer k__; function [127:0] iw__(input integer ri, input integer x); iw__ = (((x * 128\'d2654435761 + ri * 128\'d40503 + 128\'d12345) * 128\'h9E3779B97F4A7C15) >> 3); endfunction\n'
            + decl + '\n' + '\n'.join(ini))
    beats = 0
    for op in case['ops']:
        if op['k'] in 'rw':
            beats += byte_range(rams[op['ram']], op, bus)[1] * 8 // bus + 20
    L = thr.simulate(m, fsms, ctx, maxcyc=3000 + beats * 3 * int(100 / min(case['cfg'][k] for k in ('PAW', 'PW', 'PB', 'PAR', 'PR')) + 3),
                     peeks=peeks, decl=decl, conn=conn, code=code + '\n' + stext, settle=60, timeout=200,
                     tail='\n'.join(dumps))
    text = L.text

    def bad(mech, msg):
        raise Violation(mech, msg, program=src, config=str(case), log=text)
    # --- reference execution
    memb = {}
    dontcare = set()
    local = [[init_word(i, x, rm['dw']) for x in range(ram_words(rm))] for i, rm in enumerate(rams)]
    ldc = set()
    base = 0
    nbus = bus // 8
    reads = {}
    wbeats = rbeats = 0
    need = {}
    waited_w = waited_r = 0
    wregions = []
    rregions = []

    def getb(a):
        return memb.get(a, axitb.init_byte(a))
    for k, op in enumerate(case['ops'] + [{'k': 'wait', 'w': 'wait'}]):
        t = op['k']
        if t == 'sgb':
            base = op['v']
        elif t in 'rw':
            rm = rams[op['ram']]
            n, tw = xfer(rm, op)
            g, nbytes = byte_range(rm, op, bus)
            ctx.ev('dma')
            ctx.ev('dma_%s_%s' % (t, op['mode']))
            ratio = 'same' if tw == bus else 'narrow' if tw > bus else 'wide'
            ctx.sig('%s-%s-%s-%s' % (t, op['mode'], rm['kind'], ratio))
            ctx.ev('ram_words', n)
            loc = local[op['ram']]
            if t == 'w':
                data = 0
                for q in range(n):
                    ls = lanes(rm, op, q)
                    for z, x in enumerate(ls):
                        data |= loc[x] << (q * tw + z * rm['dw'])
                exact = n * tw // 8
                if op['mode'] == 'packed' and rm['kind'] != 'ram':
                    exact = op['n'] * rm['dw'] // 8
                for b in range(nbytes):
                    if b < exact:
                        memb[g + b] = (data >> (8 * b)) & 255
                        dontcare.discard(g + b)
                    else:
                        dontcare.add(g + b)
                wbeats += nbytes // nbus
                wregions.append((base + g, nbytes))
            else:
                data = 0
                dc = False
                raw = bytes(getb(g + b) for b in range(nbytes))
                data = int.from_bytes(raw, 'little')
                for q in range(n):
                    ls = lanes(rm, op, q)
                    for z, x in enumerate(ls):
                        if op['mode'] == 'bcast':
                            v = (data >> (q * tw)) & ((1 << rm['dw']) - 1)
                            off = q * tw
                        else:
                            off = q * tw + z * rm['dw']
                            v = (data >> off) & ((1 << rm['dw']) - 1)
                        loc[x] = v
                        if any((off // 8 + g + b) in dontcare for b in range(rm['dw'] // 8)) or op['mode'] == 'packed' and rm['kind'] != 'ram' and q * len(ls) + z >= op['n']:
                            ldc.add((op['ram'], x))
                        else:
                            ldc.discard((op['ram'], x))
                rbeats += nbytes // nbus
                rregions.append((base + g, nbytes))
            # a local word read by a write DMA while unknown makes the memory unknown
            if t == 'w':
                for q in range(n):
                    for z, x in enumerate(lanes(rm, op, q)):
                        if (op['ram'], x) in ldc:
                            for b in range(rm['dw'] // 8):
                                dontcare.add(g + (q * tw + z * rm['dw']) // 8 + b)
        elif t == 'ar':
            a = op['ga']
            rbeats += 1
            rregions.append((base + a, nbus))
            if not any(x in dontcare for x in range(a, a + nbus)):
                reads[k] = (int.from_bytes(bytes(getb(x) for x in range(a, a + nbus)), 'little') & 0xffffffff, min(bus, 32))
        elif t in ('aw', 'awf'):
            a = op['ga']
            v = op['v']
            for b in range(nbus):
                memb[a + b] = (v >> (8 * b)) & 255
                dontcare.discard(a + b)
            wbeats += 1
            wregions.append((base + a, nbus))
        elif t == 'lr':
            if (op['ram'], op['la']) not in ldc:
                reads[k] = (local[op['ram']][op['la']] & 0xffffffff, min(rams[op['ram']]['dw'], 32))
        elif t == 'lw':
            local[op['ram']][op['la']] = op['v']
            ldc.discard((op['ram'], op['la']))
        nw = t == 'w' and not op.get('async') or t == 'awf' or t == 'wait' and op['w'] in ('wait', 'wait_write', 'two')
        nr = t == 'r' and not op.get('async') or t == 'wait' and op['w'] in ('wait', 'wait_read') or t == 'ar'
        need[k] = (wbeats if nw else None, rbeats if nr else None)
    # --- bus rules
    mon = axitb.Mon(bus)
    ks = {op['k'] for op in case['ops']}
    unused = ([] if ks & {'w', 'aw', 'awf'} else ['awvalid', 'wvalid', 'awready', 'wready']) + ([] if ks & {'r', 'ar'} else ['arvalid', 'arready'])
    for c, row in enumerate(L.cycles):
        for x in unused:                  # a direction without any operation is not driven unless it is disabled
            row[x] = row[x].replace('x', '0')
        mon.feed(c, row, bad)
    ctx.ev('bus_beats', mon.nw + mon.nr)
    ctx.ev('bursts', len(mon.wb) + len(mon.rb))
    for ch, v in mon.stall.items():
        ctx.ev('stalled_' + ch, v)
    if not L.done:
        last = [w for c, w in L.ev if w[0] == 'D']
        bad('hang', 'the program did not finish in %d cycles; last completed operation %s; %d/%d write and %d/%d read beats' %
            (L.ncyc, last[-1][1] if last else None, mon.nw, wbeats, mon.nr, rbeats))
    mon.finish(bad)
    # --- addresses of the bursts cover exactly the requested regions, in order
    for kind, bursts, regions in (('write', mon.wb, wregions), ('read', mon.rb, rregions)):
        bi = 0
        for a, nbytes in regions:
            pos = 0
            while pos < nbytes:
                if bi >= len(bursts):
                    bad('missing-burst', '%s: no burst for 0x%x' % (kind, a + pos))
                ba, bl = bursts[bi]
                if ba // nbus * nbus != a + pos:
                    bad('burst-address', '%s burst %d at 0x%x, expected 0x%x' % (kind, bi, ba, a + pos))
                pos += bl * nbus
                bi += 1
            if pos != nbytes:
                bad('burst-extent', '%s bursts cover %d bytes at 0x%x, requested %d' % (kind, pos, a, nbytes))
        if bi != len(bursts):
            bad('extra-burst', '%s: %d bursts, %d expected' % (kind, len(bursts), bi))
    # --- waits
    for c, w in L.ev:
        if w[0] != 'D':
            continue
        k = int(w[1])
        t = c - 1                       # the print of the next state is seen one cycle later
        nwb, nrb = need[k]
        if nwb is not None:
            ctx.ev('waits_checked')
            got = sum(1 for x in mon.wcyc if x < t)
            ab = sum(1 for x in mon.awcyc if x < t)
            bb = sum(1 for x in mon.bcyc if x < t)
            if got < nwb or ab != bb:
                bad('write-wait-early', 'operation %d returned by cycle %d with %d of %d beats written and %d of %d responses' % (k, t, got, nwb, bb, ab))
        if nrb is not None:
            ctx.ev('waits_checked')
            got = sum(1 for x in mon.rcyc if x < t)
            if got < nrb:
                bad('read-wait-early', 'operation %d returned by cycle %d with %d of %d beats read' % (k, t, got, nrb))
    # --- values read by the thread
    got = {}
    for c, w in L.ev:
        if w[0] == 'R':
            got[int(w[1])] = w[2]
    for k, (v, vw) in reads.items():
        ctx.ev('thread_reads')
        if k not in got:
            bad('no-read', 'operation %d printed nothing' % k)
        try:
            g = int(got[k]) & ((1 << vw) - 1)
        except ValueError:
            bad('read-value', 'operation %d read %s, expected %d' % (k, got[k], v))
        if g != v:
            bad('read-value', 'operation %d (%s) read %s, expected %d' % (k, case['ops'][k], got[k], v))
    # --- final contents
    hm, hl = {}, {}
    for c, w in L.ev:
        if w[0] == 'M':
            hm[int(w[1])] = w[2]
        elif w[0] == 'L':
            hl[(int(w[1]), int(w[2]))] = w[3]
    for a in sorted(set(hm) | set(memb)):
        if a in dontcare:
            continue
        e = memb.get(a, axitb.init_byte(a))
        h = hm.get(a)
        h = axitb.init_byte(a) if h is None else (int(h, 2) if set(h) <= {'0', '1'} else h)
        if h != e:
            bad('memory-contents' if a in memb else 'memory-stray', 'global byte 0x%x is %s, expected 0x%x' % (a, h if isinstance(h, str) else hex(h), e))
    for i, rm in enumerate(rams):
        for x in range(ram_words(rm)):
            if (i, x) in ldc:
                continue
            h = hl.get((i, x))
            h = init_word(i, x, rm['dw']) if h is None else (int(h, 2) if set(h) <= {'0', '1'} else h)
            if h != local[i][x]:
                touched = local[i][x] != init_word(i, x, rm['dw'])
                bad('ram-contents' if touched else 'ram-stray', 'memory %d (%s) word %d (bank %d index %d) is %s, expected 0x%x' %
                    (i, names[i], x, x // 2 ** rm['aw'], x % 2 ** rm['aw'], h if isinstance(h, str) else hex(h), local[i][x]))
    ctx.sample = dict(ops=len(case['ops']), bus=bus, beats=mon.nw + mon.nr, cycles=L.ncyc)
    return mon
