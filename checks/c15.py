"""C15: channel rules of every AXI4 / AXI4-Lite interface of the library (masters, register slaves, memory models), under random external agents."""
import fnmatch
import random
import veriloggen
import veriloggen.thread as vthread
from vlib.harness import Violation, Inconclusive
from vlib import thr, axitb
from checks import c14, c16, c17, c29

PID = 'C15'
RULE = ('valid and its payload hold until accepted, no handshake signal is ever X, bursts announce legal lengths that do not cross 4 KB, last marks exactly '
        'the announced last beat, every write is answered once and only after its data, read data come only on request and in the announced number')
ASSUMPTIONS = ['the external slave accepts an address without waiting for its data', 'monitors are attached to the interface of the real generated design']
MIN_EVENTS = {'dma_cases': 30, 'slave_cases': 30, 'lite_cases': 30, 'stream_cases': 25, 'model_cases': 30, 'handshakes': 3000, 'lite_ops': 400, 'master_stalls': 2000}
KEEP = ['withdrawn', 'unstable', 'withdrawn:*', 'unstable:*', 'x-handshake*', 'x-payload*', 'wlast', 'rlast', 'axsize', 'axburst', 'too-long', 'crosses-4KB', 'early-response',
        'unrequested-read-data', 'write-data-count', 'responses', 'read-data-count', 'pending-at-end', 'out-last', 'lite-*', 'exception*']


def counts(tier):
    return 220 if tier == 'quick' else 4000


def gen(rng, i, tier):
    k = ['dma', 'reg', 'lite', 'lite', 'model', 'stream'][i % 6]
    if k == 'dma':
        for _ in range(50):
            c = c14.gen(rng, i, tier)
            if not c14.hazard(c):
                break
        return {'t': 'dma', 'c': c}
    if k == 'reg':
        return {'t': 'reg', 'c': c16.gen(rng, i, tier)}
    if k == 'model':
        for _ in range(50):
            c = c29.gen(rng, i, tier)
            if c['t'] == 'bus':
                break
        return {'t': 'model', 'c': c}
    if k == 'stream':
        return {'t': 'stream', 'c': c17.gen(rng, i, tier)}
    full = rng.random() < .3
    dw = rng.choice([32, 32, 64, 16, 8, 128]) if full else rng.choice([32, 32, 64])
    ops = []
    for _ in range(rng.randint(3, 25)):
        o = rng.choice(['r', 'w', 'r', 'w', 'rd', 'wd', 'idle', 'wf'])
        ops.append({'k': o, 'a': rng.randrange(40), 'v': rng.getrandbits(31), 'd': rng.choice([0, 1, 2, 5, 20]), 'n': rng.randint(1, 20)})
    cfg = axitb.gen_cfg(rng)
    return {'t': 'lite', 'full': full, 'dw': dw, 'ops': ops, 'cfg': cfg, 'sb': rng.choice([0, 1, 1, 2]), 'fsmmod': rng.random() < .2, 'gba': rng.choice([None, None, 0x400, 0x1238]),
            'loop': rng.choice([1, 1, 2, 3]), 'clk': rng.choice([False, False, True])}


def directed():
    D = []
    for full in (False, True):
        for cf in ({}, {'PAW': 30, 'PW': 30, 'PB': 30, 'PAR': 30, 'PR': 30}):
            cfg = axitb.gen_cfg(random.Random(5))
            cfg.update({k: 100 for k in ('PAW', 'PW', 'PB', 'PAR', 'PR')})
            cfg.update(cf)
            ops = [{'k': k, 'a': a, 'v': 1000 * a + 17, 'd': d, 'n': 3} for k, a, d in [('w', 0, 0), ('w', 1, 0), ('r', 0, 0), ('wd', 2, 3), ('rd', 2, 3), ('rd', 1, 0),
                                                                                     ('wd', 3, 0), ('w', 3, 0), ('r', 3, 0)]]
            D.append({'t': 'lite', 'full': full, 'dw': 32, 'ops': ops, 'cfg': cfg, 'sb': 1, 'fsmmod': False, 'gba': None, 'loop': 2, 'clk': False})
    return D


def run(case, ctx):
    t = case['t']
    if t == 'lite':
        return run_lite(case, ctx)
    ctx.ev({'dma': 'dma_cases', 'reg': 'slave_cases', 'model': 'model_cases', 'stream': 'stream_cases'}[t])
    try:
        if t == 'dma':
            c14.run_dma(case['c'], ctx, None)
        elif t == 'reg':
            c16.run_reg(case['c'], ctx, True)
        elif t == 'stream':
            c17.run(case['c'], ctx)
        else:
            c29.run(case['c'], ctx)
    except Violation as e:
        if any(fnmatch.fnmatch(e.mech, k) for k in KEEP):
            raise
        ctx.ev('other_rule_broken')        # data, not channel rules: judged by C14, C16 and C29
    ctx.sig(t, str(sorted(case['c'].items(), key=str))[:300])


def run_lite(case, ctx):
    dw, full = case['dw'], case['full']
    nb = dw // 8
    base = case['gba'] or 0
    base -= base % nb
    L = ['import veriloggen as vg', 'import veriloggen.thread as vthread', 'def mk():',
         '    m = vg.Module("top")', '    clk = m.Input("CLK")', '    rst = m.Input("RST")',
         '    ax = vthread.%s(m, "ax", clk, rst, %d, sb_depth=%d, use_global_base_addr=%r, fsm_as_module=%r)' %
         ('AXIMVerify' if full else 'AXIMLiteVerify', dw, max(1, case['sb']) if True else 0, case['gba'] is not None, case['fsmmod']),
         '    def go():']
    px = ' ' * 8
    if case['gba'] is not None:
        L.append(px + 'ax.set_global_base_addr(%d)' % base)
    L.append(px + 'for it in range(%d):' % case['loop'])
    px += '    '
    writes = any(o['k'] in ('w', 'wd', 'wf') for o in case['ops'])
    reads = any(o['k'] in ('r', 'rd') for o in case['ops'])
    for j, o in enumerate(case['ops']):
        a = o['a'] * nb
        k = o['k']
        if k == 'r':
            L += [px + 'r%d = ax.read(%d)' % (j, a), px + 'print("R", %d, r%d)' % (j, j)]
        elif k == 'rd':
            L += [px + 'r%d = ax.read_delayed(%d, %d)' % (j, a, o['d']), px + 'print("R", %d, r%d)' % (j, j)]
        elif k in ('w', 'wf'):
            L += [px + 'ax.%s(%d, %d + it)' % ('write' if k == 'w' else 'write_fence', a, o['v']), px + 'print("W", %d)' % j]
        elif k == 'wd':
            L += [px + 'ax.write_delayed(%d, %d + it, %d)' % (a, o['v'], o['d']), px + 'print("W", %d)' % j]
        else:
            L += [px + 'for i%d in range(%d):' % (j, o['n']), px + '    pass']
    if not writes:
        L.insert(7, '    ax.disable_write()')
    if not reads:
        L.insert(7, '    ax.disable_read()')
    L += ['    th = vthread.Thread(m, "th", clk, rst, go)', '    return m, [th.start()]']
    mod, src = thr.load(L, ctx)
    m, fsms = mod.mk()
    thr.add_done(m, fsms)
    code = m.to_verilog()
    stext, decl, conn, peeks, dump = axitb.hook('ax', dw, case['cfg'], lite=not full)
    slow = min(case['cfg'][k] for k in ('PAW', 'PW', 'PB', 'PAR', 'PR'))
    log = thr.simulate(m, fsms, ctx, maxcyc=500 + case['loop'] * len(case['ops']) * (60 + 8 * int(100 / slow)), peeks=peeks, decl=decl, conn=conn,
                       code=code + '\n' + stext, settle=300, tail=dump)

    def bad(mech, msg):
        raise Violation(mech, msg, program=src, config=str(case), log=log.text)
    mon = axitb.Mon(dw, lite=not full)
    for c, row in enumerate(log.cycles):
        if not writes:
            for ch in ('aw', 'w'):
                row[ch + 'valid'] = '0' if row[ch + 'valid'] in 'xz' else row[ch + 'valid']
        mon.feed(c, row, bad)
        for ch in ('aw', 'w', 'ar', 'b', 'r'):
            if row[ch + 'valid'] == '1':
                ctx.ev('handshakes' if row[ch + 'ready'] == '1' else 'master_stalls')
    if not log.done:
        bad('lite-hang', 'the program does not finish (%d cycles)' % log.ncyc)
    mon.finish(bad)
    # data: the operations in program order against a byte memory
    mem = {}
    when = {}
    ev = [(c, w) for c, w in log.ev if w[0] in 'RW']
    pos = 0
    wi = ri = 0
    m32 = 2 ** min(32, dw) - 1
    for it in range(case['loop']):
        for j, o in enumerate(case['ops']):
            if o['k'] == 'idle':
                continue
            if pos >= len(ev):
                bad('lite-missing', 'operation %d of round %d did not report' % (j, it))
            c, w = ev[pos]
            pos += 1
            a = base + o['a'] * nb
            if w[0] != ('R' if o['k'] in ('r', 'rd') else 'W') or int(w[1]) != j:
                bad('lite-order', 'expected operation %d, got %s' % (j, w))
            ctx.ev('lite_ops')
            if w[0] == 'W':
                v = (o['v'] + it) & (2 ** min(dw, 32) - 1)
                if wi >= len(mon.wb):
                    bad('lite-write', 'write %d has no address' % j)
                if mon.wb[wi][0] != a:
                    bad('lite-write', 'write %d: address 0x%x, expected 0x%x' % (j, mon.wb[wi][0], a))
                if mon.bcyc[wi] >= c and (not full or o['k'] == 'wf'):
                    bad('lite-early', 'write %d reported in cycle %d, response in %d' % (j, c, mon.bcyc[wi]))
                mem[a] = v
                when[a] = mon.bcyc[wi]
                wi += 1
            else:
                if ri >= len(mon.rb) or mon.rb[ri][0] != a:
                    bad('lite-read', 'read %d: address %s, expected 0x%x' % (j, [hex(x[0]) for x in mon.rb[ri:ri + 1]], a))
                e = mem.get(a)
                if e is None:
                    e = sum(axitb.init_byte(a + x) << (8 * x) for x in range(nb))
                got = int(w[2])
                # a plain write of the full master is posted: only a read issued after its response must see it
                if full and when.get(a, -1) >= mon.arcyc[ri]:
                    ctx.ev('posted_skipped')
                elif got & m32 != e & m32:
                    bad('lite-data', 'read %d of 0x%x returned 0x%x, expected 0x%x' % (j, a, got & m32, e & m32))
                ri += 1
    if wi != len(mon.wb) or ri != len(mon.rb):
        bad('lite-extra', '%d writes and %d reads on the bus, %d and %d in the program' % (len(mon.wb), len(mon.rb), wi, ri))
    ctx.ev('lite_cases')
    ctx.sig('lite', full, dw, case['sb'], tuple(o['k'] for o in case['ops']), case['gba'])
    ctx.sample = dict(dw=dw, full=full, ops=len(ev), cycles=log.ncyc)
