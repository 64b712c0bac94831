"""C12: FIFOs. Per-cycle port events of the FIFO core, of the logic API and of thread programs judged by a queue model."""
import veriloggen
from veriloggen import Module, Not
import veriloggen.thread as vthread
from veriloggen.types.fifo import mkFifoDefinition
from vlib.harness import Violation, Inconclusive
from vlib.trace import trace, b2i
from vlib import thr

PID = 'C12'
RULE = ('a case is a FIFO configuration (width 1..70, address width 1..6, sync/async read, plain, fixed-point, external or '
        'RTL-connected interface) under a random burst/stall request history from logic, or random producer and consumer threads '
        'with blocking and try operations; every cycle the ports and indications are compared with a queue; distinct = configuration '
        'and program/history')
ASSUMPTIONS = ['at most one enqueue and one dequeue request of a FIFO is active per cycle (threads sharing a side use the lock)',
               'the enqueue operation stops at almost-full, as the tests specify (capacity 2**addrwidth - 2)',
               'iverilog simulates the emitted Verilog faithfully']
MIN_EVENTS = {'enq': 3000, 'deq': 3000, 'full_cycles': 200, 'empty_cycles': 500, 'thread_enq': 500, 'thread_deq': 500, 'try_refused': 60,
              'flag_read': 100}


def counts(tier):
    return 200 if tier == 'quick' else 3000


def stim(rng, n, names):
    """bursty request patterns: rates change between phases"""
    out = []
    while len(out) < n:
        rates = [rng.choice([0, 0.1, 0.5, 0.9, 1]) for _ in names]
        for _ in range(rng.randint(3, 40)):
            out.append([1 if rng.random() < p else 0 for p in rates])
    return out[:n]


def gen(rng, i, tier):
    kind = rng.choice(['core', 'core', 'rtl', 'rtl', 'thread', 'thread', 'thread'])
    dw = rng.choice([1, 2, 7, 8, 16, 31, 32, 32, 33, 64, 70])
    aw = rng.choice([1, 2, 2, 3, 3, 4, 5, 6]) if kind == 'core' else rng.choice([2, 2, 3, 3, 4, 5, 6])
    c = {'kind': kind, 'dw': dw, 'aw': aw, 'sync': rng.random() < .6}
    if kind in ('core', 'rtl'):
        n = rng.randint(60, 300)
        c['stim'] = stim(rng, n, 'ed')
        c['data'] = rng.getrandbits(32)
        if kind == 'rtl':
            c['mode'] = rng.choice(['api', 'api', 'two', 'connect', 'ext_write', 'ext_read', 'fixed'])
            c['cond'] = rng.random() < .8
            c['nums'] = [rng.randint(0, 2 ** aw) for _ in range(2)]
            c['rstc'] = rng.choice([None, None, n // 2])
        return c
    c['dw'] = dw = rng.choice([4, 8, 16, 31, 32, 32])
    c['cls'] = rng.choice(['FIFO', 'FIFO', 'FIFO', 'FixedFIFO', 'ExtFIFO'])
    if c['cls'] == 'ExtFIFO':
        c['dw'] = 32
    c['point'] = rng.randint(0, max(0, c['dw'] - 2))
    if c['cls'] == 'FixedFIFO':
        c['dw'] = dw = rng.choice([16, 32])
        c['point'] = rng.choice([0, 4, 8])
    np_, nc = rng.choice([(1, 1), (1, 1), (1, 1), (2, 1), (1, 2), (3, 2), (1, 1)])
    nitem = rng.randint(4, 30)

    def items(tot, side):
        ops = []
        left = tot
        while left > 0:
            x = rng.random()
            if x < .2:
                ops.append(['delay', rng.randint(0, rng.choice([2, 10, 40]))])
            elif x < .35:
                ops.append(['flag', rng.choice(['is_empty', 'is_almost_empty', 'is_full', 'is_almost_full'])])
            elif x < .5:
                ops.append(['try', rng.randint(-2 ** (dw - 1), 2 ** (dw - 1) - 1)])
            elif x < .6:
                k = min(left, rng.randint(1, 6))
                ops.append(['loop', k, rng.randint(0, 3)])
                left -= k
            elif x < .65:
                k = rng.randint(1, left)
                ops.append(['tryloop', min(k, 8)])
            else:
                ops.append(['op', rng.randint(-2 ** (dw - 1), 2 ** (dw - 1) - 1)])
                left -= 1
        return ops
    c['prod'] = [items(max(1, nitem // np_), 'e') for _ in range(np_)]
    c['cons'] = [items(max(1, nitem // np_) // nc or 1, 'd') for _ in range(nc)]
    c['same'] = rng.random() < .15 and np_ == nc == 1
    if c['same']:
        c['prod'] = [items(min(3, 2 ** aw - 2), 'e')]
        c['cons'] = [[]]
        # one thread: never more blocking enqueues than fit
        c['prod'][0] = [o for o in c['prod'][0] if o[0] not in ('loop',)]
        nb = 0
        for o in list(c['prod'][0]):
            if o[0] == 'op':
                nb += 1
                if nb > 2 ** aw - 2:
                    c['prod'][0].remove(o)
    return c


def directed():
    D = []
    for aw in (1, 2, 3):
        for sync in (True, False):
            # fill completely, hold, drain completely, hold, both at once in every occupancy
            s = [[1, 0]] * (2 ** aw + 3) + [[0, 1]] * (2 ** aw + 3) + [[1, 1]] * 6
            for k in range(2 ** aw):
                s = s + [[1, 0]] + [[1, 1]] * 4
            D.append({'kind': 'core', 'dw': 8, 'aw': aw, 'sync': sync, 'stim': s, 'data': 5})
            if aw > 1:
                for mode in ('api', 'ext_write', 'ext_read', 'connect', 'fixed'):
                    D.append({'kind': 'rtl', 'dw': 8, 'aw': aw, 'sync': sync, 'stim': s, 'data': 5, 'mode': mode, 'cond': True,
                              'nums': [1, 2], 'rstc': None})
    return D


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)
    if ctx.sample is None:
        ctx.sample = {k: v for k, v in case.items() if k not in ('stim',)}


class Q:
    """queue model of the FIFO core"""
    def __init__(self, dw, aw, sync):
        self.q = []
        self.cap = 2 ** aw - 1
        self.dw = dw
        self.sync = sync
        self.rdata = 0

    def check(self, f, bad, c, ctx):
        n = len(self.q)
        exp = {'empty': n == 0, 'almost_empty': n <= 1, 'full': n == self.cap, 'almost_full': n >= self.cap - 1}
        for k, v in exp.items():
            if k in f and f[k] != ('1' if v else '0'):
                bad('flag:' + k, 'cycle %d: %s = %s with %d of %d items' % (c, k, f[k], n, self.cap))
        if 'rdata' in f:
            if self.sync:
                if self.rdata is not None and b2i(f['rdata']) != self.rdata:
                    bad('rdata', 'cycle %d: rdata = %s, expected %d' % (c, f['rdata'], self.rdata))
            elif self.q and b2i(f['rdata']) != self.q[0]:
                bad('rdata', 'cycle %d: rdata = %s, expected %d' % (c, f['rdata'], self.q[0]))
        if n == 0:
            ctx.ev('empty_cycles')
        if n == self.cap:
            ctx.ev('full_cycles')

    def step(self, enq, wdata, deq, ctx):
        e = enq and len(self.q) < self.cap
        d = deq and len(self.q) > 0
        if d:
            self.rdata = self.q.pop(0)
            ctx.ev('deq')
        if e:
            self.q.append(wdata & ((1 << self.dw) - 1))
            ctx.ev('enq')
        return e, d

    def reset(self):
        self.q = []
        self.rdata = 0


def datagen(case, n):
    import random
    r = random.Random(case['data'])
    return [r.getrandbits(case['dw']) for _ in range(n)]


def run_core(case, ctx):
    dw, aw = case['dw'], case['aw']
    m = mkFifoDefinition('f', dw, aw, sync=case['sync'])
    code = m.to_verilog()
    D = datagen(case, len(case['stim']))
    st = [{'RST': 1}, {'RST': 1}] + [{'f_enq': e, 'f_deq': d, 'f_wdata': D[i]} for i, (e, d) in enumerate(case['stim'])]
    outs = [('f_full', 1), ('f_almost_full', 1), ('f_empty', 1), ('f_almost_empty', 1), ('f_rdata', dw)]
    rows, _ = trace(code, 'f', [('RST', 1), ('f_enq', 1), ('f_deq', 1), ('f_wdata', dw)], outs, st, ctx)

    def bad(mech, msg):
        raise Violation(mech, msg, code=code, config=str({k: case[k] for k in ('dw', 'aw', 'sync')}))
    q = Q(dw, aw, case['sync'])
    for c, (s, r) in enumerate(zip(st, rows)):
        if s.get('RST'):
            continue
        q.check({k[2:]: v for k, v in r.items()}, bad, c, ctx)
        q.step(s['f_enq'], s['f_wdata'], s['f_deq'], ctx)
    ctx.evaluations = 5 * len(rows)
    ctx.sig('core', dw, aw, case['sync'], str(case['stim']))


def run_rtl(case, ctx):
    dw, aw, sync, mode = case['dw'], case['aw'], case['sync'], case['mode']
    m = Module('top')
    clk = m.Input('CLK')
    rst = m.Input('RST')
    kw = {}
    cls = vthread.FIFO
    if mode == 'fixed':
        # the interface options of the fixed-point class mean the same as those of the plain class
        cls = vthread.FixedFIFO
        kw['external_write' if case['data'] % 2 else 'external_read'] = True
    if mode == 'ext_write':
        kw['external_write'] = True
    if mode == 'ext_read':
        kw['external_read'] = True
    f = cls(m, 'f', clk, rst, dw, aw, sync=sync, **kw)
    ins = [('RST', 1)]
    extw, extr = kw.get('external_write'), kw.get('external_read')
    D = datagen(case, len(case['stim']))

    def out(name, val, w=1):
        o = m.Output('o_' + name, w) if w > 1 else m.Output('o_' + name)
        o.assign(val)
        outs.append(('o_' + name, w))
    outs = []
    for nm, v in (('full', f.full), ('almost_full', f.almost_full), ('empty', f.empty), ('almost_empty', f.almost_empty)):
        out(nm, v)
    out('rdata', f.rdata, dw)
    out('count', f.count, 8)
    out('space', f.space, 8)
    out('hs0', f.has_space(case['nums'][0]))
    out('hs1', f.has_space(case['nums'][1]))
    wthr = False      # enqueue stops at almost full
    if extw:
        ins += [('f_enq', 1), ('f_wdata', dw)]
        en, wn = 'f_enq', 'f_wdata'
    else:
        e = m.Input('e')
        w = m.Input('w', dw)
        ins += [('e', 1), ('w', dw)]
        en, wn = 'e', 'w'
        if mode == 'connect':
            full = m.Output('c_full')
            af = m.Output('c_af')
            f.connect_enq_rtl(e, w, full, af)
            outs += [('c_full', 1), ('c_af', 1)]
        elif mode == 'two':
            wthr = True
            s = m.Input('s')
            ins.append(('s', 1))
            a0, r0 = f.enq_rtl(w, cond=veriloggen.Ands(e, s))
            a1, r1 = f.enq_rtl(veriloggen.Unot(w), cond=[e, Not(s)])
            out('ready', r0)
            out('ready1', r1)
            out('ack', a0)
        else:
            wthr = True
            a0, r0 = f.enq_rtl(w, cond=e)
            out('ready', r0)
            out('ack', a0)
    if extr:
        ins.append(('f_deq', 1))
        dn = 'f_deq'
    else:
        d = m.Input('d')
        ins.append(('d', 1))
        dn = 'd'
        if mode == 'connect':
            em = m.Output('c_empty')
            ae = m.Output('c_ae')
            rd = m.Output('c_rdata', dw)
            f.connect_deq_rtl(d, rd, em, ae)
            outs += [('c_empty', 1), ('c_ae', 1), ('c_rdata', dw)]
        elif mode == 'two':
            t = m.Input('t')
            ins.append(('t', 1))
            d0 = f.deq_rtl(cond=veriloggen.Ands(d, t))
            d1 = f.deq_rtl(cond=[d, Not(t)])
            out('valid', d0[1])
            out('valid1', d1[1])
            out('dready', d0[2])
        else:
            d0 = f.deq_rtl(cond=d)
            out('valid', d0[1])
            out('dready', d0[2])
    code = m.to_verilog()
    import random
    r = random.Random(case['data'] + 1)
    st = [{'RST': 1}, {'RST': 1}]
    for i, (e_, d_) in enumerate(case['stim']):
        st.append({en: e_, dn: d_, wn: D[i], 's': r.getrandbits(1), 't': r.getrandbits(1), 'RST': 1 if case['rstc'] == i else 0})
    rows, _ = trace(code, 'top', ins, outs, st, ctx)

    def bad(mech, msg):
        raise Violation(mech, msg, code=code, config=str({k: case[k] for k in case if k != 'stim'}))
    q = Q(dw, aw, sync)
    prev_ready = None
    pv = pv1 = None
    for c, (s, row) in enumerate(zip(st, rows)):
        if s.get('RST'):
            q.reset()
            prev_ready = pv = pv1 = None
            continue
        f_ = {k[2:]: v for k, v in row.items() if k.startswith('o_')}
        q.check(f_, bad, c, ctx)
        if mode == 'connect':
            q.check({'full': row['c_full'], 'almost_full': row['c_af'], 'empty': row['c_empty'], 'almost_empty': row['c_ae'],
                     'rdata': row['c_rdata']}, bad, c, ctx)
        n = len(q.q)
        if b2i(f_['count']) != n:
            bad('count', 'cycle %d: count = %s with %d items' % (c, f_['count'], n))
        if b2i(f_['space']) != q.cap - n:
            bad('space', 'cycle %d: space = %s with %d items of %d' % (c, f_['space'], n, q.cap))
        for k, num in zip(('hs0', 'hs1'), case['nums']):
            v = num < 1 or n + num <= q.cap - 1
            if f_[k] != ('1' if v else '0'):
                bad('has_space', 'cycle %d: has_space(%d) = %s with %d items of %d usable' % (c, num, f_[k], n, q.cap - 1))
        wd = s[wn]
        enq = s[en]
        if wthr:
            for k in ('ready', 'ready1'):
                if k in f_ and f_[k] != ('1' if n < q.cap - 1 else '0'):
                    bad('ready', 'cycle %d: enqueue ready = %s with %d items' % (c, f_[k], n))
            if prev_ready is not None and f_['ack'] != prev_ready:
                bad('ack', 'cycle %d: ack = %s, ready in the previous cycle was %s' % (c, f_['ack'], prev_ready))
            prev_ready = f_['ready']
            if mode == 'two' and not s['s']:
                wd = ~wd
            enq = enq and n < q.cap - 1
        if 'valid' in f_:
            want = 1 if s[dn] and n else 0
            w0, w1 = want, 0
            if mode == 'two':
                w0, w1 = (want, 0) if s['t'] else (0, want)
            if sync:
                w0, pv = pv, w0
                w1, pv1 = pv1, w1
            if w0 is not None and f_['valid'] != str(w0):
                bad('valid', 'cycle %d: dequeue valid = %s, expected %d' % (c, f_['valid'], w0))
            if 'valid1' in f_ and w1 is not None and f_['valid1'] != str(w1):
                bad('valid', 'cycle %d: dequeue valid1 = %s, expected %d' % (c, f_['valid1'], w1))
            if f_['dready'] != ('1' if n else '0'):
                bad('dready', 'cycle %d: dequeue ready = %s with %d items' % (c, f_['dready'], n))
        q.step(enq, wd, s[dn], ctx)
    ctx.evaluations = 8 * len(rows)
    ctx.sig('rtl', str({k: case[k] for k in case}))


def tsource(case):
    dw, aw = case['dw'], case['aw']
    L = ['import veriloggen as vg', 'import veriloggen.thread as vthread', 'def mk():', '    D = []',
         '    m = vg.Module("top")', '    clk = m.Input("CLK")', '    rst = m.Input("RST")']
    a = '%d, %d' % (dw, aw)
    if case['cls'] == 'FixedFIFO':
        a += ', point=%d' % case['point']
    L.append('    f = vthread.%s(m, "f", clk, rst, %s, sync=%s)' % (case['cls'], a, case['sync']))
    np_, nc = len(case['prod']), len(case['cons'])
    if np_ > 1:
        L.append('    pl = vthread.Mutex(m, "pl", clk, rst)')
    if nc > 1:
        L.append('    cl = vthread.Mutex(m, "cl", clk, rst)')
    fixed = case['cls'] == 'FixedFIFO'
    raw = ', raw=True' if fixed else ''
    raw0 = 'raw=True' if fixed else ''

    def emit(t, ops, side):
        lock = 'pl' if side == 'e' and np_ > 1 else 'cl' if side == 'd' and nc > 1 else None
        I = '        '
        for o in ops:
            k = o[0]
            if lock and k != 'delay':
                L.append(I + lock + '.lock()')
            if k == 'delay':
                L.extend([I + 'for d in range(%d):' % o[1], I + '    pass'])
            elif k == 'flag':
                L.extend([I + 'x = f.%s()' % o[1], I + 'print("G %s %d %%d" %% x)' % (o[1], t)])
            elif side == 'e':
                if k == 'op':
                    L.extend([I + 'f.enq(%d%s)' % (o[1], raw), I + 'print("E %d %%d" %% (%d))' % (t, o[1])])
                elif k == 'try':
                    L.extend([I + 'r = f.try_enq(%d%s)' % (o[1], raw), I + 'print("TE %d %d %%d" %% r)' % (t, o[1])])
                elif k == 'loop':
                    L.extend([I + 'for i in range(%d):' % o[1], I + '    f.enq(i%s)' % raw, I + '    print("E %d %%d" %% i)' % t])
                    if o[2]:
                        L.extend([I + '    for d in range(%d):' % o[2], I + '        pass'])
                elif k == 'tryloop':
                    L.extend([I + 'for i in range(%d):' % o[1], I + '    r = f.try_enq(i%s)' % raw,
                              I + '    print("TE %d %%d %%d" %% (i, r))' % t])
            else:
                if k == 'op':
                    L.extend([I + 'x = f.deq(%s)' % raw0, I + 'print("D %d %%d" %% x)' % t])
                elif k == 'try':
                    L.extend([I + 'x, r = f.try_deq(%s)' % raw0, I + 'print("TD %d %%d %%d" %% (x, r))' % t])
                elif k == 'loop':
                    L.extend([I + 'for i in range(%d):' % o[1], I + '    x = f.deq(%s)' % raw0, I + '    print("D %d %%d" %% x)' % t])
                    if o[2]:
                        L.extend([I + '    for d in range(%d):' % o[2], I + '        pass'])
                elif k == 'tryloop':
                    L.extend([I + 'for i in range(%d):' % o[1], I + '    x, r = f.try_deq(%s)' % raw0,
                              I + '    print("TD %d %%d %%d" %% (x, r))' % t])
            if lock and k != 'delay':
                L.append(I + lock + '.unlock()')
        L.append(I + 'pass')
    for t, ops in enumerate(case['prod']):
        L.append('    def p%d():' % t)
        emit(t, ops, 'e')
        L.append('    D.append(vthread.Thread(m, "p%d", clk, rst, p%d).start())' % (t, t))
    for t, ops in enumerate(case['cons']):
        L.append('    def c%d():' % t)
        emit(t, ops, 'd')
        L.append('    D.append(vthread.Thread(m, "c%d", clk, rst, c%d).start())' % (t, t))
    L.append('    return m, D')
    return L


def run_thread(case, ctx):
    dw, aw, sync = case['dw'], case['aw'], case['sync']
    lines = tsource(case)
    mod, src = thr.load(lines, ctx)
    m, fsms = mod.mk()
    ext = case['cls'] == 'ExtFIFO'
    if ext:
        # the interface leads to the outside: attach a FIFO core there
        fdef = mkFifoDefinition('fcore', dw, aw, sync=sync)
        thr.add_done(m, fsms)
        code = m.to_verilog() + '\n' + fdef.to_verilog()
        sg = [('enq', 1), ('wdata', dw), ('full', 1), ('almost_full', 1), ('deq', 1), ('rdata', dw), ('empty', 1), ('almost_empty', 1)]
        decl = ' '.join('wire [%d:0] %s;' % (w - 1, s) for s, w in sg)
        decl += ' fcore fc(.CLK(CLK), .RST(RST), %s);' % ', '.join('.fcore_%s(%s)' % (s, s) for s, _ in sg)
        conn = ', '.join('.f_%s(%s)' % (s, s) for s, _ in sg)
        peeks = [(s, s) for s, _ in sg]
        log = thr.simulate(m, fsms, ctx, 6000, peeks=peeks, decl=decl, conn=conn, code=code)
    else:
        peeks = [(s, 'dut.f_' + s) for s in ('enq', 'wdata', 'full', 'almost_full', 'deq', 'rdata', 'empty', 'almost_empty')]
        log = thr.simulate(m, fsms, ctx, 6000, peeks=peeks)

    def bad(mech, msg):
        raise Violation(mech, msg + '\n' + '\n'.join(lines[7:60]), program=src, log=log.text, code=log.code)
    q = Q(dw, aw, sync)
    M = (1 << dw) - 1
    acc, dlv, occ = [], [], []
    q.rdata = None
    for c, r in enumerate(log.cycles):
        q.check({k: r[k] for k in ('full', 'almost_full', 'empty', 'almost_empty', 'rdata')}, bad, c, ctx)
        occ.append(len(q.q))
        if r['enq'] not in '01' or r['deq'] not in '01':
            bad('request', 'cycle %d: enq = %s deq = %s' % (c, r['enq'], r['deq']))
        head = q.q[0] if q.q else None
        e, d = q.step(r['enq'] == '1', b2i(r['wdata']) or 0, r['deq'] == '1', ctx)
        if e:
            acc.append((c, b2i(r['wdata'])))
        if d:
            dlv.append((c, head))
    ej = dj = 0
    for c, l in log.ev:
        k = l[0]
        if k == 'E' or (k == 'TE' and l[3] == '1'):
            if ej >= len(acc) or acc[ej][0] >= c:
                bad('enq-lost', 'cycle %d: %s, but only %d items were accepted' % (c, l, len([a for a in acc if a[0] < c])))
            if acc[ej][1] != int(l[2]) & M:
                bad('enq-data', 'cycle %d: %s, the FIFO accepted %s' % (c, l, acc[ej]))
            ej += 1
            ctx.ev('thread_enq')
        elif k == 'D' or (k == 'TD' and l[3] == '1'):
            if dj >= len(dlv) or dlv[dj][0] >= c:
                bad('deq-extra', 'cycle %d: %s, but only %d items were delivered' % (c, l, len(dlv)))
            if not l[2].lstrip('-').isdigit() or dlv[dj][1] != int(l[2]) & M:
                bad('deq-data', 'cycle %d: %s, the FIFO delivered %s' % (c, l, dlv[dj]))
            dj += 1
            ctx.ev('thread_deq')
        elif k in ('TE', 'TD'):
            if l[3] != '0':
                bad('try-result', '%s' % l)
            ctx.ev('try_refused')
            o = occ[max(0, c - 4):c]
            if k == 'TE' and max(o) < q.cap - 1:
                bad('try-refused', 'cycle %d: try_enq is refused with occupancies %s of %d' % (c, o, q.cap))
            if k == 'TD' and min(o) > 0:
                bad('try-refused', 'cycle %d: try_deq is refused with occupancies %s' % (c, o))
        elif k == 'G':
            o = occ[c - 1]
            v = {'is_empty': o == 0, 'is_almost_empty': o <= 1, 'is_full': o == q.cap, 'is_almost_full': o >= q.cap - 1}[l[1]]
            if l[3] != ('1' if v else '0'):
                bad('flag-thread', 'cycle %d: %s gives %s with %d of %d items' % (c, l[1], l[3], o, q.cap))
            ctx.ev('flag_read')
    ne, nd = len(acc), len(dlv)
    if ej != ne:
        bad('enq-extra', '%d items were accepted, the threads enqueued %d' % (ne, ej))
    if dj != nd:
        bad('deq-lost', '%d items were delivered, the threads received %d' % (nd, dj))
    # progress: producers may only be stuck when the FIFO has no room, consumers only when it is empty
    if not log.done:
        # who is blocked?
        pe = expected_ops(case['prod'])
        ce = expected_ops(case['cons'])
        ge = len([1 for c, l in log.ev if l[0] == 'E'])
        gd = len([1 for c, l in log.ev if l[0] == 'D'])
        o = occ[-1]
        if ge < pe and o < q.cap - 1:
            bad('enq-stuck', 'enqueue is blocked with %d of %d items' % (o, q.cap))
        if gd < ce and o > 0:
            bad('deq-stuck', 'dequeue is blocked with %d items' % o)
        if ge >= pe and gd >= ce:
            bad('stuck', 'threads have not finished')
        ctx.ev('blocked_runs')
    ctx.evaluations = len(log.ev) + 4 * len(log.cycles)
    ctx.sig(src)


def expected_ops(side):
    n = 0
    for ops in side:
        for o in ops:
            n += 1 if o[0] == 'op' else o[1] if o[0] == 'loop' else 0
    return n
