"""C17: AXI4-Stream endpoints of thread programs. A random external source and sink stall at will; the beats taken and given are judged against
the program order of the operations, packing rules, RAM / FIFO contents and the stream handshake rules."""
import veriloggen
import veriloggen.thread as vthread
from vlib.harness import Violation, Inconclusive
from vlib import thr

PID = 'C17'
RULE = ('every beat accepted from a stream is delivered exactly once and in order to the reading operation of the program, and every value written '
        'appears exactly once, in order, low part first when widths differ, with tlast only on the last beat of a transfer; valid, data and last hold until accepted')
ASSUMPTIONS = ['RAM regions of one transfer do not wrap and transfers that are still running are not touched by the program',
               'a wide transfer (stream word larger than local word) may carry unspecified padding in its last beat',
               'a wide transfer to or from a FIFO has a length that fills whole stream words (as the repository tests use it)']
MIN_EVENTS = {'in_beats': 3000, 'out_beats': 3000, 'in_dma': 150, 'out_dma': 150, 'single_reads': 50, 'single_writes': 50,
              'ram_words_checked': 1500, 'fifo_words': 500, 'stall_cycles': 3000}


def counts(tier):
    return 130 if tier == 'quick' else 3000


def widths(rng, dw):
    return rng.choice([dw, dw, dw, max(8, dw // 2), max(8, dw // 4), dw * 2, dw * 4])


def gen_side(rng, d, tier):
    dw = rng.choice([8, 16, 32, 32, 32, 64, 128])
    fifo = rng.random() < .35
    side = {'dw': dw, 'fifo': fifo, 'last': rng.random() < .8, 'rq': rng.choice([2, 3, 3, 4]), 'fsmmod': rng.random() < .15,
            'sb': {k: rng.choice([1, 2, 4]) for k in ('id', 'user', 'dest', 'strb') if rng.random() < .12}, 'P': rng.choice([100, 100, 60, 30, 20]), 'pol': rng.choice([0, 0, 1]), 'seed': rng.randint(1, 10 ** 6)}
    n = rng.choice([1, 1, 2, 2, 3])
    locs = []
    for _ in range(n):
        w = widths(rng, dw)
        if fifo:
            locs.append({'dw': w, 'aw': rng.choice([2, 3, 4, 6]), 'sync': rng.random() < .7, 'g': rng.choice([0, 0, 1, 3, 10])})
        else:
            locs.append({'dw': w, 'aw': rng.choice([4, 5, 6]), 'np': rng.choice([1, 1, 2, 3]), 'nb': rng.choice([1, 1, 1, 2, 4])})
    side['locs'] = locs
    ops = []
    run = set()
    for _ in range(rng.randint(2, 10)):
        k = rng.choice(['one', 'dma', 'dma', 'dma', 'wait', 'idle', 'mem'])
        if not ops or (k == 'one' and d == 'in' and not side['last']):
            k = 'dma'
        if k == 'one':
            ops.append({'k': 'one', 'n': rng.randint(1, 4), 'v': rng.getrandbits(31), 'l': rng.choice([0, 1, 'v'])})
        elif k == 'dma':
            li = rng.randrange(n)
            lo = locs[li]
            pack = max(1, dw // lo['dw'])
            asy = rng.random() < .4
            if fifo:
                m = rng.choice([1, 2, 3, 5, 8, 17, 30])
                m = -(-m // pack) * pack
                ops.append({'k': 'dma', 'l': li, 'n': m, 'async': asy})
            else:
                depth = 2 ** lo['aw'] * lo['nb']
                m = rng.choice([1, 1, 2, 3, 4, 5, 7, 8, 12])
                st = rng.choice([1, 1, 1, 2, 3])
                while m * st > depth:
                    m = max(1, m // 2)
                    st = 1 if m * st > depth else st
                la = rng.randrange(0, depth - (m - 1) * st)
                if li in run and d == 'in' and rng.random() < .5:
                    ops.append({'k': 'wait'})
                    run = set()
                ops.append({'k': 'dma', 'l': li, 'n': m, 'st': st, 'la': la, 'port': rng.randrange(lo['np']), 'async': asy})
                run.add(li)
            if not asy:
                run = set()
        elif k == 'wait':
            ops.append({'k': 'wait'})
            run = set()
        elif k == 'idle':
            ops.append({'k': 'idle', 'n': rng.randint(1, 25)})
        elif not fifo:
            li = rng.randrange(n)
            if li in run:
                ops.append({'k': 'wait'})
                run = set()
            ops.append({'k': 'mem', 'l': li, 'a': rng.randrange(2 ** locs[li]['aw']), 'v': rng.getrandbits(31), 'port': rng.randrange(locs[li]['np']),
                        'last': rng.random() < .6})
    side['ops'] = ops
    return side


def gen(rng, i, tier):
    c = {}
    r = rng.random()
    if r < .6:
        c['in'] = gen_side(rng, 'in', tier)
    if r > .4:
        c['out'] = gen_side(rng, 'out', tier)
    return c


def directed():
    D = []
    for d in ('in', 'out'):
        for dw in (8, 32, 128):
            for ratio in (-4, -2, 1, 2, 4):
                w = dw * ratio if ratio > 0 else dw // -ratio
                if w < 8:
                    continue
                for two in (False, True):
                    for fifo in (False, True):
                        ops = []
                        for k in range(6):
                            li = k % 2 if two else 0
                            if fifo:
                                n = [4, 4, 8, 12, 4, 8][k]
                                ops.append({'k': 'dma', 'l': li, 'n': n, 'async': k in (2, 3)})
                            else:
                                n = [1, 2, 3, 5, 4, 8][k]
                                ops.append({'k': 'dma', 'l': li, 'n': n, 'st': 1, 'la': k, 'port': 0, 'async': k in (2, 3)})
                        locs = [{'dw': w, 'aw': 5, 'np': 1, 'nb': 1, 'sync': True, 'g': 1} for _ in range(2 if two else 1)]
                        D.append({d: {'dw': dw, 'fifo': fifo, 'last': True, 'rq': 3, 'fsmmod': False, 'P': 50, 'pol': 0, 'seed': 7, 'locs': locs, 'ops': ops}})
    for d in ('in', 'out'):
        for p in (100, 30):
            D.append({d: {'dw': 32, 'fifo': False, 'last': True, 'rq': 3, 'fsmmod': False, 'P': p, 'pol': 0, 'seed': 3,
                          'locs': [{'dw': 32, 'aw': 5, 'np': 1, 'nb': 1}],
                          'ops': [{'k': 'one', 'n': 4, 'v': 77, 'l': 'v'}] + [{'k': 'dma', 'l': 0, 'n': 3, 'st': 1, 'la': 4 * j, 'port': 0, 'async': True} for j in range(7)] +
                          [{'k': 'one', 'n': 3, 'v': 99, 'l': 1}, {'k': 'wait'}]}})
    return D


def init_word(i, x, dw):
    v = (((x * 2654435761 + i * 40503 + 12345) * 0x9E3779B97F4A7C15) & (2 ** 128 - 1)) >> 3
    return v & (2 ** dw - 1)


def source(case):
    L = ['import veriloggen as vg', 'import veriloggen.thread as vthread', 'def mk():',
         '    m = vg.Module("top")', '    clk = m.Input("CLK")', '    rst = m.Input("RST")', '    fs = []']
    for d in ('in', 'out'):
        if d not in case:
            continue
        s = case[d]
        cl = 'AXIStream' + d.capitalize() + ('Fifo' if s['fifo'] else '')
        sb = ''.join(', with_strb=True' if k == 'strb' else ', %s_width=%d' % (k, w) for k, w in sorted(s.get('sb', {}).items()))
        L.append('    x%s = vthread.%s(m, "x%s", clk, rst, %d, with_last=%r, req_fifo_addrwidth=%d, fsm_as_module=%r%s)' %
                 (d, cl, d, s['dw'], s['last'], s['rq'], s['fsmmod'], sb))
        for i, lo in enumerate(s['locs']):
            nm = '%s%s%d' % (d[0], 'f' if s['fifo'] else 'r', i)
            if s['fifo']:
                L.append('    %s = vthread.FIFO(m, "%s", clk, rst, %d, %d, sync=%r)' % (nm, nm, lo['dw'], lo['aw'], lo['sync']))
            elif lo['nb'] > 1:
                L.append('    %s = vthread.MultibankRAM(m, "%s", clk, rst, %d, %d, numports=%d, numbanks=%d)' % (nm, nm, lo['dw'], lo['aw'], lo['np'], lo['nb']))
            else:
                L.append('    %s = vthread.RAM(m, "%s", clk, rst, %d, %d, numports=%d)' % (nm, nm, lo['dw'], lo['aw'], lo['np']))
    for d in ('in', 'out'):
        if d not in case:
            continue
        s = case[d]
        B = ['    def t%s():' % d]
        px = '        '
        for j, op in enumerate(s['ops']):
            k = op['k']
            if k == 'one':
                B.append(px + 'for a%d in range(%d):' % (j, op['n']))
                if d == 'in':
                    B.append(px + '    v%d, e%d = xin.read()' % (j, j))
                    B.append(px + ('    print("R", %d, v%d, e%d)' % (j, j, j) if s['last'] else '    print("R", %d, v%d, 0)' % (j, j)))
                else:
                    B.append(px + '    xout.write(%d + a%d, %s)' % (op['v'], j, 'a%d == %d' % (j, op['n'] - 1) if op['l'] == 'v' else op['l']))
            elif k == 'dma':
                nm = '%s%s%d' % (d[0], 'f' if s['fifo'] else 'r', op['l'])
                fn = 'dma_' + ('read' if d == 'in' else 'write') + ('_async' if op['async'] else '')
                if s['fifo']:
                    B.append(px + 'x%s.%s(%s, %d)' % (d, fn, nm, op['n']))
                else:
                    B.append(px + 'x%s.%s(%s, %d, %d%s%s)' % (d, fn, nm, op['la'], op['n'],
                                                              ', local_stride=%d' % op['st'] if op['st'] > 1 else '', ', port=%d' % op['port'] if op['port'] else ''))
                B.append(px + 'print("D", "%s", %d)' % (d, j))
            elif k == 'wait':
                B.append(px + 'x%s.dma_wait_%s()' % (d, 'read' if d == 'in' else 'write'))
            elif k == 'idle':
                B += [px + 'for a%d in range(%d):' % (j, op['n']), px + '    pass']
            elif k == 'mem':
                nm = '%sr%d' % (d[0], op['l'])
                nb = s['locs'][op['l']]['nb']
                fw = 'write' if nb == 1 else 'write_bank'
                fr = 'read' if nb == 1 else 'read_bank'
                b = '' if nb == 1 else '%d, ' % (op['v'] % nb)
                if d == 'out':
                    B.append(px + '%s.%s(%s%d, %d, port=%d)' % (nm, fw, b, op['a'], op['v'], op['port']))
                else:
                    a = op['a']
                    B.append(px + 'w%d = %s.%s(%s%d, port=%d)' % (j, nm, fr, b, a, op['port']))
                    B.append(px + 'print("M", %d, w%d)' % (j, j))
        B.append(px + 'x%s.dma_wait_%s()' % (d, 'read' if d == 'in' else 'write'))
        B.append(px + 'print("E", "%s")' % d)
        B.append('    th = vthread.Thread(m, "th%s", clk, rst, t%s)' % (d, d))
        B.append('    fs.append(th.start())')
        L += B
        if s['fifo']:
            for i, lo in enumerate(s['locs']):
                n = sum(op['n'] for op in s['ops'] if op['k'] == 'dma' and op['l'] == i)
                if not n:
                    continue
                nm = '%sf%d' % (d[0], i)
                L.append('    def c%s%d():' % (d, i))
                L.append('        for i in range(%d):' % n)
                if d == 'in':
                    L += ['            v = %s.deq()' % nm, '            print("F", %d, v)' % i]
                else:
                    L += ['            %s.enq((i + 1) * 1103515245 + %d)' % (nm, i * 12345 + s['seed'])]
                if lo['g']:
                    L += ['            for j in range(%d):' % lo['g'], '                pass']
                L += ['    tc%s%d = vthread.Thread(m, "tc%s%d", clk, rst, c%s%d)' % (d, i, d, i, d, i), '    fs.append(tc%s%d.start())' % (d, i)]
    L.append('    return m, fs')
    return L


def run(case, ctx):
    for d in case:
        for lo in case[d]['locs']:
            if lo.get('nb', 1) > 1 and case[d]['fifo']:
                raise Inconclusive('fifo')
    lines = source(case)
    mod, src = thr.load(lines, ctx)
    m, fsms = mod.mk()
    thr.add_done(m, fsms)
    code = m.to_verilog()
    decl = ['integer k__; function [127:0] iw__(input integer ri, input integer x); iw__ = (((x * 128\'d2654435761 + ri * 128\'d40503 + 128\'d12345) * '
            '128\'h9E3779B97F4A7C15) >> 3); endfunction']
    ini = ['initial begin #1;']
    dumps, peeks, conn = [], [], []
    minp = 100
    nb = 0
    for d, s in case.items():
        dw = s['dw']
        minp = min(minp, s['P'])
        decl.append('wire [%d:0] %s_td; wire %s_tv, %s_tr, %s_tl; integer %s_s;' % (dw - 1, d, d, d, d, d))
        rnd = '($random(%s_s) & 32\'h7fffffff) %% 100' % d
        word = '{' + ', '.join('$random(%s_s)' % d for _ in range((dw + 31) // 32)) + '}'
        if d == 'in':
            decl.append('reg [%d:0] in_d; reg in_v, in_l; assign in_td = in_v ? in_d : {%d{1\'bx}}; assign in_tv = in_v; assign in_tl = in_v ? in_l : 1\'bx;' % (dw - 1, dw))
            decl.append('initial begin in_v = 0; in_s = %d; end' % s['seed'])
            decl.append('always @(posedge CLK) if (RST) in_v <= 0; else if (!in_v || in_tr) begin in_v <= %s < %d; in_d <= %s; in_l <= %s < 40; end' %
                        (rnd, s['P'], word, rnd))
            conn += ['.xin_tdata(in_td)', '.xin_tvalid(in_tv)', '.xin_tready(in_tr)'] + (['.xin_tlast(in_tl)'] if s['last'] else [])
        else:
            decl.append('reg out_r; assign out_tr = out_r; initial begin out_r = 0; out_s = %d; end' % s['seed'])
            gate = '' if not s['pol'] else 'out_tv && !out_r && '
            decl.append('always @(posedge CLK) if (RST) out_r <= 0; else out_r <= %s(%s < %d);' % (gate, rnd, s['P']))
            conn += ['.xout_tdata(out_td)', '.xout_tvalid(out_tv)', '.xout_tready(out_tr)'] + (['.xout_tlast(out_tl)'] if s['last'] else [])
            if not s['last']:
                decl.append('assign out_tl = 1\'b0;')
        peeks += [(d + k, '%s_t%s' % (d, k)) for k in 'vrdl']
        for k, w in sorted(s.get('sb', {}).items()):
            if k == 'strb':
                w = dw // 8
            decl.append('wire [%d:0] %s_%s;' % (w - 1, d, k))
            conn.append('.x%s_t%s(%s_%s)' % (d, k, d, k))
            if d == 'in':
                decl.append('assign in_%s = in_v ? in_d : {%d{1\'bx}};' % (k, w))
            peeks.append((d + k, '%s_%s' % (d, k)))
        for op in s['ops']:
            if op['k'] == 'dma':
                nb += op['n'] * max(1, s['locs'][op['l']]['dw'] // dw) + 30
                if s['fifo']:
                    nb += op['n'] * (6 + 3 * s['locs'][op['l']]['g'])
            elif op['k'] == 'one':
                nb += op['n'] * 4
            else:
                nb += op.get('n', 1) * 3
        if not s['fifo']:
            for i, lo in enumerate(s['locs']):
                ri = i + (10 if d == 'out' else 0)
                for b in range(lo['nb']):
                    nm = '%sr%d' % (d[0], i) + ('' if lo['nb'] == 1 else '_%d' % b)
                    depth = 2 ** lo['aw']
                    ini.append('for (k__ = 0; k__ < %d; k__ = k__ + 1) dut.inst_%s.mem[k__] = iw__(%d, k__ + %d);' % (depth, nm, ri, b * depth))
                    dumps.append('for (k__ = 0; k__ < %d; k__ = k__ + 1) $display("L %d %%0d %%b", k__ + %d, dut.inst_%s.mem[k__]);' % (depth, ri, b * depth, nm))
    ini.append('end')
    L = thr.simulate(m, fsms, ctx, maxcyc=500 + nb * 3 * int(100 / minp + 2), peeks=peeks, decl='\n'.join(decl + ini), conn=', '.join(conn),
                     code=code, settle=100, timeout=200, tail='\n'.join(dumps))

    def bad(mech, msg):
        raise Violation(mech, msg, program=src, config=str(case), log=L.text)
    beats = {}
    for d, s in case.items():
        bs = beats[d] = []
        prev = None
        for c, row in enumerate(L.cycles):
            v, r, dd, l = (row[d + k] for k in 'vrdl')
            mine = v if d == 'out' else r
            if mine not in '01':
                bad('x-handshake', 'cycle %d: %s of x%s is %s' % (c, 'tvalid' if d == 'out' else 'tready', d, mine))
            if d == 'out':
                if prev is not None:
                    if v != '1':
                        bad('withdrawn', 'cycle %d: tvalid falls before the beat is accepted' % c)
                    if dd != prev[0]:
                        bad('unstable', 'cycle %d: tdata changes before the beat is accepted' % c)
                    if l != prev[1]:
                        bad('unstable', 'cycle %d: tlast changes before the beat is accepted' % c)
                prev = (dd, l) if v == '1' and r == '0' else None
                if v == '1' and r == '0':
                    ctx.ev('stall_cycles')
            elif r == '1' and v == '0':
                ctx.ev('stall_cycles')
            if v == '1' and d == 'out':
                for k in s.get('sb', {}):
                    if set(row[d + k]) != {'1' if k == 'strb' else '0'}:
                        bad('sideband', 'cycle %d: t%s of xout is %s' % (c, k, row[d + k]))
                    ctx.ev('sideband_checks')
            if v == '1' and r == '1':
                bs.append((c, dd, l))
        ctx.ev('%s_beats' % d, len(bs))
    if not L.done:
        bad('hang', 'the program does not finish (%d cycles); beats: %s' % (L.ncyc, {d: len(b) for d, b in beats.items()}))
    prints = {}
    last = {}
    for c, w in L.ev:
        if w[0] in 'RM':
            prints.setdefault((w[0], int(w[1])), []).append((c, w[2:]))
        elif w[0] == 'F':
            prints.setdefault(('F', int(w[1])), []).append((c, w[2:]))
        elif w[0] == 'L':
            last[(int(w[1]), int(w[2]))] = w[3]
        elif w[0] not in 'DE':
            bad('output', 'unexpected output %s' % w)
    for d, s in case.items():
        side(d, s, case, beats[d], prints, last, ctx, bad)
    ctx.sample = dict(case={d: dict(dw=s['dw'], local=[lo['dw'] for lo in s['locs']], beats=len(beats[d])) for d, s in case.items()}, cycles=L.ncyc)
    ctx.sig(*[(d, s['dw'], s['fifo'], tuple(lo['dw'] for lo in s['locs']), s['P'], tuple((o['k'], o.get('n')) for o in s['ops'])) for d, s in sorted(case.items())])


def side(d, s, case, bs, prints, last, ctx, bad):
    dw = s['dw']
    pos = [0]
    mem = {}
    exp_f = {}
    nf = {}
    seen = set()

    def word(i, a):
        return mem.get((i, a), init_word(i + (10 if d == 'out' else 0), a, s['locs'][i]['dw']))

    def take(what):
        if pos[0] >= len(bs):
            bad('beats-missing', '%s: only %d beats on x%s' % (what, len(bs), d))
        c, v, l = bs[pos[0]]
        pos[0] += 1
        return c, v, l

    def val(v, what):
        if not set(v) <= {'0', '1'}:
            bad('x-data', '%s: data %s' % (what, v))
        return int(v, 2)

    def outbeat(exp, mask, lastx, what):
        c, v, l = take(what)
        if not mask:
            return
        # bits outside mask are unspecified
        vv = ''.join(b if (mask >> (dw - 1 - k)) & 1 else '0' for k, b in enumerate(v))
        if val(vv, what) != exp & mask:
            bad('out-data', '%s (beat %d, cycle %d): data 0x%x, expected 0x%x' % (what, pos[0] - 1, c, val(vv, what), exp & mask))
        if s['last'] and l != ('1' if lastx else '0'):
            bad('out-last', '%s (beat %d, cycle %d): tlast %s, expected %d' % (what, pos[0] - 1, c, l, lastx))

    for j, op in enumerate(s['ops']):
        k = op['k']
        what = 'op %d %s' % (j, op)
        if k == 'one':
            for a in range(op['n']):
                if d == 'in':
                    c, v, l = take(what)
                    pr = prints.get(('R', j), [])
                    if len(pr) <= a:
                        bad('read-missing', what)
                    t, w = pr[a]
                    got = int(w[0]) & 0xffffffff
                    if dw < 32:
                        got &= 2 ** dw - 1
                    if got != int(v, 2) & 0xffffffff:
                        bad('in-data', '%s: read() returned 0x%x, beat %d (cycle %d) is 0x%x' % (what, got, pos[0] - 1, c, int(v, 2)))
                    if s['last'] and int(w[1]) & 1 != int(l):
                        bad('in-last', '%s: read() returned last %s, beat %d (cycle %d) has %s' % (what, w[1], pos[0] - 1, c, l))
                    if t <= c:
                        bad('early', '%s: value printed at %d before its beat %d' % (what, t, c))
                    ctx.ev('single_reads')
                else:
                    lv = (a == op['n'] - 1) if op['l'] == 'v' else op['l']
                    outbeat((op['v'] + a), (2 ** min(dw, 31) - 1), int(lv), what)
                    ctx.ev('single_writes')
        elif k == 'dma':
            ctx.ev('%s_dma' % d)
            i = op['l']
            lo = s['locs'][i]
            w = lo['dw']
            n = op['n']
            m = 2 ** w - 1
            if s['fifo']:
                idx = None
            else:
                idx = [op['la'] + x * op['st'] for x in range(n)]
            if d == 'in':
                if w <= dw:
                    pack = dw // w
                    vals = []
                    for b in range(-(-n // pack)):
                        v = int(take(what)[1], 2)
                        for x in range(pack):
                            vals.append((v >> (x * w)) & m)
                    vals = vals[:n]
                else:
                    vals = []
                    for b in range(n):
                        v = 0
                        for x in range(w // dw):
                            v |= int(take(what)[1], 2) << (x * dw)
                        vals.append(v)
                if s['fifo']:
                    exp_f.setdefault(i, []).extend(vals)
                else:
                    put(s, i, lo, idx, vals, mem)
            else:
                if s['fifo']:
                    vals = []
                    for _ in range(n):
                        kk = nf.get(i, 0)
                        v = ((kk + 1) * 1103515245 + i * 12345 + s['seed']) & 0xffffffff
                        vals.append(v)
                        nf[i] = kk + 1
                    ctx.ev('fifo_words', n)
                    lim = min(w, 32)
                else:
                    vals = get(s, i, lo, idx, word)
                    lim = w
                m = 2 ** lim - 1
                if w <= dw:
                    pack = dw // w
                    nbt = -(-n // pack)
                    for b in range(nbt):
                        e = mk = 0
                        for x in range(pack):
                            if b * pack + x < n:
                                e |= (vals[b * pack + x] & m) << (x * w)
                                mk |= m << (x * w)
                        outbeat(e, mk, int(b == nbt - 1), what)
                else:
                    pack = w // dw
                    for b in range(n):
                        for x in range(pack):
                            outbeat(vals[b] >> (x * dw), (m >> (x * dw)) & (2 ** dw - 1), int(b == n - 1 and x == pack - 1), what)
        elif k == 'mem':
            i = op['l']
            lo = s['locs'][i]
            a = op['a'] + (op['v'] % lo['nb']) * 2 ** lo['aw']
            if d == 'out':
                if lo['dw'] > 32:
                    mem[(i, a)] = op['v']
                else:
                    mem[(i, a)] = op['v'] & (2 ** lo['dw'] - 1)
            else:
                pr = prints.get(('M', j), [])
                if len(pr) != 1:
                    bad('output', what)
                got = int(pr[0][1][0]) if pr[0][1][0].lstrip('-').isdigit() else None
                if got is None:
                    bad('ram-word', '%s: RAM word is %s' % (what, pr[0][1][0]))
                mm = 2 ** min(32, lo['dw']) - 1
                if got & mm != word(i, a) & mm:
                    bad('ram-word', '%s: RAM word is 0x%x, expected 0x%x' % (what, got & mm, word(i, a) & mm))
                ctx.ev('ram_words_checked')
    if pos[0] != len(bs):
        bad('extra-beats', 'x%s: %d beats, %d expected' % (d, len(bs), pos[0]))
    for i, vals in exp_f.items():
        pr = prints.get(('F', i), [])
        mm = 2 ** min(32, s['locs'][i]['dw']) - 1
        got = [int(w[0]) & mm if w[0].lstrip('-').isdigit() else w[0] for _, w in pr]
        e = [v & mm for v in vals]
        if got != e:
            x = next((q for q in range(min(len(got), len(e))) if got[q] != e[q]), min(len(got), len(e)))
            bad('fifo-data', 'FIFO %d: item %d of %d is %s, expected 0x%x' % (i, x, len(e), hex(got[x]) if x < len(got) and isinstance(got[x], int) else 'missing', e[x]))
        ctx.ev('fifo_words', len(e))
    if not s['fifo']:
        for i, lo in enumerate(s['locs']):
            for a in range(2 ** lo['aw'] * lo['nb']):
                h = last.get((i + (10 if d == 'out' else 0), a))
                e = word(i, a)
                if h is None or not set(h) <= {'0', '1'} or int(h, 2) != e:
                    bad('ram-contents', 'memory %d word %d is %s at the end, expected 0x%x' % (i, a, h, e))
                ctx.ev('ram_words_checked')


def flat(lo, x):
    """position of word x of a plain transfer in the memory: words go round the banks"""
    return (x % lo['nb']) * 2 ** lo['aw'] + x // lo['nb']


def put(s, i, lo, idx, vals, mem):
    for x, v in zip(idx, vals):
        mem[(i, flat(lo, x))] = v


def get(s, i, lo, idx, word):
    return [word(i, flat(lo, x)) for x in idx]
