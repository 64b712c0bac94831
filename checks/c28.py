"""C28: UART. The line of the real transmitter is decoded by a tick-exact monitor; the real receiver is fed frames with random gaps,
drift and glitches; thread-level send/recv programs run over a shared link."""
import random
import veriloggen
import veriloggen.thread as vthread
from veriloggen.thread.uart import mkUartTx, mkUartRx, UartTx, UartRx
from vlib.harness import Violation, Inconclusive
from vlib.trace import trace, b2i
from vlib import thr

PID = 'C28'
RULE = ('a case is a divisor (2..70 clocks per bit, also fractional clock/baud ratios) and either random enable/byte histories on the '
        'transmitter core, random frames (gaps, drifting bit length, short glitches) on the receiver core, or thread programs that send, '
        'receive and echo over both; every cycle of the line is judged; distinct = divisor and byte sequence')
ASSUMPTIONS = ['a bit lasts int(clockfreq / baudrate) clocks, at least 2 (4 for frames without any gap); frames are 8N1',
               'a thread receives a byte only while it waits in recv', 'iverilog simulates the emitted Verilog faithfully']
MIN_EVENTS = {'tx_frames': 150, 'rx_frames': 300, 'refused_enable': 100, 'glitches': 20, 'thread_bytes': 80, 'echo_bytes': 20}


def counts(tier):
    return 110 if tier == 'quick' else 1500


def gen(rng, i, tier):
    kind = rng.choice(['tx', 'rx', 'rx', 'thread', 'thread'])
    w = rng.choice([2, 3, 4, 5, 6, 7, 8, 8, 9, 10, 12, 15, 16, 17, 31, 32, 33, 63, 64, rng.randint(2, 70)])
    if kind == 'thread':
        w = rng.choice([4, 5, 6, 7, 8, 9, 10, 13, 16, 17, 20])
    baud = rng.choice([1, 9600, 19200, 115200, rng.randint(1, 10 ** 6)])
    clock = baud * w + (rng.randint(0, baud - 1) if rng.random() < .5 else 0)
    c = {'kind': kind, 'w': w, 'baud': baud, 'clock': clock}
    n = rng.randint(3, 12) if w < 40 else rng.randint(2, 5)
    byte = lambda: rng.choice([0, 255, 0x55, 0xaa, 1, 0x80, rng.randrange(256), rng.randrange(256), rng.randrange(256)])
    if kind == 'tx':
        # per-cycle enable history with random bytes
        c['n'] = n
        c['mode'] = rng.choice(['held', 'bursty', 'polite'])
        c['seed'] = rng.getrandbits(32)
    elif kind == 'rx':
        fr = []
        for _ in range(n):
            x = rng.random()
            if x < .15 and w >= 6:
                fr.append(['glitch', rng.randint(1, w // 2 - 2), rng.randint(w, 3 * w)])
            gap = rng.choice([0, 0, 0, 1, 2, rng.randint(0, 3 * w)])
            if w < 4:
                gap = max(gap, 1)
            eps = rng.choice([0, 0, -1, 1]) if w >= 16 else 0
            fr.append(['frame', byte(), gap, eps])
        c['frames'] = fr
    else:
        c['shape'] = rng.choice(['loop', 'loop', 'echo', 'lock'])
        c['data'] = [[byte(), rng.choice([0, 0, 0, 1, 3, rng.randint(0, 12 * w)])] for _ in range(rng.randint(2, 7))]
        c['data2'] = [[byte(), rng.choice([0, 0, 1, rng.randint(0, 12 * w)])] for _ in range(rng.randint(1, 4))]
        c['add'] = rng.randrange(256)
    return c


def directed():
    return [{'kind': 'rx', 'w': w, 'baud': 9600, 'clock': 9600 * w, 'frames': [['frame', b, 0 if w >= 4 else 1, 0] for b in (0, 255, 0x55, 0xaa, 1, 0x80, 0x7f, 0xfe)]}
            for w in range(2, 12)] + \
        [{'kind': 'tx', 'w': w, 'baud': 100, 'clock': 100 * w + 99, 'n': 6, 'mode': 'held', 'seed': 5} for w in range(1, 12)]


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)
    ctx.sample = dict(case)


def decode(line, w, bad, slack=0):
    """8N1 frames on a list of line levels, every bit exactly w samples; -> [(first cycle of the start bit, byte)]"""
    out = []
    i = 0
    n = len(line)
    while i < n:
        if line[i] not in '01':
            bad('line-x', 'cycle %d: txd = %s' % (i, line[i]))
        if line[i] == '1':
            i += 1
            continue
        if i + 10 * w > n:
            break
        bits = []
        for k in range(10):
            seg = line[i + k * w:i + (k + 1) * w]
            if len(set(seg)) != 1:
                bad('bit-length', 'frame at cycle %d: bit %d is %s, not constant over %d clocks' % (i, k, ''.join(seg), w))
            bits.append(int(seg[0]))
        if bits[0] != 0 or bits[9] != 1:
            bad('framing', 'frame at cycle %d: bits %s' % (i, bits))
        out.append((i, sum(b << k for k, b in enumerate(bits[1:9]))))
        i += 10 * w
    return out


def run_tx(case, ctx):
    veriloggen.reset()
    w = case['w']
    code = mkUartTx(case['baud'], case['clock']).to_verilog()
    rng = random.Random(case['seed'])
    L = (12 * w + 8) * case['n']
    st = [{'RST': 1}] * 2
    rate = 1
    for c in range(L):
        if c % max(1, 3 * w) == 0:
            rate = {'held': 1, 'bursty': rng.choice([0, .05, .5, 1]), 'polite': rng.choice([0, 1 / (6.0 * w)])}[case['mode']]
        st.append({'enable': 1 if rng.random() < rate else 0, 'din': rng.randrange(256)})
    st += [{}] * (12 * w + 8)
    rows, _ = trace(code, 'UartTx', [('RST', 1), ('enable', 1), ('din', 8)], [('ready', 1), ('txd', 1)], st, ctx)

    def bad(mech, msg):
        raise Violation(mech, msg, code=code)
    line = [r['txd'] for r in rows][2:]
    fr = decode(line, w, bad)
    acc = []
    for c, (r, s) in enumerate(zip(rows[2:], st[2:])):
        if r['ready'] not in '01':
            bad('ready-x', 'cycle %d: ready = %s' % (c, r['ready']))
        if s.get('enable') and r['ready'] == '1':
            acc.append((c, s['din']))
        elif s.get('enable'):
            ctx.ev('refused_enable')
    if [b for _, b in fr] != [b for _, b in acc]:
        bad('tx-bytes', 'accepted %s, sent on the line %s' % (acc, fr))
    for (c, b), (f, _) in zip(acc, fr):
        if not c < f <= c + 3 * w + 4:
            bad('tx-start', 'byte %d accepted in cycle %d starts on the line in cycle %d' % (b, c, f))
    # the transmitter is ready again once a frame is on the line
    for (c, b), (f, _) in zip(acc, fr):
        end = f + 10 * w
        if not any(r['ready'] == '1' for r in rows[2:][f + 9 * w:end + w + 4]):
            bad('tx-stuck', 'not ready after the frame at cycle %d' % f)
        if any(r['ready'] == '1' for r in rows[2:][c + 1:f + 9 * w]):
            bad('tx-ready-early', 'ready during the frame at cycle %d' % f)
    if rows[2]['ready'] != '1' or rows[-1]['ready'] != '1':
        bad('tx-idle', 'not ready when idle')
    ctx.ev('tx_frames', len(fr))
    ctx.sig('tx', w, tuple(b for _, b in fr))
    ctx.evaluations += len(line)


def run_rx(case, ctx):
    veriloggen.reset()
    w = case['w']
    code = mkUartRx(case['baud'], case['clock']).to_verilog()
    line = [1] * (3 * w)
    exp = []
    for f in case['frames']:
        if f[0] == 'glitch':
            line += [1] * (2 * w) + [0] * f[1] + [1] * f[2]
            ctx.ev('glitches')
            continue
        _, b, gap, eps = f
        line += [1] * gap
        bits = [0] + [(b >> k) & 1 for k in range(8)] + [1]
        s = len(line)
        d = w * (1 + eps * .01)
        for k in range(10):
            line += [bits[k]] * (int(round((k + 1) * d)) - int(round(k * d)))
        exp.append((s, b, len(line)))
    line += [1] * (12 * w)
    st = [{'RST': 1, 'rxd': 1}] * 2 + [{'rxd': v} for v in line]
    rows, _ = trace(code, 'UartRx', [('RST', 1), ('rxd', 1)], [('dout', 8), ('valid', 1)], st, ctx)
    got = []
    for c, r in enumerate(rows[2:]):
        if r['valid'] not in '01':
            raise Violation('valid-x', 'cycle %d: valid = %s' % (c, r['valid']), code=code)
        if r['valid'] == '1':
            got.append((c, b2i(r['dout'])))
    if [b for _, b in got] != [b for _, b, _ in exp]:
        raise Violation('rx-bytes', '%d clocks per bit: frames on the line (start, byte, end) %s, received %s' % (w, exp, got), code=code)
    for (c, b), (s, _, e) in zip(got, exp):
        if not s + 9 * w * .9 < c <= e + 3:
            raise Violation('rx-time', 'byte %d of the frame %d..%d is delivered in cycle %d' % (b, s, e, c), code=code)
    ctx.ev('rx_frames', len(exp))
    ctx.sig('rx', w, tuple(b for _, b, _ in exp))
    ctx.evaluations += len(line)


def run_thread(case, ctx):
    veriloggen.reset()
    w, shape = case['w'], case['shape']
    kw = 'baudrate=%d, clockfreq=%d' % (case['baud'], case['clock'])
    d1, d2 = case['data'], case['data2']

    def sender(name, d, lock=False):
        o = ['    def %s():' % name]
        for b, g in d:
            if g:
                o.append('        for d_%s in range(%d): pass' % (name, g // 3 + 1))
            if lock:
                o.append('        tx.lock()')
            o.append('        tx.send(%d)' % b)
            o.append('        print("S %s %%d" %% %d)' % (name, b))
            if lock:
                o.append('        tx.unlock()')
        return o
    n = len(d1) + (len(d2) if shape == 'lock' else 0)
    L = ['from veriloggen import *', 'import veriloggen.thread as vthread', 'from veriloggen.thread.uart import UartTx, UartRx', '',
         'def mk():', '    m = Module("main")', '    clk = m.Input("CLK")', '    rst = m.Input("RST")',
         '    wtx = m.Wire("wtx")']
    L += ['    tx = UartTx(m, "inst_tx", "tx_", clk, rst, wtx, %s)' % kw]
    if shape == 'echo':
        L += ['    wback = m.Wire("wback")',
              '    rx2 = UartRx(m, "inst_rx2", "rx2_", clk, rst, wtx, %s)' % kw,
              '    tx2 = UartTx(m, "inst_tx2", "tx2_", clk, rst, wback, %s)' % kw,
              '    rx = UartRx(m, "inst_rx", "rx_", clk, rst, wback, %s)' % kw,
              '    def echo():', '        while True:', '            c = rx2.recv()', '            e = c + %d' % case['add'], '            tx2.send(e)',
              '    def main():']
        for b, g in d1:
            if g:
                L.append('        for d in range(%d): pass' % (g // 3 + 1))
            L += ['        tx.send(%d)' % b, '        r = rx.recv()', '        print("R %d" % r)']
        L += ['    the = vthread.Thread(m, "the", clk, rst, echo)', '    the.start()',
              '    thm = vthread.Thread(m, "thm", clk, rst, main)', '    f = [thm.start()]']
    else:
        L += ['    rx = UartRx(m, "inst_rx", "rx_", clk, rst, wtx, %s)' % kw]
        L += sender('pa', d1, shape == 'lock')
        if shape == 'lock':
            L += sender('pb', d2, True)
        L += ['    def cons():', '        for i in range(%d):' % n, '            r = rx.recv()', '            print("R %d" % r)']
        L += ['    f = []']
        for t in ['pa', 'cons'] + (['pb'] if shape == 'lock' else []):
            L += ['    f.append(vthread.Thread(m, "th_%s", clk, rst, %s).start())' % (t, t)]
    L += ['    return m, f']
    mod, src = thr.load(L, ctx)
    m, fsms = mod.mk()
    peeks = [('txd', 'dut.wtx')] + ([('txd2', 'dut.wback')] if shape == 'echo' else [])
    log = thr.simulate(m, fsms, ctx, 30 * w * (n + 2) + 14 * w * (len(d1) + len(d2)) + 500, peeks=peeks)

    def bad(mech, msg):
        raise Violation(mech, msg, program=src, log=log.text[-3000:], code=log.code)
    if not log.done:
        bad('hang', 'the threads do not finish')
    R = [int(x[1]) & 255 if x[1].lstrip('-').isdigit() else None for _, x in log.ev if x[0] == 'R']
    lines = {k: decode([r[k] for r in log.cycles][4:], w, bad) for k, _ in peeks}
    sent = [b for _, b in lines['txd']]
    if shape == 'echo':
        want = [b for b, _ in d1]
        back = [(b + case['add']) & 255 for b in want]
        if [b for _, b in lines['txd2']] != back or R != back:
            bad('echo', 'sent %s; the echo of +%d on the line %s, received %s' % (want, case['add'], lines['txd2'], R))
        ctx.ev('echo_bytes', len(R))
    else:
        if shape == 'lock':
            want = [int(x[2]) for _, x in log.ev if x[0] == 'S']
            if sorted(want) != sorted([b for b, _ in d1 + d2]):
                bad('send-count', 'sends done %s of %s' % (want, d1 + d2))
        else:
            want = [b for b, _ in d1]
        if R != want:
            bad('recv', 'sent %s, received %s' % (want, R))
    if sent != want:
        bad('line', 'sent %s, on the line %s' % (want, lines['txd']))
    ctx.ev('thread_bytes', len(R))
    ctx.sig('thr', w, shape, tuple(want))
    ctx.evaluations += len(log.cycles)
