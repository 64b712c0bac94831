"""C11: Mutex / Lock / Barrier / Shared and the locks attached to RAM, FIFO and AXIM, judged on the cycle-stamped event log"""
import importlib.util
import os
import sys
import veriloggen
import veriloggen.thread
from vlib.harness import Violation, Inconclusive
from vlib.sim import iverilog

PID = 'C11'
RULE = ('a case is a set of 2..34 concurrently started threads (or pool threads) with random delays, nested critical sections, '
        'try_lock (also unlocking after a failed try), barriers over several rounds and shared-register part writes; hold '
        'intervals, lost updates, barrier rounds and register values are checked on the event log; distinct = program text')
ASSUMPTIONS = ['a thread does not lock a mutex it already holds', 'iverilog simulates the emitted Verilog faithfully']
MIN_EVENTS = {'acquire': 800, 'contended': 100, 'try_false': 40, 'try_true': 40, 'barrier_round': 80, 'shared_read': 150}
MAXCYC = 60000
KINDS = ['mutex', 'mutex', 'mutex', 'lock', 'shared', 'ram', 'fifo', 'axim']


def counts(tier):
    return 170 if tier == 'quick' else 3000


class Gen:
    def __init__(self, rng):
        self.r = rng

    def body(self, k, d):
        r = self.r
        out = []
        for _ in range(r.randint(0, 2)):
            out.append(['delay', r.randint(0, 5)])
            if r.random() < .6:
                out.append(['inc', k, r.randint(0, 3)])
            if d > 0 and k + 1 < self.nm and r.random() < .4:
                out.append(self.section(r.randint(k + 1, self.nm - 1), d - 1))
        return out

    def section(self, k, d):
        r = self.r
        x = r.random()
        if x < .6:
            hows = ['lock', 'acquire', 'acquire1'] if self.kinds[k] in ('mutex', 'lock') else ['lock']
            return ['cs', k, self.body(k, d), r.choice(hows)]
        return ['try', k, self.body(k, d), r.random() < .4, r.random() < .5]

    def case(self):
        r = self.r
        self.nm = r.randint(1, 3)
        self.kinds = [r.choice(KINDS) for _ in range(self.nm)]
        nt = r.choice([2, 2, 3, 3, 4, 5, 7] if r.random() < .93 else [9, 10, 17])
        nb = r.choice([0, 0, 1, 1, 2])
        bars = [[r.randint(1, nt), r.randint(1, 3)] for _ in range(nb)]
        ns = r.randint(0, 2)
        sh = [r.choice([8, 16, 32]) for _ in range(ns)]
        threads = []
        for t in range(nt):
            ops = []
            for b in range(len(bars) + 1):
                for _ in range(r.randint(0, 3)):
                    ops.append(self.op(ns, sh))
                if b < len(bars) and t < bars[b][0]:
                    inner = [self.op(ns, sh)] if r.random() < .4 else [['delay', r.randint(0, 20)]] if r.random() < .5 else []
                    inner.insert(r.randint(0, len(inner)), ['bar', b])
                    ops.append(['loop', bars[b][1], inner])
            if r.random() < .4:
                ops.append(['loop', r.randint(2, 4), [self.op(ns, sh), ['delay', r.randint(0, 4)]]])
            threads.append(ops)
        for s in range(ns):
            # a register is reset in the bits that some thread writes
            threads[0].append(['sw', s, None, r.getrandbits(sh[s])])
        return {'kinds': self.kinds, 'bars': bars, 'shared': sh, 'threads': threads, 'pool': r.random() < .25,
                'sort': r.random() < .5, 'as_module': r.random() < .1, 'delays': [r.choice([0, 0, 1, 2, 3, r.randint(0, 30)]) for _ in range(nt)]}

    def op(self, ns, sh):
        r = self.r
        x = r.random()
        if ns and x < .35:
            s = r.randrange(ns)
            if r.random() < .4:
                return ['sr', s]
            w = sh[s]
            y = r.random()
            if y < .4:
                return ['sw', s, None, r.getrandbits(w)]
            if y < .7:
                return ['sw', s, r.randrange(w), r.getrandbits(1)]
            hi = r.randrange(w)
            lo = r.randint(0, hi)
            return ['sw', s, [hi, lo], r.getrandbits(hi - lo + 1)]
        if x < .45:
            return ['delay', r.randint(0, 15)]
        return self.section(r.randrange(self.nm), 2)


def gen(rng, i, tier):
    return Gen(rng).case()


def directed():
    D = []
    base = {'kinds': ['mutex'], 'bars': [], 'shared': [], 'pool': False, 'sort': False, 'as_module': False}
    sec = ['cs', 0, [['delay', 3], ['inc', 0, 2]], 'lock']
    for k in ['mutex', 'lock', 'shared', 'ram', 'fifo', 'axim']:
        D.append(dict(base, kinds=[k], threads=[[['loop', 3, [sec]]] for _ in range(4)], delays=[0, 0, 0, 0]))
        D.append(dict(base, kinds=[k], threads=[[['loop', 5, [['try', 0, [['inc', 0, 1]], False, True]]]] for _ in range(3)] + [[['loop', 3, [sec]]]],
                      delays=[0, 1, 2, 0]))
    for n, k in ((10, 'mutex'), (18, 'lock'), (34, 'ram')):
        D.append(dict(base, kinds=[k], threads=[[['loop', 2, [sec]]] for _ in range(n)], delays=[0] * n))
    for n in (1, 2, 3, 4, 5, 7, 8, 16, 17):
        D.append(dict(base, bars=[[n, 3]], threads=[[['loop', 3, [['bar', 0]]]] for _ in range(n)], delays=list(range(n))))
        D.append(dict(base, bars=[[n, 3]], threads=[[['loop', 3, [['bar', 0], ['delay', i]]]] for i in range(n)], delays=[0] * n, pool=True))
    D.append(dict(base, shared=[8], threads=[[['loop', 4, [['sw', 0, i, 1], ['sr', 0], ['sw', 0, [i + 4, i], 0], ['sr', 0]]]] for i in range(4)] + [[['delay', 99], ['sw', 0, None, 1]]], delays=[0, 0, 1, 2, 0]))
    return D


def source(case):
    L = ['import veriloggen as vg', 'import veriloggen.thread as vthread', 'def mk():',
         '    m = vg.Module("top")', '    clk = m.Input("CLK")', '    rst = m.Input("RST")', '    D = []']
    tot = {}
    for k, kind in enumerate(case['kinds']):
        if kind == 'mutex':
            L.append('    m%d = vthread.Mutex(m, "m%d", clk, rst)' % (k, k))
        elif kind == 'lock':
            L.append('    m%d = vthread.Lock(m, "m%d", clk, rst, %d)' % (k, k, 4 if len(case["threads"]) < 16 else 5))
        elif kind == 'shared':
            L.append('    m%d = vthread.Shared(m.Reg("mr%d", 32, initval=0))' % (k, k))
        elif kind == 'ram':
            L.append('    m%d = vthread.RAM(m, "m%d", clk, rst, 32, 4)' % (k, k))
        elif kind == 'fifo':
            L.append('    m%d = vthread.FIFO(m, "m%d", clk, rst, 32, 3)' % (k, k))
        else:
            L.append('    m%d = vthread.AXIM(m, "m%d", clk, rst)' % (k, k))
        if kind not in ('ram', 'fifo', 'shared'):
            L.append('    c%d = vthread.Shared(m.Reg("c%d_", 32, initval=0))' % (k, k))
    for b, (n, _) in enumerate(case['bars']):
        L.append('    b%d = vthread.Barrier(m, "b%d", clk, rst, %d)' % (b, b, n))
    for s, w in enumerate(case['shared']):
        L.append('    s%d = vthread.Shared(m.Reg("sr%d", %d, initval=0))' % (s, s, w))
    seq = [0]

    def inc(t, k, d, ind):
        kind = case['kinds'][k]
        seq[0] += 1
        if kind == 'ram':
            L.append(ind + 'x = m%d.read(0)' % k)
        elif kind == 'fifo':
            for j in range(2):
                L.append(ind + 'm%d.enq(%d)' % (k, t * 10 + j))
                if d and j == 0:
                    L.append(ind + 'for d in range(%d):' % d)
                    L.append(ind + '    pass')
            return
        elif kind == 'shared':
            L.append(ind + 'x = m%d.read()' % k)
        else:
            L.append(ind + 'x = c%d.read()' % k)
        if d:
            L.append(ind + 'for d in range(%d):' % d)
            L.append(ind + '    pass')
        if kind == 'ram':
            L.append(ind + 'm%d.write(0, x + 1)' % k)
        elif kind == 'shared':
            L.append(ind + 'm%d.write(x + 1)' % k)
        else:
            L.append(ind + 'c%d.write(x + 1)' % k)
        L.append(ind + 'print("I %d %d %%d" %% x)' % (t, k))

    def emit(t, ops, ind, depth):
        if not ops:
            L.append(ind + 'pass')
        for o in ops:
            k = o[0]
            if k == 'delay':
                L.append(ind + 'for d in range(%d):' % o[1])
                L.append(ind + '    pass')
            elif k == 'loop':
                v = 'l%d' % depth
                L.append(ind + 'for %s in range(%d):' % (v, o[1]))
                emit(t, o[2], ind + '    ', depth + 1)
            elif k == 'inc':
                inc(t, o[1], o[2], ind)
            elif k == 'cs':
                call = {'lock': 'lock()', 'acquire': 'acquire()', 'acquire1': ['acquire(blocking=True)', 'acquire(1)', 'acquire(2)'][o[1] % 3]}[o[3]]
                L.append(ind + 'print("R %d %d")' % (t, o[1]))
                L.append(ind + 'm%d.%s' % (o[1], call))
                L.append(ind + 'print("A %d %d")' % (t, o[1]))
                emit(t, o[2], ind, depth + 1)
                L.append(ind + 'print("U %d %d")' % (t, o[1]))
                L.append(ind + 'm%d.%s()' % (o[1], 'unlock' if o[3] == 'lock' else 'release'))
                L.append(ind + 'print("V %d %d")' % (t, o[1]))
            elif k == 'try':
                tc = 'm%d.try_lock()' % o[1] if case['kinds'][o[1]] not in ('mutex', 'lock') or o[4] else 'm%d.acquire(False)' % o[1]
                L.append(ind + 'print("Q %d %d")' % (t, o[1]))
                L.append(ind + 'r = ' + tc)
                L.append(ind + 'print("T %d %d %%d" %% r)' % (t, o[1]))
                if o[3]:
                    L.append(ind + 'while r == 0:')
                    L.append(ind + '    print("Q %d %d")' % (t, o[1]))
                    L.append(ind + '    r = ' + tc)
                    L.append(ind + '    print("T %d %d %%d" %% r)' % (t, o[1]))
                L.append(ind + 'if r:')
                emit(t, o[2], ind + '    ', depth + 1)
                L.append(ind + '    print("U %d %d")' % (t, o[1]))
                L.append(ind + '    m%d.unlock()' % o[1])
                L.append(ind + '    print("V %d %d")' % (t, o[1]))
                if o[4] and not o[3]:
                    L.append(ind + 'else:')
                    L.append(ind + '    m%d.unlock()' % o[1])
            elif k == 'bar':
                L.append(ind + 'print("W %d %d")' % (t, o[1]))
                L.append(ind + 'b%d.wait()' % o[1])
                L.append(ind + 'print("X %d %d")' % (t, o[1]))
            elif k == 'sr':
                L.append(ind + 'x = s%d.read()' % o[1])
                L.append(ind + 'print("r %d %d %%d" %% x)' % (t, o[1]))
            elif k == 'sw':
                p = o[2]
                a = '' if p is None else ', %d' % p if not isinstance(p, list) else ', (%d, %d)' % tuple(p)
                L.append(ind + 's%d.write(%d%s)' % (o[1], o[3], a))
                ps = '-1 -1' if p is None else '%d %d' % (p, p) if not isinstance(p, list) else '%d %d' % tuple(p)
                L.append(ind + 'print("w %d %d %s %d")' % (t, o[1], ps, o[3]))
    for t, ops in enumerate(case['threads']):
        L.append('    def f%d():' % t)
        if case['delays'][t]:
            L += ['        for d in range(%d):' % case['delays'][t], '            pass']
        emit(t, ops, '        ', 0)
        L.append('        print("Z %d")' % t)
    for k, kind in enumerate(case['kinds']):
        if kind == 'fifo':
            L += ['    def cons%d():' % k, '        while True:', '            x = m%d.deq()' % k, '            print("F %d %%d" %% x)' % k,
                  '    th = vthread.Thread(m, "cons%d", clk, rst, cons%d)' % (k, k), '    th.start()']
    n = len(case['threads'])
    L.append('    names = [%s]' % ', '.join('"t%d"' % i for i in range(n)))
    L.append('    fs = [%s]' % ', '.join('f%d' % i for i in range(n)))
    am = ', fsm_as_module=True' if case['as_module'] else ''
    if case['pool']:
        L += ['    ths = [vthread.Thread(m, nm, clk, rst, f) for nm, f in zip(names, fs)]']
        L += ['    th%d = ths[%d]' % (i, i) for i in range(n)]
        L += ['    def main():'] + ['        th%d.run()' % i for i in range(n)] + ['        th%d.join()' % i for i in range(n)]
        L += ['    th = vthread.Thread(m, "main", clk, rst, main)', '    D.append(th.start())']
    else:
        order = list(range(n))
        if case['sort']:
            order.reverse()
        for i in order:
            L.append('    D.append(vthread.Thread(m, names[%d], clk, rst, fs[%d]%s).start())' % (i, i, am))
    L.append('    return m, D')
    return L


def run(case, ctx):
    if case['as_module'] and not case['pool']:
        case = dict(case, as_module=False)
    src = '\n'.join(source(case)) + '\n'
    path = os.path.join(ctx.scratch, 'prog_.py')
    with open(path, 'w') as f:
        f.write(src)
    compile(src, path, 'exec')
    spec = importlib.util.spec_from_file_location('prog_', path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules['prog_'] = mod
    spec.loader.exec_module(mod)
    m, fsms = mod.mk()
    o = m.Output('done_')
    d = None
    for f in fsms:
        c = f.state == f.current
        d = c if d is None else veriloggen.Land(d, c)
    o.assign(d)
    code = m.to_verilog()
    tb = ['module tb__; reg CLK, RST; wire done_; integer i__, f__;',
          'top dut(.CLK(CLK), .RST(RST), .done_(done_));',
          'initial begin CLK = 0; RST = 1; f__ = 0; #5 CLK=1; #5 CLK=0; #5 CLK=1; #5 CLK=0; RST = 0;',
          'for (i__ = 0; i__ < %d && f__ < 60; i__ = i__ + 1) begin $display("@%%0d", i__); #5 CLK = 1; #5 CLK = 0; '
          'if (done_ === 1) f__ = f__ + 1; else f__ = 0; end' % MAXCYC,
          '$display("@END %0d", f__); $finish(0); end endmodule']
    r = iverilog(code + '\n' + '\n'.join(tb), 'tb__', ctx)
    cyc = 0
    log = []
    endv = None
    for line in r.lines:
        if line.startswith('@END'):
            endv = int(line.split()[1])
        elif line.startswith('@'):
            cyc = int(line[1:])
        else:
            log.append((cyc, line.split()))
    txt = '\n'.join('%5d %s' % (c, ' '.join(l)) for c, l in log[:400])
    data = dict(program=src, log=txt, code=code)

    def bad(mech, msg):
        raise Violation(mech, msg + '\n' + '\n'.join(source(case)[7:70]), **data)
    if endv is None:
        raise Inconclusive('no end: ' + r.out[-200:])
    judge(case, log, bad, ctx, endv, cyc)
    ctx.ev('cycles', cyc)
    ctx.evaluations = len(log)
    ctx.sig(src)
    if ctx.sample is None:
        ctx.sample = {'program': source(case)[7:40], 'log': txt.split('\n')[:12]}


def judge(case, log, bad, ctx, endv, cyc):
    nt = len(case['threads'])
    holder = {}      # mutex -> (thread, since)
    req = {}
    intervals = {}   # mutex -> [(t, a, u)]
    incs = {}
    tries = []
    W = {}
    X = {}
    sh_w = {}
    sh_r = []
    F = {}
    fin = set()
    q = {}
    byc = {}
    for c, l in log:
        byc.setdefault(c, []).append(l)
    for c in sorted(byc):
        # within a cycle the order of the printed lines is arbitrary: releases are stamped one state before the unlock,
        # acquisitions one state after the lock, so two holders never meet in one cycle
        for l in sorted(byc[c], key=lambda l: 0 if l[0] in 'AT' else 1):
            k = l[0]
            if k in 'AUVTRQ':
                t, mu = int(l[1]), int(l[2])
            if k == 'R':
                req[(t, mu)] = c
            elif k == 'Q':
                q[(t, mu)] = c
            elif k == 'T' and l[3] not in ('0', '1'):
                bad('try-value', 'try_lock returns %s' % l[3])
            if k == 'A' or (k == 'T' and l[3] == '1'):
                if mu in holder:
                    bad('mutual-exclusion', 'thread %d acquires mutex %d at cycle %d while thread %d holds it since cycle %d' % ((t, mu, c) + holder[mu]))
                holder[mu] = (t, c)
                ctx.ev('acquire')
                if k == 'A' and c - req[(t, mu)] > 4:
                    ctx.ev('contended')
            if k == 'T':
                ctx.ev('try_true' if l[3] == '1' else 'try_false')
                if c - q[(t, mu)] > 6:
                    bad('try-blocks', 'try_lock of thread %d took %d cycles' % (t, c - q[(t, mu)]))
                if l[3] == '0':
                    tries.append((t, mu, q[(t, mu)], c))
            elif k == 'U':
                if holder.get(mu, (None,))[0] != t:
                    bad('monitor', 'release without hold')
                intervals.setdefault(mu, []).append((t, holder[mu][1], c))
                del holder[mu]
            elif k == 'I':
                incs.setdefault(int(l[2]), []).append(l[3])
            elif k == 'F':
                F.setdefault(int(l[1]), []).append(int(l[2]))
            elif k == 'W':
                W.setdefault(int(l[2]), {}).setdefault(int(l[1]), []).append(c)
            elif k == 'X':
                X.setdefault(int(l[2]), {}).setdefault(int(l[1]), []).append(c)
            elif k == 'w':
                sh_w.setdefault(int(l[2]), []).append((c, int(l[3]), int(l[4]), int(l[5])))
            elif k == 'r':
                sh_r.append((c, int(l[2]), l[3]))
            elif k == 'Z':
                fin.add(int(l[1]))
    if endv < 60 or len(fin) != nt:
        bad('deadlock', 'threads %s have not finished after %d cycles; holders %s' % (sorted(set(range(nt)) - fin), cyc, holder))
    # a failed try means that somebody else had the lock (from its winning request to its release)
    for t, mu, c0, c1 in tries:
        if not any(t2 != t and a - 4 <= c1 and u + 3 >= c0 for t2, a, u in intervals.get(mu, [])):
            bad('try-false', 'try_lock of mutex %d by thread %d fails in cycles %d..%d although nobody holds it' % (mu, t, c0, c1))
    # lost updates: the read values of the protected counter are 0, 1, 2 ... in hold order
    for mu, vals in incs.items():
        if case['kinds'][mu] in ('mutex', 'lock', 'shared', 'axim'):
            if vals != [str(i) for i in range(len(vals))]:
                bad('lost-update', 'values read under mutex %d: %s' % (mu, vals))
        else:
            # memory without initial value: first read is undefined, later ones count on
            if vals and not all(v == 'x' for v in vals):
                ns = [int(v) for v in vals]
                if ns != list(range(ns[0], ns[0] + len(ns))):
                    bad('lost-update', 'values read under the memory lock %d: %s' % (mu, vals))
        ctx.ev('protected_updates', len(vals))
    for mu, vals in F.items():
        if len(vals) % 2 or any(a % 10 != 0 or b != a + 1 for a, b in zip(vals[::2], vals[1::2])):
            bad('fifo-pairs', 'pairs written under the FIFO lock arrive as %s' % vals)
        ctx.ev('protected_updates', len(vals) // 2)
    for b, (n, rounds) in enumerate(case['bars']):
        w, x = W.get(b, {}), X.get(b, {})
        for rd in range(rounds):
            ws = [w[t][rd] for t in range(n)]
            xs = [x[t][rd] for t in range(n)]
            if min(xs) <= max(ws):
                bad('barrier-early', 'barrier %d round %d: arrivals %s departures %s' % (b, rd, ws, xs))
            if max(xs) > max(ws) + 12 * n + 12:
                bad('barrier-late', 'barrier %d round %d: arrivals %s departures %s' % (b, rd, ws, xs))
            ctx.ev('barrier_round')
    for c, s, v in sh_r:
        W0 = case['shared'][s]
        val = [{0} for _ in range(W0)]
        cur = None
        for cw, hi, lo, d in sorted(sh_w.get(s, []), key=lambda x: x[0]):
            if cw >= c:
                break
            if cw != cur:
                touched = {}
                cur = cw
            if hi < 0:
                hi, lo = W0 - 1, 0
            for i in range(lo, hi + 1):
                bit = d >> (i - lo) & 1
                if i in touched:
                    val[i] = val[i] | {bit}
                else:
                    val[i] = {bit}
                touched[i] = 1
        ctx.ev('shared_read')
        if not v.lstrip('-').isdigit():
            bad('shared-value', 'Shared register reads %s' % v)
        for i in range(W0):
            if ((int(v) & 0xffffffff) >> i & 1) not in val[i]:
                bad('shared-value', 'Shared register %d reads %s at cycle %d, bit %d expected %s' % (s, v, c, i, val[i]))
