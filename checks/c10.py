"""C10: thread run / join / done / reset / ret and pools, judged on the ordered, cycle-stamped event log"""
import importlib.util
import os
import sys
import veriloggen
import veriloggen.thread
from vlib.harness import Violation, Inconclusive
from vlib.sim import iverilog

PID = 'C10'
RULE = ('a case is a random parent program (run with positional/keyword/default arguments from several call sites, join, done, '
        'called, ret, reset, delays, branches, loops, a second parent, nested children, thread pools) over children with '
        'argument-dependent durations; the cycle-stamped begin/end/join/done events are checked against the sequential meaning '
        'of the program; distinct = program text')
ASSUMPTIONS = ['a thread is run again only after it was joined (or seen done) and reset, as in the repository tests',
               'iverilog simulates the emitted Verilog faithfully']
MIN_EVENTS = {'begin': 300, 'end': 300, 'join': 250, 'done_true': 20, 'done_false': 20, 'called': 20}
MAXCYC = 30000


def counts(tier):
    return 260 if tier == 'quick' else 4000


def s32(v):
    v &= 0xffffffff
    return v - (1 << 32) if v >> 31 else v


class Gen:
    """children: list of {'params':[..], 'defaults':[..], 'dur': mask, 'nested': bool}; ops see below"""

    def __init__(self, rng, tier):
        self.r = rng

    def val(self):
        r = self.r
        return r.choice([0, 1, 2, 3, 7, 15, -1, -5, r.randint(-1000, 1000), r.randint(-2 ** 31 + 1, 2 ** 31 - 1)])

    def runop(self, c):
        r = self.r
        ch = self.children[c]
        P = ch['params']
        nreq = len(P) - len(ch['defaults'])
        npos = r.randint(0, len(P))
        args = [['c', self.val()] if r.random() < .5 else ['v', r.randrange(3)] for _ in range(npos)]
        if self.loopvar and args and r.random() < .7:
            args[r.randrange(len(args))] = ['i', self.loopvar]
        kws = []
        for j in range(npos, len(P)):
            if j < nreq or r.random() < .5:
                kws.append([P[j], ['c', self.val()] if r.random() < .5 else ['v', r.randrange(3)]])
        r.shuffle(kws)
        return ['run', c, args, kws]

    def ops(self, n, d, st):
        """st: list of child states idle/run/fin, updated as the ops execute"""
        r = self.r
        out = []
        for _ in range(n):
            c = r.choice(self.mine)
            x = r.random()
            if x < .15:
                out.append(['delay', r.randint(0, 12)])
            elif x < .25 and d > 0:
                k = r.randint(0, 1)
                if k:
                    out.append(['cond', 1, self.ops(r.randint(1, 3), d - 1, st), None if r.random() < .5 else self.ops(1, 0, list(st))])
                else:
                    dead = self.ops(r.randint(1, 3), d - 1, list(st))
                    out.append(['cond', 0, dead, None if r.random() < .5 else self.ops(r.randint(1, 2), d - 1, st)])
            elif x < .34 and d > 0 and self.loopvar is None and all(s == 'idle' for s in st):
                # a loop body that returns every thread to idle
                self.nv += 1
                self.loopvar = 'i%d' % self.nv
                body = self.ops(r.randint(1, 4), 0, st)
                body += self.drain(st)
                out.append(['loop', self.loopvar, r.randint(1, 3), body])
                self.loopvar = None
            elif st[c] == 'idle':
                out.append(self.runop(c))
                st[c] = 'run'
                if r.random() < .3:
                    out.append(['done', c])
            elif st[c] == 'run':
                y = r.random()
                if y < .3:
                    out.append(['done', c])
                elif y < .4:
                    out.append(['called', c])
                elif y < .5:
                    out.append(['poll', c])
                    st[c] = 'fin'
                else:
                    out.append(['join', c])
                    st[c] = 'fin'
            else:
                y = r.random()
                if y < .15:
                    out.append(['ret', c])
                elif y < .25:
                    out.append(['done', c])
                elif y < .3:
                    out.append(['join', c])
                elif y < .35:
                    out.append(['called', c])
                else:
                    out.append(['reset', c])
                    st[c] = 'idle'
                    if r.random() < .35:
                        out.append(self.runop(c))
                        st[c] = 'run'
                    elif r.random() < .3:
                        out.append(['delay', 1])
                        out.append(['called', c])
                    elif r.random() < .3:
                        out.append(['done', c])
        return out

    def drain(self, st):
        out = []
        for c in self.mine:
            if st[c] == 'run':
                out.append(['join', c])
                st[c] = 'fin'
            if st[c] == 'fin':
                out.append(['reset', c])
                st[c] = 'idle'
        self.r.shuffle(out)
        # join before reset for each child
        out.sort(key=lambda o: 0 if o[0] == 'join' else 1)
        return out

    def program(self):
        r = self.r
        n = r.randint(1, 3)
        self.nv = 0
        self.loopvar = None
        self.children = []
        for i in range(n):
            np_ = r.randint(1, 3)
            P = ['p%d%c' % (i, 'abc'[j]) for j in range(np_)]
            nd = r.randint(0, np_) if r.random() < .5 else 0
            self.children.append({'params': P, 'defaults': [self.val() for _ in range(nd)], 'dur': r.choice([0, 1, 3, 7, 15]),
                                  'early': r.random() < .3, 'nested': False, 'mod': r.random() < .12})
        if n >= 2 and r.random() < .3:
            # child 0 runs the last child as its own child
            self.children[0]['nested'] = True
        parents = []
        mine = list(range(n))
        if self.children[0]['nested']:
            mine = mine[:-1]
        st = ['idle'] * n
        self.mine = mine
        if len(mine) >= 2 and r.random() < .4:
            k = r.randint(1, len(mine) - 1)
            self.mine = mine[:k]
            a = self.ops(r.randint(3, 7), 2, st)
            self.mine = mine[k:]
            b = self.ops(r.randint(3, 7), 2, st)
            parents = [a, b]
        else:
            a = self.ops(r.randint(4, 9), 2, st)
            parents = [a]
            if r.random() < .3:
                # hand the same threads over to a second parent
                a += self.drain(st)
                b = self.ops(r.randint(3, 6), 1, st)
                parents = [a, [['wait']] + b]
                a.append(['flag'])
        c = {'children': self.children, 'parents': parents, 'vars': [self.val() for _ in range(3)], 'pool': None}
        return c

    def pool(self):
        r = self.r
        n = r.randint(1, 4)
        c = {'pool': {'n': n, 'dur': r.choice([1, 3, 7]), 'to': r.random() < .4, 'args': [self.val() for _ in range(n)], 'rounds': r.randint(1, 3),
                      'order': r.sample(range(n), n), 'gap': r.randint(0, 6), 'style': r.choice(['loop', 'const']),
                      'resetstyle': r.choice(['loop', 'const']), 'done': r.random() < .5, 'kw': r.random() < .4,
                      'subset': r.random() < .3}, 'children': [], 'parents': [], 'vars': [0, 0, 0]}
        return c


def gen(rng, i, tier):
    g = Gen(rng, tier)
    if rng.random() < .2:
        return g.pool()
    return g.program()


def directed():
    ch = {'params': ['pa', 'pb'], 'defaults': [9], 'dur': 3, 'early': False, 'nested': False, 'mod': False}
    run = lambda a, kw=(): ['run', 0, [['c', a]], list(kw)]
    D = []
    J, R = ['join', 0], ['reset', 0]
    D.append([run(3), J, R, run(4), J])                       # reset immediately followed by run
    D.append([run(3), J, ['cond', 0, [R], None], ['done', 0], ['delay', 2], ['done', 0], ['ret', 0]])   # reset not taken
    D.append([run(3), J, ['cond', 0, [R], [['delay', 1]]], ['done', 0], ['ret', 0]])
    D.append([run(3), J, ['cond', 1, [['delay', 1]], [R]], ['done', 0], ['ret', 0]])
    D.append([run(3), J, ['cond', 1, [R], None], run(5), J])
    D.append([run(3), ['poll', 0], ['called', 0], R, ['delay', 1], ['called', 0], run(5, [['pb', ['c', 2]]]), J])
    D.append([['run', 0, [], [['pb', ['c', 4]], ['pa', ['c', 1]]]], J, R, run(2), J, R, ['run', 0, [['c', 1], ['c', 2]], []], J])
    D.append([run(3), J, R, ['called', 0]])
    D.append([run(3), J, ['cond', 1, [['delay', 1], R], None], run(5), J])
    D.append([run(3), J, ['cond', 0, [['delay', 1], R], None], ['done', 0], ['ret', 0]])
    D.append([run(3), J, R, ['done', 0], run(4), J])
    C = [{'children': [dict(ch)], 'parents': [p], 'vars': [1, 2, 3], 'pool': None} for p in D]
    C[7]['id'] = 'called-right-after-reset'
    return C


# ---------------------------------------------------------------- source
def pv(a):
    return str(a[1]) if a[0] == 'c' else 'v%d' % a[1] if a[0] == 'v' else a[1]


def opsrc(ops, ind, who, L):
    for o in ops:
        k = o[0]
        if k == 'delay':
            L.append(ind + 'for d in range(%d):' % o[1])
            L.append(ind + '    pass')
        elif k == 'cond':
            L.append(ind + 'if t%d:' % o[1])
            opsrc(o[2], ind + '    ', who, L) if o[2] else L.append(ind + '    pass')
            if o[3] is not None:
                L.append(ind + 'else:')
                opsrc(o[3], ind + '    ', who, L) if o[3] else L.append(ind + '    pass')
        elif k == 'loop':
            L.append(ind + 'for %s in range(%d):' % (o[1], o[2]))
            opsrc(o[3], ind + '    ', who, L) if o[3] else L.append(ind + '    pass')
        elif k == 'run':
            L.append(ind + 'th%d.run(%s)' % (o[1], ', '.join([pv(a) for a in o[2]] + ['%s=%s' % (n, pv(a)) for n, a in o[3]])))
        elif k == 'join':
            L.append(ind + 'th%d.join()' % o[1])
            L.append(ind + 'x = th%d.ret()' % o[1])
            L.append(ind + 'print("J %s %d %%d" %% x)' % (who, o[1]))
        elif k == 'poll':
            L.append(ind + 'while not th%d.done():' % o[1])
            L.append(ind + '    pass')
            L.append(ind + 'x = th%d.ret()' % o[1])
            L.append(ind + 'print("J %s %d %%d" %% x)' % (who, o[1]))
        elif k == 'ret':
            L.append(ind + 'x = th%d.ret()' % o[1])
            L.append(ind + 'print("J %s %d %%d" %% x)' % (who, o[1]))
        elif k == 'done':
            L.append(ind + 'x = th%d.done()' % o[1])
            L.append(ind + 'print("D %s %d %%d" %% x)' % (who, o[1]))
        elif k == 'called':
            L.append(ind + 'x = th%d.called' % o[1])
            L.append(ind + 'print("C %s %d %%d" %% x)' % (who, o[1]))
        elif k == 'reset':
            L.append(ind + 'th%d.reset()' % o[1])
        elif k == 'flag':
            L.append(ind + 'flag.value = 1')
        elif k == 'wait':
            L.append(ind + 'while flag == 0:')
            L.append(ind + '    pass')
        else:
            raise Inconclusive('bad op')


def childval(ch, a):
    """result of child body on its arguments (list in parameter order)"""
    v = 0
    for i, x in enumerate(a):
        v += x * (i + 3)
    return s32(v)


def source(case):
    L = ['import veriloggen as vg', 'import veriloggen.thread as vthread', 'def mk():',
         '    m = vg.Module("top")', '    clk = m.Input("CLK")', '    rst = m.Input("RST")',
         '    flag = m.Reg("flag", initval=0)']
    p = case['pool']
    if p:
        fns = ['pf0', 'pf1'] if p['to'] else ['pf0']
        for j, f in enumerate(fns):
            L += ['    def %s(k, a):' % f, '        print("B %d %d" % (k, a))',
                  '        for i in range(a & %d):' % p['dur'], '            pass',
                  '        r = a * %d + k' % (3 + j), '        print("E %d %d" % (k, r))', '        return r']
        L.append('    def main():')
        n = p['n']
        for rd in range(p['rounds']):
            tids = list(range(n))
            if p['subset']:
                tids = p['order'][:max(1, n - 1)]
            if p['style'] == 'loop' and not p['subset']:
                L += ['        for t in range(%d):' % n]
                L += ['            pool.run(t, %s)' % ('a=t * 5 + %d, k=t' % rd if p['kw'] else 't, t * 5 + %d' % rd)]
                L += ['            for d in range(%d):' % p['gap'], '                pass']
            else:
                for t in tids:
                    L += ['        pool.run(%d, %s)' % (t, 'k=%d, a=%d' % (t, t * 5 + rd) if p['kw'] else '%d, %d' % (t, t * 5 + rd))]
            if p['done']:
                for t in tids:
                    L += ['        x = pool.done(%d)' % t, '        print("D m %d %%d" %% x)' % t]
            for t in [x for x in p['order'] if x in tids]:
                L += ['        pool.join(%d)' % t, '        x = pool.ret(%d)' % t, '        print("J m %d %%d" %% x)' % t]
            if p['resetstyle'] == 'loop' and not p['subset']:
                L += ['        for t in range(%d):' % n, '            pool.reset(t)']
            else:
                for t in tids:
                    L += ['        pool.reset(%d)' % t]
                    if p['gap']:
                        L += ['        print("Z")']
        if p['to']:
            L.append('    ths = [vthread.Thread(m, "pt%%d" %% i, clk, rst, pf1 if i %% 2 else pf0) for i in range(%d)]' % n)
            L.append('    pool = vthread.to_thread_pool(*ths)')
        else:
            L.append('    pool = vthread.ThreadPool(m, "pool", clk, rst, pf0, %d)' % n)
        L += ['    th = vthread.Thread(m, "main", clk, rst, main)', '    fsm = th.start()', '    return m, [fsm]']
        return L
    for i, ch in enumerate(case['children']):
        P = ch['params']
        nd = len(ch['defaults'])
        sig = P[:len(P) - nd] + ['%s=%d' % (q, d) for q, d in zip(P[len(P) - nd:], ch['defaults'])]
        L.append('    def child%d(%s):' % (i, ', '.join(sig)))
        L.append('        print("B %d%s" %% (%s,))' % (i, ' %d' * len(P), ', '.join(P)))
        if ch['nested']:
            k = len(case['children']) - 1
            cp = case['children'][k]['params']
            L.append('        th%d.run(%s)' % (k, ', '.join([P[0]] * len(cp))))
        if ch['early']:
            L.append('        if %s & 1:' % P[0])
            L.append('            r = %s' % ' + '.join('%s * %d' % (q, j + 3) for j, q in enumerate(P)))
            if ch['nested']:
                L.append('            th%d.join()' % k)
                L.append('            th%d.reset()' % k)
            L.append('            print("E %d %%d" %% r)' % i)
            L.append('            return r')
        L.append('        for i in range(%s & %d):' % (P[0], ch['dur']))
        L.append('            pass')
        L.append('        r = %s' % ' + '.join('%s * %d' % (q, j + 3) for j, q in enumerate(P)))
        if ch['nested']:
            L.append('        th%d.join()' % k)
            L.append('        th%d.reset()' % k)
        L.append('        print("E %d %%d" %% r)' % i)
        L.append('        return r')
    for i, ops in enumerate(case['parents']):
        L.append('    def main%d():' % i)
        L.append('        t0, t1 = 0, 1')
        L.append('        v0, v1, v2 = %s' % ', '.join(str(v) for v in case['vars']))
        opsrc(ops, '        ', str(i), L)
    for i, ch in enumerate(case['children']):
        L.append('    th%d = vthread.Thread(m, "th%d", clk, rst, child%d, fsm_as_module=%r)' % (i, i, i, ch['mod']))
    L.append('    fs = []')
    for i in range(len(case['parents'])):
        L.append('    fs.append(vthread.Thread(m, "main%d", clk, rst, main%d).start())' % (i, i))
    L.append('    return m, fs')
    return L


# ---------------------------------------------------------------- sequential meaning
def expect(case):
    """-> per parent list of expected events: ('run',c,args) ('J',c,val) ('D',c,state) ('C',c,v) ('reset',c)"""
    last = {}
    called = {}
    state = {}
    res = []
    for ops in case['parents']:
        ev = []

        def val(a, env):
            return a[1] if a[0] == 'c' else case['vars'][a[1]] if a[0] == 'v' else env[a[1]]

        def go(ops, env):
            for o in ops:
                k = o[0]
                if k == 'cond':
                    b = o[2] if o[1] else o[3]
                    if b:
                        go(b, env)
                elif k == 'loop':
                    for i in range(o[2]):
                        go(o[3], dict(env, **{o[1]: i}))
                elif k == 'run':
                    ch = case['children'][o[1]]
                    P = ch['params']
                    a = dict(zip(P[len(P) - len(ch['defaults']):], ch['defaults']))
                    for q, x in zip(P, o[2]):
                        a[q] = val(x, env)
                    for q, x in o[3]:
                        a[q] = val(x, env)
                    if state.get(o[1], 'idle') != 'idle' or set(a) != set(P):
                        raise Inconclusive('illegal program')
                    args = [s32(a[q]) for q in P]
                    last[o[1]] = childval(ch, args)
                    called[o[1]] = 1
                    state[o[1]] = 'run'
                    ev.append(('run', o[1], args))
                elif k in ('join', 'poll', 'ret'):
                    if state.get(o[1], 'idle') == 'idle' or (k == 'ret' and state[o[1]] != 'fin'):
                        raise Inconclusive('illegal program')
                    state[o[1]] = 'fin'
                    ev.append(('J', o[1], last[o[1]]))
                elif k == 'done':
                    ev.append(('D', o[1], state.get(o[1], 'idle')))
                elif k == 'called':
                    ev.append(('C', o[1], called.get(o[1], 0)))
                elif k == 'reset':
                    if state.get(o[1], 'idle') != 'fin':
                        raise Inconclusive('illegal program')
                    state[o[1]] = 'idle'
                    called[o[1]] = 0
                    ev.append(('reset', o[1]))
        go(ops, {})
        res.append(ev)
    return res


def run(case, ctx):
    src = '\n'.join(source(case)) + '\n'
    exp = None if case['pool'] else expect(case)
    path = os.path.join(ctx.scratch, 'prog_.py')
    with open(path, 'w') as f:
        f.write(src)
    try:
        compile(src, path, 'exec')
    except SyntaxError as e:
        raise Inconclusive('bad program %s' % e)
    spec = importlib.util.spec_from_file_location('prog_', path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules['prog_'] = mod
    spec.loader.exec_module(mod)
    # textual order: called is None / threads are not started before the first run in source order
    m, fsms = mod.mk()
    for i, f in enumerate(fsms):
        o = m.Output('done%d_' % i)
        o.assign(f.state == f.current)
    code = m.to_verilog()
    n = len(fsms)
    dn = ['done%d_' % i for i in range(n)]
    tb = ['module tb__; reg CLK, RST; wire %s; integer i__, f__;' % ', '.join(dn),
          'top dut(.CLK(CLK), .RST(RST), %s);' % ', '.join('.%s(%s)' % (d, d) for d in dn),
          'initial begin CLK = 0; RST = 1; f__ = 0; #5 CLK=1; #5 CLK=0; #5 CLK=1; #5 CLK=0; RST = 0;',
          'for (i__ = 0; i__ < %d && f__ < 60; i__ = i__ + 1) begin $display("@%%0d", i__); #5 CLK = 1; #5 CLK = 0; '
          'if ((%s) === 1) f__ = f__ + 1; else f__ = 0; end' % (MAXCYC, ' & '.join(dn)),
          '$display("@END %0d", f__); $finish(0); end endmodule']
    r = iverilog(code + '\n' + '\n'.join(tb), 'tb__', ctx)
    cyc = 0
    log = []
    endv = None
    for line in r.lines:
        if line.startswith('@END'):
            endv = int(line.split()[1])
        elif line.startswith('@'):
            cyc = int(line[1:])
        else:
            log.append((cyc, line.split()))
    txt = '\n'.join('%5d %s' % (c, ' '.join(l)) for c, l in log[:300])
    data = dict(program=src, log=txt, code=code)

    def bad(mech, msg):
        raise Violation(mech, msg + '\n' + '\n'.join(source(case)[7:60]), **data)
    if endv is None:
        raise Inconclusive('no end: ' + r.out[-200:])
    if endv < 60:
        bad('deadlock', 'the parent threads have not finished after %d cycles' % cyc)
    if case['pool']:
        judge_pool(case, log, bad, ctx)
    else:
        judge(case, exp, log, bad, ctx)
    ctx.ev('cycles', cyc)
    ctx.evaluations = len(log)
    ctx.sig(src)
    if ctx.sample is None:
        ctx.sample = {'program': source(case)[7:30], 'log': txt.split('\n')[:8]}


def judge(case, exp, log, bad, ctx):
    nested = case['children'] and case['children'][0]['nested']
    kn = len(case['children']) - 1
    # expected begin events per child, in order of the runs
    runs = {}
    for ev in exp:
        for e in ev:
            if e[0] == 'run':
                runs.setdefault(e[1], []).append(e[2])
                if nested and e[1] == 0:
                    runs.setdefault(kn, []).append([e[2][0]] * len(case['children'][kn]['params']))
    nb = {}
    ne = {}
    etime = {}
    for c, l in log:
        if l[0] == 'B':
            k = int(l[1])
            args = [int(x) if x.lstrip('-').isdigit() else None for x in l[2:]]
            i = nb.get(k, 0)
            rs = runs.get(k, [])
            if i >= len(rs):
                bad('extra-run', 'thread %d begins a %d. time, only %d run(s) were requested' % (k, i + 1, len(rs)))
            if args != rs[i]:
                bad('arguments', 'run %d of thread %d has arguments %s, requested %s' % (i, k, l[2:], rs[i]))
            nb[k] = i + 1
            ctx.ev('begin')
        elif l[0] == 'E':
            k = int(l[1])
            i = ne.get(k, 0)
            if i >= nb.get(k, 0):
                bad('end', 'thread %d ends more often than it begins' % k)
            v = childval(case['children'][k], runs[k][i])
            if l[2] != str(v):
                bad('body', 'run %d of thread %d computes %s, expected %d' % (i, k, l[2], v))
            ne[k] = i + 1
            etime.setdefault(k, []).append(c)
            ctx.ev('end')
    for k, rs in runs.items():
        if nb.get(k, 0) != len(rs) or ne.get(k, 0) != len(rs):
            bad('lost-run', 'thread %d: %d run(s) requested, %d begun, %d finished' % (k, len(rs), nb.get(k, 0), ne.get(k, 0)))
    # parent views
    nrun = {}
    for p, ev in enumerate(exp):
        obs = [(c, l) for c, l in log if l[0] in 'JDC' and l[1] == str(p)]
        want = [e for e in ev if e[0] in ('J', 'D', 'C')]
        if len(obs) != len(want):
            bad('parent-events', 'parent %d performs %d observations, expected %d' % (p, len(obs), len(want)))
        it = iter(obs)
        for e in ev:
            if e[0] == 'run':
                nrun[e[1]] = nrun.get(e[1], 0) + 1
            if e[0] not in ('J', 'D', 'C'):
                continue
            c, l = next(it)
            k = e[1]
            if l[0] != e[0] or int(l[2]) != k:
                bad('parent-order', 'parent %d observes %s, expected %s' % (p, l, e))
            j = nrun.get(k, 0) - 1
            te = etime.get(k, [])[j] if j >= 0 else None
            if e[0] == 'J':
                if te is None or te >= c:
                    bad('early-join', 'parent %d joins run %d of thread %d at cycle %d, before its end at %s' % (p, j, k, c, te))
                if l[3] != str(e[2]):
                    bad('return', 'return value of run %d of thread %d is %s, expected %d' % (j, k, l[3], e[2]))
                if False:
                    pass
                ctx.ev('join')
            elif e[0] == 'D':
                if e[2] == 'run':
                    if l[3] == '1' and te >= c:
                        bad('early-done', 'done of thread %d is true at cycle %d, its run ends at %d' % (k, c, te))
                    if l[3] == '0' and te + 8 < c:
                        bad('late-done', 'done of thread %d is false at cycle %d, its run ended at %d' % (k, c, te))
                    if l[3] not in '01':
                        bad('done', 'done is %s' % l[3])
                else:
                    w = '1' if e[2] == 'fin' else '0'
                    if l[3] != w:
                        bad('done', 'done of a thread that is %s is %s' % ('finished' if w == '1' else 'idle', l[3]))
                ctx.ev('done_true' if l[3] == '1' else 'done_false')
            else:
                if l[3] != str(e[2]):
                    bad('called', 'called of thread %d is %s, expected %d' % (k, l[3], e[2]))
                ctx.ev('called')


def judge_pool(case, log, bad, ctx):
    p = case['pool']
    n = p['n']
    tids = list(range(n)) if not p['subset'] else p['order'][:max(1, n - 1)]
    J = [(c, l) for c, l in log if l[0] == 'J']
    want = []
    for rd in range(p['rounds']):
        for t in [x for x in p['order'] if x in tids]:
            a = t * 5 + rd
            want.append((t, rd, a, s32(a * (3 + (t % 2 if p['to'] else 0)) + t)))
    B = {}
    E = {}
    for c, l in log:
        if l[0] == 'B':
            B.setdefault(l[1], []).append((c, l[2]))
            ctx.ev('begin')
        if l[0] == 'E':
            E.setdefault(l[1], []).append((c, l[2]))
            ctx.ev('end')
    for t in range(n):
        w = [str(t * 5 + rd) for rd in range(p['rounds'])] if t in tids else []
        if [x for _, x in B.get(str(t), [])] != w:
            bad('pool-runs', 'pool thread %d begins with %s, expected %s' % (t, B.get(str(t)), w))
    if set(B) - set(str(t) for t in tids):
        bad('pool-runs', 'unexpected pool threads %s' % sorted(B))
    if len(J) != len(want):
        bad('pool-joins', '%d joins observed, expected %d' % (len(J), len(want)))
    for (c, l), (t, rd, a, v) in zip(J, want):
        if int(l[2]) != t or l[3] != str(v):
            bad('pool-return', 'join %s, expected thread %d value %d' % (l, t, v))
        e = E.get(str(t), [])
        if len(e) <= rd or e[rd][0] >= c or e[rd][1] != str(v):
            bad('pool-early-join', 'thread %d round %d joined at %d, ends %s' % (t, rd, c, e))
        ctx.ev('join')
    for c, l in log:
        if l[0] == 'D':
            t = l[2]
            started = [x for x, _ in B.get(t, []) if x < c]
            fin = [x for x, _ in E.get(t, []) if x < c]
            if l[3] == '1' and len(fin) < len([x for x, _ in B.get(t, []) if x <= c]):
                bad('pool-early-done', 'done of %s is true at %d' % (t, c))
            ctx.ev('done_true' if l[3] == '1' else 'done_false')
