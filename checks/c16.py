"""C16: AXI slave registers. A random thread program and a random bus master use a register file concurrently; every register value change and
every value returned on the bus or to the thread must be explained by the recorded bus handshakes and thread operations."""
import itertools
import veriloggen
import veriloggen.thread as vthread
from vlib.harness import Violation, Inconclusive
from vlib import thr, axitb

PID = 'C16'
RULE = ('every bus read returns the register, every bus write updates exactly the addressed register, thread reads, writes, waits and flag '
        'operations see and make exactly the same updates; nothing is lost or duplicated')
ASSUMPTIONS = ['the bus master drives full write strobes and addresses registers that exist', 'when a bus access and a thread operation hit one register '
               'in the same cycle any serial order of the two is accepted']
MIN_EVENTS = {'bus_writes': 300, 'bus_reads': 300, 'thread_ops': 300, 'register_changes': 300, 'flag_resets': 10}


def counts(tier):
    return 120 if tier == 'quick' else 2500


def gen(rng, i, tier):
    n = rng.choice([1, 2, 3, 4, 4, 5, 8, 13])
    lite = rng.random() < .5
    case = {'lite': lite, 'n': n, 'dw': rng.choice([32, 32, 32, 64] if lite else [32, 32, 64, 16, 128]), 'fsmmod': rng.random() < .1,
            'ids': [] if lite or rng.random() < .5 else [rng.randint(1, 4), rng.randint(1, 4)],
            'cfg': dict(GAW=rng.choice([100, 50, 20, 5]), GW=rng.choice([100, 50, 20]), GAR=rng.choice([100, 50, 20, 5]), PB=rng.choice([100, 50, 20]),
                        PR=rng.choice([100, 50, 20]), MAXLEN=rng.choice([1, 2, 4, 8]), WAHEAD=rng.choice([0, 1, 2]), WO=rng.choice([1, 1, 1, 0]),
                        RO=rng.choice([1, 1, 1, 0]), SEED=rng.randint(1, 10 ** 6)),
            'vals': rng.choice([2, 3, 4]), 'seed': rng.randint(0, 10 ** 9)}
    ops = []
    for _ in range(rng.randint(4, 30)):
        k = rng.choice(['write', 'write', 'write_flag', 'write_flag', 'read', 'read', 'wait', 'wait_flag', 'idle'])
        if not case['cfg']['WO'] and k in ('wait', 'wait_flag'):
            continue
        op = {'k': k, 'i': rng.randrange(n), 'v': rng.randrange(case['vals']) if rng.random() < .8 or k in ('wait', 'wait_flag') else rng.getrandbits(31),
              'rv': rng.choice([0, 0, 1, 2, rng.getrandbits(16)]), 'pol': rng.random() < .6, 'var': rng.random() < .3, 'g': rng.randint(1, 9)}
        ops.append(op)
    case['ops'] = ops
    return case


def directed():
    cfg = dict(GAW=100, GW=100, GAR=100, PB=100, PR=100, MAXLEN=4, WAHEAD=1, WO=1, RO=1, SEED=7)
    ops = []
    for j in range(12):
        ops += [{'k': 'wait_flag', 'i': j % 2, 'v': 1, 'rv': 0, 'pol': True, 'var': False, 'g': 1},
                {'k': 'write_flag', 'i': 1 - j % 2, 'v': 1, 'rv': 0, 'pol': True, 'var': False, 'g': 1},
                {'k': 'write', 'i': j % 2, 'v': 2, 'rv': 0, 'pol': True, 'var': False, 'g': 1},
                {'k': 'read', 'i': j % 2, 'v': 2, 'rv': 0, 'pol': True, 'var': False, 'g': 1}]
    base = {'dw': 32, 'fsmmod': False, 'ids': [], 'vals': 2, 'seed': 1, 'ops': ops, 'n': 2}
    race = [{'k': 'wait_flag', 'i': 0, 'v': 1, 'rv': 0, 'pol': j % 2 == 0, 'var': False, 'g': 1} for j in range(30)]
    return [dict(base, id='wait-flag-race', lite=False, cfg=dict(cfg, RO=0), ops=race, n=1, vals=3), dict(base, id='full-dense', lite=False, cfg=cfg), dict(base, id='lite-dense', lite=True, cfg=cfg)]


def source(case):
    L = ['import veriloggen as vg', 'import veriloggen.thread as vthread', 'def mk():',
         '    m = vg.Module("top")', '    clk = m.Input("CLK")', '    rst = m.Input("RST")']
    ids = ''
    if case['ids']:
        a, b = case['ids']
        ids = ', waddr_id_width=%d, wresp_id_width=%d, raddr_id_width=%d, rdata_id_width=%d' % (a, a, b, b)
    L.append('    s = vthread.%s(m, "sl", clk, rst, %d, length=%d, fsm_as_module=%r%s)' %
             ('AXISLiteRegister' if case['lite'] else 'AXISRegister', case['dw'], case['n'], case['fsmmod'], ids))
    L.append('    for i in range(%d):' % case['n'])
    L.append('        o = m.Output("reg%%d_" %% i, %d)' % case['dw'])
    L.append('        o.assign(s.register[i])')
    L.append('    def go():')
    if not case['ops']:
        L.append('        pass')
    for k, op in enumerate(case['ops']):
        t = op['k']
        if op['var']:
            L.append('        a = %d' % op['i'])
            L.append('        b = %d' % op['v'])
            a, b = 'a', 'b'
        else:
            a, b = str(op['i']), str(op['v'])
        L.append('        print("S", %d)' % k)
        if t == 'idle':
            L.append('        for q in range(%d):' % op['g'])
            L.append('            pass')
        elif t == 'read':
            L.append('        x = s.read(%s)' % a)
            L.append('        print("R", %d, x)' % k)
        elif t == 'write':
            L.append('        s.write(%s, %s)' % (a, b))
        elif t == 'write_flag':
            L.append('        s.write_flag(%s, %s, %d)' % (a, b, op['rv']) if op['rv'] else '        s.write_flag(%s, %s)' % (a, b))
        elif t == 'wait':
            L.append('        s.wait(%s, %s%s)' % (a, b, '' if op['pol'] else ', polarity=False'))
        elif t == 'wait_flag':
            L.append('        s.wait_flag(%s, %s, resetvalue=%d%s)' % (a, b, op['rv'], '' if op['pol'] else ', polarity=False'))
        L.append('        print("D", %d)' % k)
    L += ['    th = vthread.Thread(m, "th", clk, rst, go)', '    f = th.start()', '    return m, [f]']
    return L


def master_v(case):
    dw = case['dw']
    nb = dw // 8
    sh = nb.bit_length() - 1
    return '''
module axidrv__(input CLK, input RST, input stop, output idle,
  output reg [31:0] awaddr, output reg [7:0] awlen, output reg [3:0] awid, output reg awvalid, input awready,
  output reg [%(D)d:0] wdata, output [%(S)d:0] wstrb, output reg wlast, output reg wvalid, input wready,
  input bvalid, output reg bready,
  output reg [31:0] araddr, output reg [7:0] arlen, output reg [3:0] arid, output reg arvalid, input arready,
  input rvalid, input rlast, output reg rready);
  parameter GAW = 50, GW = 50, GAR = 50, PB = 50, PR = 50, MAXLEN = 4, WAHEAD = 0, WO = 1, RO = 1, SEED = 1, NREG = 4, VALS = 3, LITE = 0;
  integer seed, aws, wsn, wl, bs, ars, rs, i, x;
  reg [7:0] lens [0:15];      // lengths of announced write bursts
  integer plen, pidx;
  reg planned;
  reg [31:0] paddr;
  assign wstrb = {%(N)d{1'b1}};
  assign idle = !awvalid && !wvalid && !arvalid && aws == wsn && bs == aws && ars == rs;
  function integer rn(input integer m); rn = $unsigned($random(seed)) %% m; endfunction
  function rnd(input integer p); rnd = ($unsigned($random(seed)) %% 100) < p; endfunction
  initial begin seed = SEED; aws = 0; wsn = 0; wl = 0; bs = 0; ars = 0; rs = 0; awvalid = 0; wvalid = 0; arvalid = 0; bready = 0; rready = 0; wlast = 0;
    awaddr = 0; awlen = 0; awid = 0; wdata = 0; araddr = 0; arlen = 0; arid = 0; planned = 0; end
  // aws: bursts whose address was accepted; wsn: bursts whose data was sent; a burst is planned (planned=1) before either starts
  reg awp, wp;                // the planned burst still has to issue its address / its data
  initial begin awp = 0; wp = 0; end
  always @(posedge CLK) if (!RST) begin
    if (awvalid && awready) begin awvalid <= 0; aws = aws + 1; awp = 0; end
    if (wvalid && wready) begin
      if (wlast) begin wsn = wsn + 1; wp = 0; end
      wl = wl + 1; wvalid <= 0;
    end
    if (bvalid && bready) bs = bs + 1;
    if (arvalid && arready) begin arvalid <= 0; ars = ars + 1; end
    if (rvalid && rready && rlast) rs = rs + 1;
    bready <= rnd(PB); rready <= rnd(PR);
    if (!awp && !wp && WO && !stop && aws - bs < 2) begin
      plen = LITE ? 1 : 1 + rn(MAXLEN); if (plen > NREG) plen = NREG;
      pidx = rn(NREG - plen + 1);
      paddr = (pidx << %(sh)d) + (rn(16) << (%(sh)d + 4)); awp = 1; wp = 1; wl = 0;
      if (rn(8) == 0) paddr = paddr | 32'h43c00000;
    end
    if (awp && !(awvalid && !awready) && !awvalid && (rnd(GAW)) && (WAHEAD != 2 || !wp || wl > 0 || wvalid)) begin
      awvalid <= 1; awaddr <= paddr; awlen <= plen - 1; awid <= rn(16);
    end
    if (wp && (!wvalid || wready) && wl < plen && rnd(GW) && (WAHEAD != 0 || !awp)) begin
      wvalid <= 1; wlast <= wl == plen - 1;
      wdata <= rn(4) == 0 ? {%(N)d{8'h00}} + $random(seed) : rn(VALS);
    end
    if (RO && !stop && (!arvalid || arready) && ars - rs < 2 && rnd(GAR)) begin
      x = LITE ? 1 : 1 + rn(MAXLEN); if (x > NREG) x = NREG;
      arvalid <= 1; arlen <= x - 1; araddr <= (rn(NREG - x + 1) << %(sh)d) + (rn(16) << (%(sh)d + 4)); arid <= rn(16);
    end
  end
endmodule
''' % dict(D=dw - 1, S=nb - 1, N=nb, sh=sh)


def run(case, ctx):
    run_reg(case, ctx)


def run_reg(case, ctx, only_rules=False):
    lines = source(case)
    mod, src = thr.load(lines, ctx)
    m, fsms = mod.mk()
    thr.add_done(m, fsms)
    code = m.to_verilog()
    dw, n, lite = case['dw'], case['n'], case['lite']
    cfg = dict(case['cfg'], NREG=n, VALS=case['vals'], LITE=int(lite))
    sg = {'awaddr': 32, 'awlen': 8, 'awid': 4, 'awvalid': 1, 'awready': 1, 'wdata': dw, 'wstrb': dw // 8, 'wlast': 1, 'wvalid': 1, 'wready': 1,
          'bvalid': 1, 'bready': 1, 'bresp': 2, 'bid': 4, 'araddr': 32, 'arlen': 8, 'arid': 4, 'arvalid': 1, 'arready': 1, 'rdata': dw, 'rresp': 2,
          'rlast': 1, 'rid': 4, 'rvalid': 1, 'rready': 1}
    decl = ['wire [%d:0] x_%s;' % (w - 1, s) if w > 1 else 'wire x_%s;' % s for s, w in sg.items()]
    decl.append('reg stop__; initial stop__ = 0; always @(posedge CLK) if (done_ === 1 && i__ > %d) stop__ <= 1; wire idle__;' % case.get('mincyc', 300))
    drv = ['.CLK(CLK)', '.RST(RST)', '.stop(stop__)', '.idle(idle__)']
    conn = []
    for s in sg:
        if not (s in ('bresp', 'rresp', 'bid', 'rid', 'rdata') or lite and s == 'rlast'):
            drv.append('.%s(x_%s)' % (s, s))
        if lite and s in ('awlen', 'awid', 'wlast', 'bid', 'arlen', 'arid', 'rid', 'rlast'):
            continue
        if not case['ids'] and s in ('awid', 'bid', 'arid', 'rid'):
            continue
        conn.append('.sl_%s(x_%s)' % (s, s))
    if lite:
        drv.append(".rlast(1'b1)")
    else:
        conn += [".sl_%ssize(3'd%d), .sl_%sburst(2'd1)" % (c, (dw // 8).bit_length() - 1, c) for c in ('aw', 'ar')]
    decl.append('axidrv__ #(%s) drv__(%s);' % (', '.join('.%s(%d)' % kv for kv in cfg.items()), ', '.join(drv)))
    keys = ['awaddr', 'awlen', 'awvalid', 'awready', 'wdata', 'wstrb', 'wlast', 'wvalid', 'wready', 'bvalid', 'bready', 'araddr', 'arlen', 'arvalid',
            'arready', 'rdata', 'rlast', 'rvalid', 'rready'] + (['awid', 'bid', 'arid', 'rid'] if case['ids'] else [])
    if lite:
        keys = [k for k in keys if k not in ('awlen', 'wlast', 'arlen', 'rlast')]
    peeks = [(k, 'x_' + k) for k in keys] + [('reg%d' % i, 'dut.reg%d_' % i) for i in range(n)]
    L = thr.simulate(m, fsms, ctx, maxcyc=6000, peeks=peeks, decl='\n'.join(decl), conn=', '.join(conn), code=code + master_v(case), settle=20,
                     wait='(done_ && stop__ && idle__)')
    text = L.text

    def bad(mech, msg):
        raise Violation(mech, msg, program=src, config=str({k: v for k, v in case.items() if k != 'ops'}), log=text)
    mon = axitb.Mon(dw, lite=lite, role='slave')
    ops = case['ops']
    D = {}
    S = {}
    R = {}
    for c, w in L.ev:
        if w[0] == 'D':
            D[int(w[1])] = c - 1
        elif w[0] == 'S':
            S[int(w[1])] = c
        elif w[0] == 'R':
            R[int(w[1])] = (c - 1, w[2])
    thev = {}
    for k, op in enumerate(ops):
        if k not in D or op['k'] == 'idle':
            continue
        if op['k'] == 'read':
            thev.setdefault(R[k][0], []).append((k, op))
        else:
            thev.setdefault(D[k], []).append((k, op))
    waiting = None
    waits = {}                # cycles in which a thread sat in a wait without leaving it -> operation
    for k, op in enumerate(ops):
        if k in S and k not in D:
            waiting = (k, op, S[k])
        elif k in S and op['k'] in ('wait', 'wait_flag'):
            for c in range(S[k] + 3, D[k]):
                waits[c] = k
    # --- bus monitor and model in one pass
    M = (1 << dw) - 1
    flag = [0] * n
    resetv = [0] * n
    prevregs = [0] * n
    wq = []            # accepted write bursts: [index, beats done]
    rq = []            # accepted reads: dict(idx, len, beat, cyc)
    presented = False
    ids_w = []
    hist = []
    lost = []
    rows = L.cycles

    def regs_of(row, c):
        out = []
        for i in range(n):
            s = row['reg%d' % i]
            if set(s) - {'0', '1'}:
                bad('register-x', 'register %d is %s in cycle %d' % (i, s, c))
            out.append(int(s, 2))
        return out
    widx = 0
    for c, row in enumerate(rows):
        mon.feed(c, row, bad)
        if only_rules:
            continue
        regs = regs_of(row, c)
        hist.append(regs)
        on = lambda s: row[s] == '1'
        # address acceptance
        if on('awvalid') and on('awready'):
            a = (int(row['awaddr'], 2) >> ((dw // 8).bit_length() - 1)) & ((1 << max((n - 1).bit_length(), 0)) - 1)
            wq.append([a, 0])
            if case['ids']:
                ids_w.append(int(row['awid'], 2) % (1 << case['ids'][0]))
        # writes this cycle
        wr = None
        if on('wvalid') and on('wready'):
            if widx >= len(wq):
                bad('data-before-address', 'write data accepted in cycle %d before its address' % c)
            wr = (wq[widx][0] + wq[widx][1], int(row['wdata'], 2))
            wq[widx][1] += 1
            ctx.ev('bus_writes')
            if lite or on('wlast'):
                widx += 1
        # first presentation of a read beat at c was taken from the registers before c
        if on('rvalid') and not presented:
            if not rq:
                bad('unrequested', 'read data without a request in cycle %d' % c)
            q = rq[0]
            i = q['idx'] + q['beat']
            v = int(row['rdata'], 2) if not set(row['rdata']) - {'0', '1'} else row['rdata']
            ok = any(hist[t][i] == v for t in range(q['from'], c))
            if not ok:
                bad('bus-read-value', 'read of register %d (accepted in cycle %d) returned %s in cycle %d; the register held %s' %
                    (i, q['cyc'], v, c, sorted({hist[t][i] for t in range(q['from'], c)})))
            ctx.ev('bus_reads')
            q['beat'] += 1
            q['from'] = c - 1
            presented = True
        if on('rvalid') and on('rready'):
            q = rq[0]
            if case['ids'] and int(row['rid'], 2) % (1 << case['ids'][1]) != q['id']:
                bad('rid', 'rid %s for request id %d' % (row['rid'], q['id']))
            if q['beat'] >= q['len']:
                rq.pop(0)
            presented = False
        # transitions prev -> regs were caused by events at cycle c-1 (checked below for c -> c+1)
        nxt = regs_of(rows[c + 1], c + 1) if c + 1 < len(rows) else None
        if nxt is not None:
            tev = thev.get(c, [])
            for k, op in tev:
                ctx.ev('thread_ops')
                if op['k'] == 'read':
                    want = regs[op['i']]
                    got = R[k][1]
                    try:
                        g = int(got) & min(M, 0xffffffff)
                    except ValueError:
                        g = got
                    if g != want & min(M, 0xffffffff):
                        bad('thread-read', 'operation %d read %s from register %d, which held %d (cycle %d)' % (k, got, op['i'], want, c))
                elif op['k'] in ('wait', 'wait_flag'):
                    if (regs[op['i']] == op['v']) != op['pol']:
                        bad('wait-early', 'operation %d (%s %d %s) ended in cycle %d while the register held %d' %
                            (k, op['k'], op['i'], ('==' if op['pol'] else '!=') + str(op['v']), c, regs[op['i']]))
            for i in range(n):
                # possible flagged read resets in progress for register i
                rd = None
                nv = rows[c + 1]
                if nv['rvalid'] == '1' and rq and (not presented):
                    # a beat is first presented at c+1 -> taken in cycle c
                    q = rq[0]
                    if q['idx'] + q['beat'] == i:
                        rd = q
                cand = [regs[i]]
                t_ops = [op for k, op in tev if op['i'] == i and op['k'] in ('write', 'write_flag', 'wait_flag')]
                acts = []
                if rd is not None and flag[i]:
                    acts.append(('r', resetv[i]))
                    ctx.ev('flag_resets')
                if wr is not None and wr[0] == i:
                    acts.append(('w', wr[1]))
                for op in t_ops:
                    acts.append(('f', op) if op['k'] == 'wait_flag' else ('t', op['v'] & M))
                finals = set()
                for perm in itertools.permutations(acts):
                    v = regs[i]
                    good = True
                    for a, x in perm:
                        if a == 'f':
                            if (v == x['v']) != x['pol'] and not any(y[0] == 'r' for y in acts):
                                good = False
                            v = x['rv'] & M
                        else:
                            v = x
                        # a flagged read after the thread replaced the flag is a different history: covered by order r first
                    if good:
                        finals.add(v)
                if not acts:
                    finals = {regs[i]}
                if nxt[i] not in finals and wr is not None and sorted(a for a, x in acts) == ['f', 'w'] and \
                        nxt[i] == next(x for a, x in acts if a == 'f')['rv'] & M:
                    lost.append('register %d: the bus wrote %d in cycle %d, in which wait_flag saw the awaited value %d; the register became %d' %
                                (i, wr[1], c, regs[i], nxt[i]))
                elif nxt[i] not in finals:
                    mech = 'stray-change' if not acts else 'lost-' + '-'.join(sorted(a for a, x in acts))
                    bad(mech, 'register %d went from %d to %d in cycle %d; events: %s' % (i, regs[i], nxt[i], c, acts))
                if nxt[i] != regs[i]:
                    ctx.ev('register_changes')
                if len(acts) > 1:
                    ctx.ev('same_cycle')
                    ctx.sig('same-' + '-'.join(sorted(a for a, x in acts)))
                if rd is not None and flag[i]:
                    flag[i] = 0
                for op in t_ops:
                    if op['k'] == 'write':
                        flag[i] = 0
                    elif op['k'] == 'write_flag':
                        flag[i] = 1
                        resetv[i] = op['rv'] & M
        if on('bvalid') and on('bready') and case['ids']:
            want = ids_w[mon.nb_resp - 1]
            if int(row['bid'], 2) % (1 << case['ids'][0]) != want:
                bad('bid', 'bid %s for request id %d' % (row['bid'], want))
        if on('arvalid') and on('arready'):
            a = (int(row['araddr'], 2) >> ((dw // 8).bit_length() - 1)) & ((1 << max((n - 1).bit_length(), 0)) - 1)
            rq.append({'idx': a, 'len': 1 if lite else int(row['arlen'], 2) + 1, 'beat': 0, 'cyc': c, 'from': c,
                       'id': int(row['arid'], 2) % (1 << case['ids'][1]) if case['ids'] else 0})
        if c in waits and (regs[ops[waits[c]]['i']] == ops[waits[c]]['v']) == ops[waits[c]]['pol']:
            op = ops[waits[c]]
            bad('wait-missed', 'operation %d waits for register %d %s %d; it held %d in cycle %d but the thread kept waiting' %
                (waits[c], op['i'], '==' if op['pol'] else '!=', op['v'], regs[op['i']], c))
        if waiting and waiting[1]['k'] in ('wait', 'wait_flag') and c > waiting[2] + 3:
            op = waiting[1]
            if (regs[op['i']] == op['v']) == op['pol']:
                bad('wait-missed', 'operation %d waits for register %d %s %d; it held %d in cycle %d but the thread kept waiting' %
                    (waiting[0], op['i'], '==' if op['pol'] else '!=', op['v'], regs[op['i']], c))
    ctx.sig('%s-%d-%d-%s' % ('lite' if lite else 'full', n, dw, bool(case['ids'])))
    if not L.done:
        if waiting and waiting[1]['k'] in ('wait', 'wait_flag'):
            raise Inconclusive('the awaited value was never written')
        bad('hang', 'thread finished: %s; %d/%d write bursts answered, %d read bursts, %d read bursts completed' %
            (len(D) == len(ops), mon.nb_resp, len(mon.wb), len(mon.rb), len(mon.rdone)))
    mon.finish(bad)
    if lost:
        # everything else was checked first: a different violation is never hidden behind this one
        bad('wait-flag-loses-write', '; '.join(lost[:4]))
    ctx.ev('bus_transactions', len(mon.wb) + len(mon.rb))
    if ctx.sample is None:
        ctx.sample = dict(n=n, lite=lite, writes=len(mon.wb), reads=len(mon.rb), cycles=L.ncyc)
    return mon
