"""C29: AXI memory models. Random external masters (and a thread) access a memory model; every byte returned and every byte left in memory must be
explained by the recorded handshakes, and the model must follow the channel rules of a slave. Memory-image helpers are compared byte for byte."""
import os
import numpy as np
import veriloggen
import veriloggen.types.axi as axi
from vlib.harness import Violation, Inconclusive
from vlib import thr, axitb

PID = 'C29'
RULE = ('every byte read from a memory model, by a bus master or by a thread, is the last byte written to it or the initial image; every write '
        'changes exactly the bytes its strobes select; every burst is answered exactly once, in order, with its id')
ASSUMPTIONS = ['bursts are INCR, full-width beats, aligned to the bus width and inside the memory', 'accesses of different ports that overlap in time may '
               'take effect in either order']
MIN_EVENTS = {'write_bursts': 300, 'read_bursts': 300, 'bytes_checked': 5000, 'thread_ops': 100, 'final_bytes': 2000, 'image_bytes': 2000}
KINDS = ['AxiMemoryModel', 'AxiMultiportMemoryModel', 'AxiSerialMemoryModel', 'AxiSerialMultiportMemoryModel']


def counts(tier):
    return 130 if tier == 'quick' else 2500


def gen(rng, i, tier):
    if rng.random() < .35:
        return {'t': 'imgs', 'subs': [gen_img(rng) for _ in range(12)]}
    kind = rng.choice([KINDS[0], KINDS[0], KINDS[0], KINDS[1], KINDS[1], KINDS[2], KINDS[3]])
    dw = rng.choice([8, 16, 32, 32, 32, 64, 128])
    multi = 'Multi' in kind
    np_ = rng.choice([1, 2, 2, 3]) if multi else 1
    idw = rng.choice([0, 0, rng.randint(1, 4)])
    idr = rng.choice([0, 0, rng.randint(1, 8)])
    mdw = rng.choice([8, 16, 32, 32, 64])
    case = {'t': 'bus', 'kind': kind, 'dw': dw, 'np': np_, 'idw': idw, 'idr': idr, 'mdw': mdw, 'maw': rng.choice([8, 10, 12]),
            'wd': rng.choice([0, 1, 2, 5, 10]), 'rd': rng.choice([0, 1, 2, 5, 10]), 'si': rng.choice([0, 2, 3, 4, 16]), 'ks': rng.choice([0, 1, 2, 4]),
            'fa': [rng.choice([2, 3, 3, 4]), rng.choice([2, 3, 3, 4])], 'img': rng.choice(['none', 'none', 'array', 'file']),
            'two': False, 'seed': rng.randint(0, 10 ** 9), 'ports': []}
    for _ in range(np_):
        p = lambda: rng.choice([100, 100, 50, 20])
        case['ports'].append(dict(SEED=rng.randint(1, 10 ** 6), GAW=p(), GW=p(), GAR=p(), PB=p() if 'Serial' in kind else 100, PR=p(), NWB=rng.choice([0, 3, 6, 12]),
                                  NRB=rng.choice([0, 3, 6, 12]), MAXLEN=rng.choice([1, 2, 4, 8, 16, 64]), MAXO=rng.choice([1, 1, 2, 4]),
                                  WAHEAD=rng.choice([0, 0, 1]), FULL=rng.choice([0, 0, 1]), WIN=rng.choice([8, 16, 64])))
    ops = []
    for _ in range(rng.choice([0, 0, 4, 10, 20])):
        k = rng.choice(['read', 'write', 'read_word', 'write_word', 'idle'])
        bits = rng.choice([1, 2, 4, 8, 16, 32, 64] if case['maw'] > 8 else [1, 2, 4, 8, 16, 32])
        ops.append({'k': k, 'a': rng.randrange(32), 'o': rng.choice([0, 0, 1, 4, 16]), 'v': rng.getrandbits(31), 'bits': bits, 'g': rng.randint(1, 30)})
    case['ops'] = ops
    return case


def gen_img(rng):
    k = rng.choice(['image', 'image', 'makeimg', 'setmem', 'setmem', 'setmem', 'align', 'size'])
    odd = k == 'image' and rng.random() < .3
    return {'t': 'img', 'k': k, 'dw': rng.choice([9, 12, 17, 20, 24, 33, 48, 63] if odd else [8, 16, 32, 64]), 'ww': rng.choice([8, 8, 16, 32]), 'mdw': rng.choice([8, 16, 32, 64]),
            'sdw': rng.choice([1, 2, 4, 8, 16, 32]), 'shape': [rng.randint(1, 9) for _ in range(rng.choice([1, 1, 2, 3]))],
            'endian': 'little' if rng.random() < .8 else 'big',
            'al': rng.choice([None, 1, 2, 4, 8]), 'off': rng.choice([0, 0, 8, 64]), 'len': rng.choice([None, None, 3, 20, 100]),
            'seed': rng.randint(0, 10 ** 9), 'neg': rng.random() < .5}


def directed():
    P = dict(SEED=5, GAW=100, GW=100, GAR=100, PB=20, PR=100, NWB=8, NRB=4, MAXLEN=4, MAXO=2, WAHEAD=0, FULL=1, WIN=16)
    b = {'t': 'bus', 'dw': 32, 'np': 1, 'idw': 0, 'idr': 0, 'mdw': 32, 'maw': 10, 'wd': 0, 'rd': 0, 'si': 0, 'ks': 0, 'fa': [3, 3], 'img': 'none',
         'two': False, 'seed': 1, 'ports': [P], 'ops': []}
    return [dict(b, id='slow-bready', kind=KINDS[0]), dict(b, id='wide-rid', kind=KINDS[0], idr=6, ports=[dict(P, PB=100)]),
            dict(b, id='serial', kind=KINDS[2]), dict(b, id='serial-multi', kind=KINDS[3], np=2, ports=[P, dict(P, SEED=6)]),
            dict(b, id='multi', kind=KINDS[1], np=2, ports=[dict(P, PB=100), dict(P, PB=100, SEED=6)], wd=3, rd=3, si=4, ks=2)]


def master_v(dw, name):
    nb = dw // 8
    return '''
module %(name)s(input CLK, input RST, output idle,
  output reg [31:0] awaddr, output reg [7:0] awlen, output reg [7:0] awid, output reg awvalid, input awready,
  output reg [%(D)d:0] wdata, output reg [%(S)d:0] wstrb, output reg wlast, output reg wvalid, input wready,
  input bvalid, output reg bready,
  output reg [31:0] araddr, output reg [7:0] arlen, output reg [7:0] arid, output reg arvalid, input arready,
  input rvalid, input rlast, output reg rready);
  parameter GAW = 50, GW = 50, GAR = 50, PB = 50, PR = 50, MAXLEN = 4, WAHEAD = 0, NWB = 4, NRB = 4, MAXO = 1, FULL = 0, WIN = 16, SEED = 1;
  integer seed, ap, an, dp, wl, aws, wsn, bs, ars, rs, rn_, x, k;
  reg [7:0] lens [0:63];
  // ap: planned write bursts; an: addresses offered; dp: bursts whose data is complete; aws: addresses accepted; wl: beats sent of burst dp
  assign idle = !awvalid && !wvalid && !arvalid && bs == NWB && rs == NRB;
  function integer rn(input integer m); rn = $unsigned($random(seed)) %% m; endfunction
  function rnd(input integer p); rnd = ($unsigned($random(seed)) %% 100) < p; endfunction
  initial begin seed = SEED; ap = 0; an = 0; dp = 0; wl = 0; aws = 0; bs = 0; ars = 0; rs = 0; rn_ = 0; awvalid = 0; wvalid = 0; arvalid = 0; bready = 0;
    rready = 0; wlast = 0; awaddr = 0; awlen = 0; awid = 0; wdata = 0; wstrb = 0; araddr = 0; arlen = 0; arid = 0;
    for (k = 0; k < 64; k = k + 1) begin lens[k] = rn(MAXLEN); if (lens[k] > WIN - 1) lens[k] = WIN - 1; end end
  always @(posedge CLK) if (!RST) begin
    if (awvalid && awready) begin awvalid <= 0; aws = aws + 1; end
    if (wvalid && wready) begin wvalid <= 0; end
    if (bvalid && bready) bs = bs + 1;
    if (arvalid && arready) begin arvalid <= 0; ars = ars + 1; end
    if (rvalid && rready && rlast) rs = rs + 1;
    bready <= rnd(PB); rready <= rnd(PR);
    if (an < NWB && (!awvalid || awready) && an - bs < MAXO && rnd(GAW)) begin
      awvalid <= 1; awlen <= lens[an %% 64]; awaddr <= rn(WIN - lens[an %% 64]) * %(nb)d; awid <= rn(256); an = an + 1;
    end
    if (dp < NWB && (!wvalid || wready) && rnd(GW) && (WAHEAD ? dp < an + 1 && dp - bs < MAXO : dp < aws)) begin
      wvalid <= 1; wlast <= wl == lens[dp %% 64];
      for (k = 0; k < %(nb)d; k = k + 1) wdata[k*8 +: 8] <= $random(seed);
      for (k = 0; k < %(nb)d; k = k + 1) wstrb[k] <= FULL || rn(4) != 0;
      if (wl == lens[dp %% 64]) begin wl = 0; dp = dp + 1; end else wl = wl + 1;
    end
    if (rn_ < NRB && (!arvalid || arready) && rn_ - rs < MAXO && rnd(GAR)) begin
      x = rn(MAXLEN); if (x > WIN - 1) x = WIN - 1;
      arvalid <= 1; arlen <= x; araddr <= rn(WIN - x) * %(nb)d; arid <= rn(256); rn_ = rn_ + 1;
    end
  end
endmodule
''' % dict(name=name, D=dw - 1, S=nb - 1, nb=nb)


def source(case, imgpath):
    kind, dw, n = case['kind'], case['dw'], case['np']
    L = ['import numpy as np', 'import veriloggen as vg', 'import veriloggen.thread as vthread', 'import veriloggen.types.axi as axi', 'def mk():',
         '    m = vg.Module("top")', '    clk = m.Input("CLK")', '    rst = m.Input("RST")', '    ports = {}']
    for i in range(n + (1 if case['two'] else 0)):
        pre = pname(case, i)
        for s, w in sg(dw).items():
            if not case['idw'] and s in ('awid', 'bid') or not case['idr'] and s in ('arid', 'rid'):
                continue
            w = {'awid': case['idw'], 'bid': case['idw'], 'arid': case['idr'], 'rid': case['idr']}.get(s, w)
            d = 'Output' if s in OUT else 'Input'
            L.append('    ports["%s_%s"] = m.%s("%s_%s"%s)' % (pre, s, d, pre, s, ', %d' % w if w > 1 or s.endswith('id') or s == 'wstrb' else ''))
    kw = ['mem_datawidth=%d' % case['mdw'], 'mem_addrwidth=%d' % case['maw'], 'write_delay=%d' % case['wd'], 'read_delay=%d' % case['rd'],
          'sleep_interval=%d' % case['si'], 'keep_sleep=%d' % case['ks'], 'waddr_id_width=%d' % case['idw'], 'wresp_id_width=%d' % case['idw'],
          'raddr_id_width=%d' % case['idr'], 'rdata_id_width=%d' % case['idr']]
    if 'Serial' not in kind:
        kw += ['req_fifo_addrwidth=%d' % case['fa'][0], 'data_fifo_addrwidth=%d' % case['fa'][1]]
    if 'Multi' in kind:
        kw.append('numports=%d' % n)
    if case['img'] == 'array':
        kw += ['memimg=np.array(%r, dtype=np.int64)' % (array(case),), 'memimg_datawidth=32', 'memimg_name=%r' % imgpath]
    elif case['img'] == 'file':
        kw.append('memimg=%r' % imgpath)
    else:
        kw.append('memimg_name=%r' % imgpath)
    L.append('    mem = axi.%s(m, "memory", clk, rst, %d, 32, %s)' % (kind, dw, ', '.join(kw)))
    if 'Multi' in kind:
        L += ['    mem.connect(%d, ports, "%s")' % (i, pname(case, i)) for i in range(n)]
    else:
        L.append('    mem.connect(ports, "%s")' % pname(case, 0))
    if case['two']:
        L.append('    mem2 = axi.%s(m, "memory2", clk, rst, %d, 32, %s)' % (kind, dw, ', '.join(k for k in kw if not k.startswith('memimg')) +
                                                                             ', memimg_name=%r' % (imgpath + '2')))
        L.append('    mem2.connect(ports, "%s")' % pname(case, 1))
    L.append('    def go():')
    if not case['ops']:
        L.append('        pass')
    for k, op in enumerate(case['ops']):
        t = op['k']
        if t == 'idle':
            L += ['        for q in range(%d):' % op['g'], '            pass']
            continue
        L.append('        print("S", %d)' % k)
        if t == 'read':
            L += ['        a = mem.read(%d)' % (op['a'] + op['o']), '        print("D", %d, a)' % k]
        elif t == 'write':
            L += ['        mem.write(%d, %d)' % (op['a'] + op['o'], op['v']), '        print("D", %d)' % k]
        elif t == 'read_word':
            L += ['        b = mem.read_word(%d, %d, %d)' % (op['a'], op['o'], op['bits']), '        print("D", %d, b)' % k]
        else:
            L += ['        mem.write_word(%d, %d, %d, %d)' % (op['a'], op['o'], op['v'], op['bits']), '        print("D", %d)' % k]
    L += ['    th = vthread.Thread(m, "th", clk, rst, go%s)' % (', datawidth=64' if any(o['k'] in ('read', 'read_word') for o in case['ops']) else ''),
          '    f = th.start()', '    return m, [f]']
    return L


def pname(case, i):
    return 'p%d' % i


def sg(dw):
    return {'awaddr': 32, 'awlen': 8, 'awid': 8, 'awsize': 3, 'awburst': 2, 'awlock': 1, 'awcache': 4, 'awprot': 3, 'awqos': 4, 'awuser': 2,
            'awvalid': 1, 'awready': 1, 'wdata': dw, 'wstrb': dw // 8, 'wlast': 1, 'wvalid': 1, 'wready': 1, 'bvalid': 1, 'bready': 1, 'bresp': 2, 'bid': 8,
            'araddr': 32, 'arlen': 8, 'arid': 8, 'arsize': 3, 'arburst': 2, 'arlock': 1, 'arcache': 4, 'arprot': 3, 'arqos': 4, 'aruser': 2,
            'arvalid': 1, 'arready': 1, 'rdata': dw, 'rresp': 2, 'rlast': 1, 'rid': 8, 'rvalid': 1, 'rready': 1}


OUT = ('awready', 'wready', 'bvalid', 'bresp', 'bid', 'arready', 'rdata', 'rresp', 'rlast', 'rid', 'rvalid')


def array(case):
    import random
    r = random.Random(case['seed'])
    return [r.getrandbits(32) - (1 << 31) for _ in range(2 ** case['maw'] // 4)]


def image(case, imgpath):
    size = 2 ** case['maw']
    if case['img'] == 'array':
        return [(v >> (8 * k)) & 255 for v in array(case) for k in range(4)]
    if case['img'] == 'file':
        return [(i * 29 + case['seed']) & 255 for i in range(size)]
    nb = case['mdw'] // 8
    return [(i // nb >> (8 * (i % nb))) & 255 for i in range(size)]


def run(case, ctx):
    if case['t'] == 'imgs':
        for sub in case['subs']:
            run_img(sub, ctx)
        ctx.sample = {'image cases': len(case['subs'])}
        return
    if case['t'] == 'img':
        return run_img(case, ctx)
    imgpath = os.path.join(ctx.scratch, 'img.out')
    init = image(case, imgpath)
    if case['img'] == 'file':
        with open(imgpath, 'w') as f:
            f.write(''.join('%02x\n' % b for b in init))
    mod, src = thr.load(source(case, imgpath), ctx)
    m, fsms = mod.mk()
    thr.add_done(m, fsms)
    code = m.to_verilog()
    dw = case['dw']
    nb = dw // 8
    sigs = sg(dw)
    decl, conn, peeks, idles = [], [], [], ['done_']
    ports = [dict(p) for p in case['ports']]
    if case['two']:
        ports.append(dict(ports[0], SEED=ports[0]['SEED'] + 1))
    maxidx = 2 ** case['maw'] // nb
    for i, cfg in enumerate(ports):
        pre = pname(case, i)
        cfg['WIN'] = min(cfg['WIN'], maxidx)
        drv = ['.CLK(CLK)', '.RST(RST)', '.idle(%s_idle)' % pre]
        idles.append('%s_idle' % pre)
        decl.append('wire %s_idle;' % pre)
        for s, w in sigs.items():
            isid = s in ('awid', 'bid', 'arid', 'rid')
            has = not (s in ('awid', 'bid') and not case['idw'] or s in ('arid', 'rid') and not case['idr'])
            decl.append('wire [%d:0] %s_%s;' % (w - 1, pre, s) if w > 1 or s == 'wstrb' else 'wire %s_%s;' % (pre, s))
            if s not in ('awsize', 'awburst', 'awlock', 'awcache', 'awprot', 'awqos', 'awuser', 'arsize', 'arburst', 'arlock', 'arcache', 'arprot',
                         'arqos', 'aruser', 'bresp', 'rresp', 'bid', 'rid', 'rdata'):
                drv.append('.%s(%s_%s)' % (s, pre, s))
            if has:
                iw = case['idw'] if s in ('awid', 'bid') else case['idr']
                conn.append('.%s_%s(%s_%s%s)' % (pre, s, pre, s, '[%d:0]' % (iw - 1) if isid else ''))
        for c in ('aw', 'ar'):
            decl.append('assign %s_%ssize = %d, %s_%sburst = 1, %s_%slock = 0, %s_%scache = 3, %s_%sprot = 0, %s_%sqos = 0, %s_%suser = 0;' %
                        ((pre, c, nb.bit_length() - 1) + (pre, c) * 6))
        decl.append('mst__ #(%s) m%s__(%s);' % (', '.join('.%s(%d)' % kv for kv in cfg.items()), pre, ', '.join(drv)))
        for s in ('awaddr', 'awlen', 'awvalid', 'awready', 'wdata', 'wstrb', 'wlast', 'wvalid', 'wready', 'bvalid', 'bready', 'araddr', 'arlen', 'arvalid',
                  'arready', 'rdata', 'rlast', 'rvalid', 'rready', 'awid', 'bid', 'arid', 'rid'):
            peeks.append(('%s%s' % (pre, s), '%s_%s' % (pre, s)))
    tail = 'begin : dmp__ integer k; for (k = 0; k < %d; k = k + 1) $display("M %%0d %%b", k, dut._memory_mem[k]);' % (2 ** case['maw'])
    if case['two']:
        tail += 'for (k = 0; k < %d; k = k + 1) $display("N %%0d %%b", k, dut._memory2_mem[k]);' % (2 ** case['maw'])
    tail += ' end'
    L = thr.simulate(m, fsms, ctx, maxcyc=12000, settle=50, peeks=peeks, decl='\n'.join(decl), conn=', '.join(conn), code=code + master_v(dw, 'mst__'),
                     wait='(%s)' % ' && '.join(idles), tail=tail)

    def bad(mech, msg):
        raise Violation(mech, msg, source=src, prints=L.text[:1500])
    writes = {}                          # (bank, byte) -> [(lo, hi, val, order key)]
    reads = []
    hung = None
    for i in range(len(ports)):
        bank = 1 if case['two'] and i == len(ports) - 1 else 0
        pre = pname(case, i)
        mon = axitb.Mon(dw, pre, role='slave')
        awid, bid, arid, rid = [], [], [], []
        rfirst = []
        pend = False
        for cyc, row in enumerate(L.cycles):
            mon.feed(cyc, row, bad)
            g = lambda s: row[pre + s]
            if g('awvalid') == g('awready') == '1' and case['idw']:
                awid.append(g('awid')[-case['idw']:])
            if g('arvalid') == g('arready') == '1' and case['idr']:
                arid.append(g('arid')[-case['idr']:])
            if g('bvalid') == g('bready') == '1' and case['idw']:
                bid.append(g('bid')[-case['idw']:])
            if g('rvalid') == '1' and not pend:
                rfirst.append(cyc)
                pend = True
            if g('rvalid') == g('rready') == '1':
                pend = False
                if case['idr'] and g('rlast') == '1':
                    rid.append(g('rid')[-case['idr']:])
        if bid != awid[:len(bid)]:
            bad('bid', 'write ids %s answered with %s' % (awid, bid))
        if rid != arid[:len(rid)]:
            bad('rid', 'read ids %s answered with %s' % (arid, rid))
        if not L.done:
            hung = hung or ('port %d: %d/%d addresses, %d data bursts, %d responses; %d/%d read addresses, %d read bursts done' %
                            (i, len(mon.wb), ports[i]['NWB'], len(mon.wdone), mon.nb_resp, len(mon.rb), ports[i]['NRB'], len(mon.rdone)))
        else:
            mon.finish(bad)
            if len(mon.wb) != ports[i]['NWB'] or len(mon.rb) != ports[i]['NRB']:
                raise Inconclusive('master did not issue its bursts')
        ctx.ev('write_bursts', len(mon.wb))
        ctx.ev('read_bursts', len(mon.rdone))
        k = 0
        for b, (a, ln) in enumerate(mon.wb):
            hi = mon.bcyc[b] if b < len(mon.bcyc) else 10 ** 9
            for j in range(ln):
                if k >= len(mon.wcyc):
                    break
                flat = mon.wdone[b][j] if b < len(mon.wdone) else mon.cur[j]
                lo = max(mon.awcyc[b], mon.wcyc[k]) if 'Serial' not in case['kind'] else max(mon.awcyc[b], mon.wcyc[k - 1] if k else 0)
                for q in range(nb):
                    if flat[1] >> q & 1:
                        writes.setdefault((bank, a + j * nb + q), []).append((lo, hi, flat[0] >> (8 * q) & 255, (i, k)))
                k += 1
        k = 0
        for b, (a, ln) in enumerate(mon.rb):
            data = mon.rdone[b] if b < len(mon.rdone) else mon.rcur if b == len(mon.rdone) else []
            for j, d in enumerate(data):
                reads.append((bank, a + j * nb, nb, d, mon.arcyc[b], rfirst[k], 'port %d burst %d beat %d' % (i, b, j)))
                k += 1
    # thread operations
    start = {}
    treads = []
    for cyc, w in L.ev:
        if not w or w[0] not in 'SD' or len(w) < 2:
            continue
        k = int(w[1])
        op = case['ops'][k]
        if w[0] == 'S':
            start[k] = cyc
            continue
        ctx.ev('thread_ops')
        if op['k'] in ('read', 'write'):
            a, n, sh, wd = op['a'] + op['o'], case['mdw'] // 8, 0, case['mdw']
        else:
            bits = op['bits']
            a, n, sh, wd = op['o'] + op['a'] * bits // 8, -(-bits // 8), op['a'] * bits % 8, bits
        if op['k'].startswith('write'):
            for q in range(n):
                mask = (((1 << wd) - 1) << sh >> (8 * q)) & 255
                # sub-byte writes are read-modify-write in one cycle: record mask
                writes.setdefault((0, a + q), []).append((start[k] - 1, cyc, (op['v'] << sh >> (8 * q)) & 255, ('t', k), mask))
        else:
            treads.append((a, n, sh, wd, int(w[2]), start[k] - 1, cyc, k))
    if not L.done and hung is None:
        raise Inconclusive('did not finish')
    if hung or not L.done:
        bad('hang', 'the masters are still waiting after %d cycles: %s' % (L.ncyc, hung))

    def before(x, y):
        return x[1] < y[0] or x[3][0] == y[3][0] and x[3] < y[3]

    def cands(key, t0, t1):
        """values of a byte over [t0,t1]; None when partial writes make it unknown"""
        ws = [w for w in writes.get(key, []) if w[0] < t1]
        if any(len(w) > 4 and w[4] != 255 for w in ws):
            # bit-wise: apply the same rule to each bit
            out = []
            for b in range(8):
                wb = [(w[0], w[1], w[2] >> b & 1, w[3]) for w in ws if len(w) <= 4 or w[4] >> b & 1]
                out.append(sel(wb, t0, init[key[1]] >> b & 1))
            return ('bits', out)
        return ('byte', sel(ws, t0, init[key[1]] if key[0] == 0 else (key[1] // (case['mdw'] // 8) >> (8 * (key[1] % (case['mdw'] // 8)))) & 255))

    def sel(ws, t0, iv):
        r = {w[2] for w in ws if not any(before(w, v) and v[1] <= t0 for v in ws)}
        if not any(v[1] <= t0 for v in ws):
            r.add(iv)
        return r

    mixed = set()                        # sub-byte thread write racing with another write of the same byte: the result is not a serial order
    for key, ws in writes.items():
        for w in ws:
            if len(w) > 4 and w[4] != 255 and any(v is not w and not before(v, w) and not before(w, v) for v in ws):
                mixed.add(key)

    def ok(key, t0, t1, val):
        if key in mixed:
            return True, None
        kind, c = cands(key, t0, t1)
        if kind == 'byte':
            return val in c, c
        return all(val >> b & 1 in c[b] for b in range(8)), c
    for bank, a, n, d, t0, t1, what in reads:
        for q in range(n):
            ctx.ev('bytes_checked')
            good, c = ok((bank, a + q), t0, t1, d >> (8 * q) & 255)
            if not good:
                bad('read-data', '%s: byte 0x%x read as %02x, possible values %s (address accepted in cycle %d, data in %d)' %
                    (what, a + q, d >> (8 * q) & 255, c, t0, t1))
    for a, n, sh, wd, v, t0, t1, k in treads:
        v &= (1 << wd) - 1
        if wd < 64:
            pass
        for b in range(wd):
            byte, bit = (sh + b) // 8, (sh + b) % 8
            if (0, a + byte) in mixed:
                continue
            kind, c = cands((0, a + byte), t0, t1)
            poss = c[bit] if kind == 'bits' else {x >> bit & 1 for x in c}
            if (v >> b & 1) not in poss:
                bad('thread-read', 'op %d %r returned %x: bit %d must be one of %s' % (k, case['ops'][k], v, b, poss))
    for cyc, w in L.ev:
        if w and w[0] in 'MN' and cyc >= 10 ** 9:
            key = (int(w[0] == 'N'), int(w[1]))
            if key[0] == 0 and key[1] >= len(init):
                continue
            ctx.ev('final_bytes')
            if set(w[2]) - set('01'):
                bad('final-x', 'byte 0x%x is %s at the end' % (key[1], w[2]))
            good, c = ok(key, 10 ** 8, 10 ** 9, int(w[2], 2))
            if not good:
                bad('final-data', 'byte 0x%x is %02x at the end, expected %s' % (key[1], int(w[2], 2), c))
    ctx.sig('bus', case['kind'], case['dw'], case['si'], case['ks'], case['wd'], case['rd'])
    ctx.evaluations += 1


# ---------------------------------------------------------------- image helpers
def ints(case, shape, bits):
    import random
    r = random.Random(case['seed'])
    n = int(np.prod(shape))
    lo = -(1 << (bits - 1)) if case['neg'] and bits > 1 else 0
    hi = (1 << (bits - 1)) - 1 if bits > 1 else 1
    return np.array([r.randint(lo, hi) for _ in range(n)], dtype=np.int64).reshape(shape)


def run_img(case, ctx):
    def bad(mech, msg):
        raise Violation('img-' + mech, msg)
    k, shape = case['k'], case['shape']
    path = os.path.join(ctx.scratch, 'x.out')
    ctx.evaluations += 1
    ctx.sig('img', k, case['dw'], case['ww'], case['mdw'], case['sdw'], case['al'], len(shape))
    if k in ('image', 'makeimg'):
        dw, ww = case['dw'], case['ww']
        if k == 'makeimg':
            n = case['len'] or 5
            arr = np.arange(n)
            if dw < ww and n % (ww // dw):
                return
            axi.make_memory_image(path, n, datawidth=dw, wordwidth=ww, endian=case['endian'])
        else:
            arr = ints(case, shape, dw)
            n = case['len']
            flat = list(arr.reshape([-1]))
            tot = n if n is not None else len(flat)
            if dw < ww and (ww % dw or tot % (ww // dw)):
                return
            ret = axi.to_memory_image(path, arr, length=n, datawidth=dw, wordwidth=ww, endian=case['endian'])
            arr = np.array((flat + [0] * tot)[:tot])
        words = [int(l, 16) for l in open(path)]
        if k == 'image' and ret != len(words):
            bad('count', 'to_memory_image returned %r, %d words were written' % (ret, len(words)))
        exp = []
        flat = [int(x) for x in arr]
        if dw >= ww:
            for v in flat:
                p = [(v >> (ww * j)) & ((1 << ww) - 1) for j in range(-(-dw // ww))]
                exp += p[::-1] if case['endian'] == 'big' else p
        else:
            c = ww // dw
            for j in range(0, len(flat), c):
                p = [v & ((1 << dw) - 1) for v in flat[j:j + c]]
                if case['endian'] == 'big':
                    p = p[::-1]
                exp.append(sum(v << (dw * q) for q, v in enumerate(p)))
        ctx.ev('image_bytes', len(exp) * ww // 8)
        if dw > ww and dw % ww and len(words) == len(exp):
            # the part of the last word of an element above the element is unspecified
            n, low = -(-dw // ww), (1 << dw % ww) - 1
            for j in range(len(exp)):
                if j % n == (0 if case['endian'] == 'big' else n - 1):
                    words[j] &= low
                    exp[j] &= low
        if words != exp:
            bad('words', '%s: %s... expected %s...' % (case, words[:12], exp[:12]))
    elif k in ('setmem', 'align'):
        al = case['al']
        sdw, mdw = case['sdw'], case['mdw']
        src = ints(case, shape, sdw)

        def al_rows(a, n):
            rows = [[int(x) for x in r] for r in a.reshape([-1, a.shape[-1]])]
            return [r + [0] * (-len(r) % n) for r in rows]
        if k == 'align':
            n = al or 4
            got = [int(x) for x in np.array(axi.align(src, n)).reshape([-1])]
            exp = [x for r in al_rows(src, n) for x in r]
            ctx.ev('image_bytes', len(exp))
            if got != exp:
                bad('align', 'align(%s, %d): %s expected %s' % (src.tolist(), n, got, exp))
            sh = axi.aligned_shape(list(shape), 1, n)
            if sh[:-1] != shape[:-1] or sh[-1] != shape[-1] + (-shape[-1] % n):
                bad('aligned-shape', 'aligned_shape(%s, 1, %d) = %s' % (shape, n, sh))
            return
        rows = al_rows(src, al) if al else [[int(x) for x in r] for r in src.reshape([-1, src.shape[-1]])]
        if al and al != 1:
            rows = [[x for r in rows for x in r]]        # aligned rows are packed back to back
        off = case['off'] // (mdw // 8) * (mdw // 8)
        if mdw < sdw:
            c = sdw // mdw
            exp = [(v >> (mdw * q)) & ((1 << mdw) - 1) for r in rows for v in r for q in range(c)]
        else:
            c = mdw // sdw
            exp = []
            for r in rows:
                r = r + [0] * (-len(r) % c)
                for j in range(0, len(r), c):
                    exp.append(sum((v & ((1 << sdw) - 1)) << (sdw * q) for q, v in enumerate(r[j:j + c])))
        mem = np.zeros([4096], dtype=np.int64)
        old = np.arange(4096, dtype=np.int64) * 7
        mem[:] = old
        axi.set_memory(mem, src, mdw, sdw, off, al)
        o = off // (mdw // 8)
        ctx.ev('image_bytes', len(exp) * mdw // 8)
        got = [int(x) & ((1 << mdw) - 1) for x in mem[o:o + len(exp)]]
        if got != exp:
            bad('set-memory', 'set_memory(%s, %d, %d, %d, %s): %s expected %s' % (src.tolist(), mdw, sdw, off, al, got, exp))
        mem[o:o + len(exp)] = old[o:o + len(exp)]
        if (mem != old).any():
            bad('set-memory-extent', 'set_memory changed words outside the array')
    else:
        n = axi.shape_to_memory_size(shape, case['dw'], case['mdw'])
        tot = int(np.prod(axi.aligned_shape(shape, case['dw'], case['mdw'])))
        nb = case['dw'] // 8
        ctx.ev('image_bytes', nb)
        if n < tot or n * nb % 4096 or (n - tot) * nb >= 4096:
            bad('memory-size', 'shape_to_memory_size(%s, %d, %d) = %d for %d words' % (shape, case['dw'], case['mdw'], n, tot))
