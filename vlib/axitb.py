"""AXI memory slave for testbenches (independent Verilog model with random back-pressure) and channel-rule monitors."""
import random
from vlib.harness import Violation

MEMBITS = 16                  # bytes of modelled memory = 2**MEMBITS; higher address bits are checked by the monitor


def init_byte(a):
    return ((a * 37) ^ ((a >> 8) * 11) ^ 0x5a) & 0xff


def slave_v(dw, name='axislv__', addrwidth=32):
    nb = dw // 8
    sh = nb.bit_length() - 1
    AH = addrwidth - 1
    return '''
module %(name)s(input CLK, input RST,
  input [%(AH)d:0] awaddr, input [7:0] awlen, input awvalid, output awready,
  input [%(D)d:0] wdata, input [%(S)d:0] wstrb, input wlast, input wvalid, output wready,
  output reg bvalid, input bready, output [1:0] bresp,
  input [%(AH)d:0] araddr, input [7:0] arlen, input arvalid, output arready,
  output reg [%(D)d:0] rdata, output reg rlast, output reg rvalid, input rready, output [1:0] rresp);
  parameter PAW = 50, PW = 50, PB = 50, PAR = 50, PR = 50, QD = 2, WPOL = 0, AWDEP = 0, ARDEP = 0, SEED = 1, BURSTY = 0;
  integer seed;
  reg [7:0] mem [0:%(M)d];
  // write side
  reg [%(AH)d:0] awq_a [0:15]; reg [7:0] awq_l [0:15]; integer awh, awt;        // addresses accepted / completed bursts
  reg [%(D)d:0] wq_d [0:1023]; reg [%(S)d:0] wq_s [0:1023]; integer wh, wt;
  integer wbursts;                                                         // data bursts finished (by wlast) in the W queue
  integer beat; integer bpend;
  reg [%(AH)d:0] wa;
  reg r_aw, r_w, r_b, r_ar, r_r;
  reg wsleep, rsleep, asleep;
  integer k;
  assign bresp = 0; assign rresp = 0;
  assign awready = r_aw && (awt - awh < QD) && (AWDEP == 0 || awvalid) && (AWDEP < 2 || wvalid || wt != wh || wbursts > 0);
  assign wready = r_w && (wt - wh < 1000) && (WPOL == 0 || awt != awh) ;
  reg [%(AH)d:0] arq_a [0:15]; reg [7:0] arq_l [0:15]; integer arh, art, rbeat;
  assign arready = r_ar && (art - arh < QD) && (ARDEP == 0 || arvalid);
  reg [%(AH)d:0] ra;
  initial begin
    seed = SEED; awh = 0; awt = 0; wh = 0; wt = 0; wbursts = 0; beat = 0; bpend = 0; bvalid = 0; rvalid = 0; rlast = 0; rdata = 0; arh = 0; art = 0; rbeat = 0;
    r_aw = 0; r_w = 0; r_b = 0; r_ar = 0; r_r = 0; wsleep = 0; rsleep = 0; asleep = 0;
    for (k = 0; k <= %(M)d; k = k + 1) mem[k] = ((k * 37) ^ ((k >> 8) * 11) ^ 8'h5a);
  end
  function rnd(input integer p); rnd = ($unsigned($random(seed)) %% 100) < p; endfunction
  always @(posedge CLK) begin
    if (RST) begin
      bvalid <= 0; rvalid <= 0;
    end else begin
      if (BURSTY) begin
        if (($unsigned($random(seed)) %% 16) == 0) wsleep = !wsleep;
        if (($unsigned($random(seed)) %% 16) == 0) rsleep = !rsleep;
        if (($unsigned($random(seed)) %% 16) == 0) asleep = !asleep;
      end
      // handshakes seen at this edge
      if (awvalid && awready) begin awq_a[awt %% 16] = awaddr; awq_l[awt %% 16] = awlen; awt = awt + 1; end
      if (wvalid && wready) begin wq_d[wt %% 1024] = wdata; wq_s[wt %% 1024] = wstrb; wt = wt + 1; end
      if (bvalid && bready) begin bvalid <= 0; end
      if (arvalid && arready) begin arq_a[art %% 16] = araddr; arq_l[art %% 16] = arlen; art = art + 1; end
      // process one write beat
      if (awh != awt && wh != wt) begin
        wa = ((awq_a[awh %% 16] >> %(sh)d) << %(sh)d) + beat * %(nb)d;
        for (k = 0; k < %(nb)d; k = k + 1) if (wq_s[wh %% 1024][k]) mem[(wa + k) & %(M)d] = wq_d[wh %% 1024][k*8 +: 8];
        wh = wh + 1;
        if (beat == awq_l[awh %% 16]) begin beat = 0; awh = awh + 1; bpend = bpend + 1; end
        else beat = beat + 1;
      end
      if ((!bvalid || bready) && bpend > 0 && rnd(PB)) begin bvalid <= 1; bpend = bpend - 1; end
      // read beat
      if (rvalid && rready) begin rvalid <= 0; rlast <= 0; end
      if ((!rvalid || rready) && arh != art && rnd(PR) && !rsleep) begin
        ra = ((arq_a[arh %% 16] >> %(sh)d) << %(sh)d) + rbeat * %(nb)d;
        for (k = 0; k < %(nb)d; k = k + 1) rdata[k*8 +: 8] <= mem[(ra + k) & %(M)d];
        rvalid <= 1; rlast <= rbeat == arq_l[arh %% 16];
        if (rbeat == arq_l[arh %% 16]) begin rbeat = 0; arh = arh + 1; end
        else rbeat = rbeat + 1;
      end else if (!rvalid || rready) rdata <= {%(nb)d{8'hx}};
      r_aw <= rnd(PAW) && !asleep; r_w <= rnd(PW) && !wsleep; r_ar <= rnd(PAR) && !asleep;
    end
  end
  task dump; begin
    for (k = 0; k <= %(M)d; k = k + 1)
      if (mem[k] !== (((k * 37) ^ ((k >> 8) * 11) ^ 8'h5a) & 8'hff)) $display("M %%0d %%b", k, mem[k]);
  end endtask
endmodule
''' % dict(name=name, D=dw - 1, S=nb - 1, M=2 ** MEMBITS - 1, sh=sh, nb=nb, AH=AH)


SIGS = [('aw', ['addr', 'len', 'size', 'burst', 'valid', 'ready']), ('w', ['data', 'strb', 'last', 'valid', 'ready']),
        ('b', ['valid', 'ready']), ('ar', ['addr', 'len', 'size', 'burst', 'valid', 'ready']),
        ('r', ['data', 'last', 'valid', 'ready'])]


def gen_cfg(rng):
    p = lambda: rng.choice([100, 100, 80, 50, 50, 20])
    if rng.random() < .2:
        d = dict(PAW=100, PW=100, PB=100, PAR=100, PR=100)
    else:
        d = dict(PAW=p(), PW=p(), PB=p(), PAR=p(), PR=p())
    d.update(QD=rng.choice([1, 2, 4, 8]), WPOL=rng.choice([0, 0, 1]), AWDEP=rng.choice([0, 0, 0, 1]), ARDEP=rng.choice([0, 0, 1]),
             SEED=rng.randint(1, 10 ** 6), BURSTY=int(rng.random() < .25))
    return d


def hook(port, dw, cfg, addrwidth=32, label='', inst='slv__', mod='axislv__', lite=False):
    """-> (module text, tb declarations, dut connections, peeks, dump statement)"""
    ws = []
    conn = []
    names = {}
    for ch, ss in SIGS:
        for s in ss:
            if lite and s in ('len', 'size', 'burst', 'last'):
                continue
            n = 'x%s_%s%s' % (label, ch, s)
            names[ch + s] = n
            w = {'addr': addrwidth, 'len': 8, 'size': 3, 'burst': 2, 'data': dw, 'strb': dw // 8}.get(s, 1)
            ws.append('wire [%d:0] %s;' % (w - 1, n) if w > 1 else 'wire %s;' % n)
            conn.append('.%s_%s%s(%s)' % (port, ch, s, n))
    for ch in 'br':
        n = 'x%s_%sresp' % (label, ch)
        ws.append('wire [1:0] %s;' % n)
        names[ch + 'resp'] = n
        conn.append('.%s_%sresp(%s)' % (port, ch, n))
    sc = ['.CLK(CLK)', '.RST(RST)']
    for s in ('awaddr', 'awlen', 'awvalid', 'awready', 'wdata', 'wstrb', 'wlast', 'wvalid', 'wready', 'bvalid', 'bready', 'bresp', 'araddr',
              'arlen', 'arvalid', 'arready', 'rdata', 'rlast', 'rvalid', 'rready', 'rresp'):
        if s in names:
            sc.append('.%s(%s)' % (s, names[s]))
        elif s in ('awlen', 'arlen'):
            sc.append(".%s(8'd0)" % s)
        elif s == 'wlast':
            sc.append(".wlast(1'b1)")
    ps = ', '.join('.%s(%d)' % (k, v) for k, v in cfg.items() if k.isupper())
    decl = '\n'.join(ws) + '\n%s #(%s) %s(%s);' % (mod, ps, inst, ', '.join(sc))
    peeks = [(label + ch + s, names[ch + s]) for ch, ss in SIGS for s in ss if ch + s in names]
    return slave_v(dw, mod, addrwidth), decl, ', '.join(conn), peeks, '%s.dump;' % inst


class Mon:
    """Channel-rule monitor over per-edge samples of one AXI port (dict rows of binary strings); raises through bad(mech, msg)."""

    def __init__(self, dw, label='', lite=False, role='master', maxburst=256, boundary=4096):
        self.dw, self.l, self.lite, self.role = dw, label, lite, role
        self.nb = dw // 8
        self.maxburst, self.boundary = maxburst, boundary
        self.prev = None
        self.wb = []              # accepted write addresses (addr, len)
        self.rb = []
        self.beats = 0
        self.wdone = []           # data bursts completed (beats, datas)
        self.cur = []
        self.nb_resp = 0
        self.rcur = []
        self.rdone = []
        self.nw = self.nr = 0
        self.stall = {}
        self.awcyc, self.arcyc, self.bcyc, self.wcyc, self.rcyc = [], [], [], [], []

    MASTER = {'aw': ['addr', 'len', 'size', 'burst'], 'w': ['data', 'strb', 'last'], 'ar': ['addr', 'len', 'size', 'burst']}
    SLAVE = {'b': [], 'r': ['data', 'last']}

    def feed(self, cyc, row, bad):
        g = lambda s: row.get(self.l + s)

        def bit(s):
            v = g(s)
            if v not in ('0', '1'):
                bad('x-handshake:' + s, '%s is %s in cycle %d' % (s, v, cyc))
            return v == '1'

        def val(s):
            v = g(s)
            try:
                return int(v, 2)
            except ValueError:
                bad('x-payload:' + s, '%s is %s in cycle %d' % (s, v, cyc))
        own = self.MASTER if self.role == 'master' else self.SLAVE
        for ch, pay in own.items():
            v = bit(ch + 'valid')
            p = self.prev
            if p is not None and p[self.l + ch + 'valid'] == '1' and p[self.l + ch + 'ready'] == '0':
                self.stall[ch] = self.stall.get(ch, 0) + 1
                if not v:
                    bad('withdrawn:' + ch, '%svalid dropped in cycle %d before it was accepted' % (ch, cyc))
                for s in pay:
                    if self.l + ch + s in row and p[self.l + ch + s] != row[self.l + ch + s]:
                        bad('unstable:%s%s' % (ch, s), '%s%s changed from %s to %s in cycle %d while stalled' %
                            (ch, s, p[self.l + ch + s], row[self.l + ch + s], cyc))
        for ch in ('aw', 'ar', 'w', 'b', 'r'):
            bit(ch + 'valid')
            bit(ch + 'ready')
        if self.role == 'slave':
            # a response may only be offered for something received before this edge
            if bit('bvalid') and self.nb_resp >= min(len(self.wb), len(self.wdone)):
                bad('early-response', 'bvalid in cycle %d after %d addresses, %d data bursts and %d responses' %
                    (cyc, len(self.wb), len(self.wdone), self.nb_resp))
            if bit('rvalid') and len(self.rdone) >= len(self.rb):
                bad('unrequested-read-data', 'rvalid in cycle %d after %d addresses and %d finished read bursts' % (cyc, len(self.rb), len(self.rdone)))
        for ch, lst, cl in (('aw', self.wb, self.awcyc), ('ar', self.rb, self.arcyc)):
            if g(ch + 'valid') == '1' and g(ch + 'ready') == '1':
                a = val(ch + 'addr')
                ln = 1 if self.lite else val(ch + 'len') + 1
                if not self.lite and self.role == 'master':
                    if val(ch + 'size') != self.nb.bit_length() - 1:
                        bad('axsize', '%ssize %d with %d-bit data' % (ch, val(ch + 'size'), self.dw))
                    if val(ch + 'burst') != 1:
                        bad('axburst', '%sburst %d' % (ch, val(ch + 'burst')))
                    if ln > self.maxburst:
                        bad('too-long', '%s burst of %d beats' % (ch, ln))
                    lo = a // self.nb * self.nb
                    if lo // self.boundary != (lo + ln * self.nb - 1) // self.boundary:
                        bad('crosses-4KB', '%s burst at 0x%x with %d beats of %d bytes' % (ch, a, ln, self.nb))
                lst.append((a, ln))
                cl.append(cyc)
        if g('wvalid') == '1' and g('wready') == '1':
            self.cur.append((val('wdata'), val('wstrb')))
            self.wcyc.append(cyc)
            self.nw += 1
            last = True if self.lite else bit('wlast')
            i = len(self.wdone)
            if i < len(self.wb):
                want = self.wb[i][1]
                if self.role == 'master' and (last != (len(self.cur) == want)):
                    bad('wlast', 'write burst %d announced %d beats, beat %d has wlast=%d (cycle %d)' % (i, want, len(self.cur), last, cyc))
            if last:
                self.wdone.append(self.cur)
                self.cur = []
        for i in range(min(len(self.wb), len(self.wdone))):
            if self.role == 'master' and len(self.wdone[i]) != self.wb[i][1]:
                bad('wlast', 'write burst %d announced %d beats but carried %d' % (i, self.wb[i][1], len(self.wdone[i])))
        if g('bvalid') == '1' and g('bready') == '1':
            self.nb_resp += 1
            self.bcyc.append(cyc)
        if g('rvalid') == '1' and g('rready') == '1':
            self.rcur.append(val('rdata') if self.role == 'slave' else g('rdata'))
            self.rcyc.append(cyc)
            self.nr += 1
            i = len(self.rdone)
            want = self.rb[i][1]
            last = (len(self.rcur) == want) if self.lite else bit('rlast')
            if self.role == 'slave' and last != (len(self.rcur) == want):
                bad('rlast', 'read burst %d asked %d beats, beat %d has rlast=%d (cycle %d)' % (i, want, len(self.rcur), last, cyc))
            if last:
                self.rdone.append(self.rcur)
                self.rcur = []
        self.prev = row

    def finish(self, bad):
        if len(self.wdone) != len(self.wb) or self.cur:
            bad('write-data-count', '%d write bursts announced, %d data bursts sent (+%d beats)' % (len(self.wb), len(self.wdone), len(self.cur)))
        if self.nb_resp != len(self.wb):
            bad('responses', '%d write bursts, %d responses accepted' % (len(self.wb), self.nb_resp))
        if len(self.rdone) != len(self.rb) or self.rcur:
            bad('read-data-count', '%d read bursts announced, %d completed' % (len(self.rb), len(self.rdone)))
        for s in ('awvalid', 'wvalid', 'arvalid', 'bvalid', 'rvalid'):
            if self.prev is not None and self.prev[self.l + s] == '1':
                bad('pending-at-end', '%s is still asserted after everything has finished' % s)
