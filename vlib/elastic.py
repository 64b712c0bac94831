"""drive a module whose inputs and outputs are valid/ready streams and record what was accepted and delivered"""
import os
from .harness import Violation
from .trace import trace, b2i


def drive(code, top, ins, outs, items, cycles, rng, ctx, resets=(), extra_ins=(), stim_extra=None, gaps=None, quiet=()):
    """ins/outs: [{'name','width','valid','ready'}] (valid/ready: port name or None); items: name -> list of ints.
    gaps: per port probability (per phase) of being active.  Returns (accepted, delivered, rows): lists of segments (split by resets);
    accepted[seg][port] = [(cycle, value)] in order."""
    W = ['module shell__(input CLK, input RST, %s);' % ', '.join(
        ['input go_%s, input [%d:0] junk_%s' % (p['name'], p['width'] - 1, p['name']) for p in ins] +
        ['input rdy_%s' % p['name'] for p in outs] + ['input [%d:0] %s' % (w - 1, n) for n, w in extra_ins] +
        ['output [%d:0] d_%s, output v_%s, output r_%s' % (p['width'] - 1, p['name'], p['name'], p['name']) for p in list(ins) + list(outs)])]
    con = ['.CLK(CLK)', '.RST(RST)'] + ['.%s(%s)' % (n, n) for n, _ in extra_ins]
    for p in ins:
        n, w, N = p['name'], p['width'], len(items[p['name']])
        f = os.path.join(ctx.scratch, 'items_%s.hex' % n)
        open(f, 'w').write('\n'.join('%x' % (x & ((1 << w) - 1)) for x in items[n]) + '\n')
        W.append('reg [%d:0] m_%s [0:%d]; initial $readmemh("%s", m_%s);' % (w - 1, n, N - 1, f, n))
        W.append('integer nx_%s = 0; reg pend_%s = 0; reg [%d:0] cur_%s = 0;' % (n, n, w - 1, n))
        W.append('assign v_%s = pend_%s; assign d_%s = pend_%s ? cur_%s : junk_%s;' % ((n,) * 6))
        if not p['ready']:
            W.append("assign r_%s = 1'b1;" % n)
        else:
            con.append('.%s(r_%s)' % (p['ready'], n))
        if p['valid']:
            con.append('.%s(v_%s)' % (p['valid'], n))
        con.append('.%s(d_%s)' % (p.get('data', n), n))
        W.append('''always @(posedge CLK) if(RST) pend_%(n)s <= 0;
  else if(!pend_%(n)s || r_%(n)s) begin
    if(go_%(n)s && nx_%(n)s < %(N)d) begin pend_%(n)s <= 1; cur_%(n)s <= m_%(n)s[nx_%(n)s]; nx_%(n)s <= nx_%(n)s + 1; end
    else pend_%(n)s <= 0;
  end''' % {'n': n, 'N': N})
    for p in outs:
        n = p['name']
        con.append('.%s(d_%s)' % (p.get('data', n), n))
        if p['valid']:
            con.append('.%s(v_%s)' % (p['valid'], n))
        else:
            W.append("assign v_%s = 1'b1;" % n)
        if p['ready']:
            con.append('.%s(rdy_%s)' % (p['ready'], n))
            W.append('assign r_%s = rdy_%s;' % (n, n))
        else:
            W.append("assign r_%s = 1'b1;" % n)
    W.append('%s dut__(%s);' % (top, ', '.join(con)))
    W.append('endmodule')
    tin = [('RST', 1)]
    for p in ins:
        tin += [('go_' + p['name'], 1), ('junk_' + p['name'], p['width'])]
    tin += [('rdy_' + p['name'], 1) for p in outs] + list(extra_ins)
    tout = []
    for p in list(ins) + list(outs):
        tout += [('d_' + p['name'], p['width']), ('v_' + p['name'], 1), ('r_' + p['name'], 1)]
    st = []
    prob = {}
    for t in range(cycles):
        if t % 24 == 0:
            for p in list(ins) + list(outs):
                prob[p['name']] = 1.0 if p.get('always') else rng.choice([1.0, .9, .5, .5, .2, .05]) if gaps is None else gaps
        if t >= cycles * 2 // 3:
            for p in list(ins) + list(outs):
                prob[p['name']] = 1.0
        d = {'RST': int(t < 3 or t in resets)}
        for p in ins:
            g = int(rng.random() < prob[p.get('together') or p['name']])
            if p.get('together') and p['together'] != p['name']:
                g = d['go_' + p['together']]
            d['go_' + p['name']] = g
            d['junk_' + p['name']] = rng.getrandbits(p['width'])
        for p in outs:
            d['rdy_' + p['name']] = d['rdy_' + p['together']] if p.get('together') and p['together'] != p['name'] else int(rng.random() < prob[p['name']])
        if any(a <= t < b for a, b in quiet):
            for p in ins:
                d['go_' + p['name']] = 0
            for p in outs:
                d['rdy_' + p['name']] = 1
        if stim_extra:
            d.update(stim_extra(t))
        st.append(d)
    rows, other = trace(code + '\n' + '\n'.join(W), 'shell__', tin, tout, st, ctx)
    acc, out, seg = [], [], None
    hold = {}
    for t, (r, s) in enumerate(zip(rows, st)):
        if s['RST']:
            if acc and (t == 0 or not st[t - 1]['RST']) or not acc:
                acc.append({p['name']: [] for p in ins})
                out.append({p['name']: [] for p in outs})
            hold = {}
            continue
        for p in ins:
            n = p['name']
            if p['ready'] and r['r_' + n] not in '01':
                raise Violation('x-ready', 'cycle %d: ready of input %s is %s' % (t, n, r['r_' + n]), code=code)
            if r['v_' + n] == '1' and r['r_' + n] == '1':
                acc[-1][n].append((t, b2i(r['d_' + n])))
                ctx.ev('accepted')
            elif r['v_' + n] == '1':
                ctx.ev('input_stalls')
        for p in outs:
            n = p['name']
            v, rd, dt = r['v_' + n], r['r_' + n], r['d_' + n]
            if v not in '01':
                raise Violation('x-valid', 'cycle %d: valid of output %s is %s' % (t, n, v), code=code)
            if n in hold and p['ready'] and p['valid'] and (v != '1' or dt != hold[n]):
                raise Violation('unstable', 'cycle %d: output %s was %s and stalled, now valid=%s data=%s' % (t, n, hold[n], v, dt), code=code)
            hold.pop(n, None)
            if v == '1' and rd == '1':
                out[-1][n].append((t, dt))
                ctx.ev('delivered')
            elif v == '1':
                hold[n] = dt
                ctx.ev('output_stalls')
    return acc, out, rows, st
