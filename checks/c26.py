"""C26: the simulation helpers. Random test benches are built with setup_clock, setup_reset, setup_waveform and next_clock and run through the simulation API
(Icarus and Verilator back ends) with macros, include directories, library directories and failures; every event printed is predicted by a model of the requested
settings, and compared between the back ends and a direct run of the emitted text."""
import io
import os
import contextlib
import subprocess
import veriloggen as vg
from veriloggen import simulation
from vlib.harness import Violation, Inconclusive
from vlib import sim

PID = 'C26'
RULE = ('every clock and reset edge happens at the requested time, prior statements run before them, the output returned is what a direct run prints, macros, '
        'include and library directories and the top module are honoured on both back ends, and a failing simulator raises')
ASSUMPTIONS = ['no clock edge coincides with a reset edge', 'Verilator counts whole clock cycles: its clock rises at time 0, so the back ends are compared from the reset on',
               'VCS and ModelSim are not installed']
MIN_EVENTS = {'edges_checked': 2000, 'icarus_runs': 60, 'verilator_runs': 8, 'verilator_lines': 100, 'failures_reported': 15, 'macro_runs': 15, 'include_runs': 8,
              'library_runs': 6, 'vcd_edges': 100}
TIMEOUT = 300
NV = {'quick': 14, 'thorough': 60}


def counts(tier):
    return 200 if tier == 'quick' else 2000


def gen(rng, i, tier):
    if i % 12 == 0 and i // 12 < NV[tier]:
        h = rng.choice([1, 2, 3, 5, 5, 7])
        return {'t': 'ver', 'h': h, 'p': rng.choice([20, 33, 100] if h > 1 else [21, 33, 101]) * h + (rng.randint(1, h - 1) if h > 1 else 0), 'pol': rng.choice(['high', 'low']),
                'inc': rng.randint(1, 9), 'lim': rng.randint(8, 40), 'top': rng.choice([None, 'mod', 'str']), 'define': rng.choice([None, None, 'flag', 'value', 'both']),
                'include': rng.random() < .4, 'opt': rng.choice([None, None, 'str', 'list']), 'vcd': rng.random() < .3, 'simtime': rng.random() < .35,
                'display': rng.random() < .3, 'extra': rng.random() < .3, 'out': rng.random() < .3, 'lib': rng.random() < .2, 'fail': i % 7 == 6}
    nclk = rng.choice([1, 1, 2, 3])
    case = {'t': 'iv', 'h': [rng.choice([3, 5, 5, 10, 7, 13]) for _ in range(nclk)], 'rst': [], 'top': rng.choice([None, 'mod', 'str', 'second']),
            'define': rng.choice([None, None, 'flag', 'value', 'both', 'str']), 'include': rng.random() < .3, 'incstr': rng.random() < .5, 'lib': rng.random() < .25,
            'libstr': rng.random() < .5, 'display': rng.random() < .3, 'out': rng.random() < .3, 'vcd': rng.random() < .25, 'steps': rng.randint(0, 5),
            'T': rng.randint(100, 400), 'sim': rng.choice(['iverilog', 'icarus', None, 'func']), 'strobj': rng.random() < .3,
            'fail': rng.choice([None, None, None, None, 'syntax', 'nomod', 'notop'])}
    for _ in range(rng.choice([1, 1, 2])):
        case['rst'].append({'p': rng.choice([11, 17, 29, 31, 37, 59, 101, None]), 'pol': rng.choice(['high', 'low', None, 'High', 'LOW']),
                            'st': rng.choice([0, 0, 1, 2, 3])})
    return case


def tm():
    return vg.EmbeddedNumeric('$time')


def mon(m, name, sig):
    for e, c in ((vg.Posedge, 'R'), (vg.Negedge, 'F')):
        m.Always(e(sig))(vg.Systask('display', '%s %s %%0d' % (c, name), tm()))


def extras(m, case, d):
    """macros, include files and a library module; returns (keywords, expected lines)"""
    kw, want = {}, []
    if case['define']:
        df = []
        if case['define'] in ('flag', 'both', 'str'):
            df.append('FLAG')
            m.EmbeddedCode('`ifdef FLAG\ninitial $display("FLAG set");\n`endif')
            want.append('FLAG set')
        if case['define'] in ('value', 'both'):
            df.append(('VAL', 42))
            m.EmbeddedCode('`ifdef VAL\ninitial $display("VAL %0d", `VAL);\n`endif')
            want.append('VAL 42')
        if case['define'] == 'both':
            df.append(('EMPTY', None))
            m.EmbeddedCode('`ifdef EMPTY\ninitial $display("EMPTY set");\n`endif')
            want.append('EMPTY set')
        kw['define'] = 'FLAG' if case['define'] == 'str' else df
    m.EmbeddedCode('`ifdef NOTGIVEN\ninitial $display("NOTGIVEN set");\n`endif')
    if case['include']:
        inc = os.path.join(d, 'inc')
        os.makedirs(inc, exist_ok=True)
        open(os.path.join(inc, 'x.vh'), 'w').write('localparam FROMINC = 77;\n')
        m.EmbeddedCode('`include "x.vh"\ninitial $display("INC %0d", FROMINC);')
        kw['include'] = inc if case.get('incstr') else [os.path.join(d, 'none'), inc]
        want.append('INC 77')
    if case['lib']:
        lib = os.path.join(d, 'lib')
        os.makedirs(lib, exist_ok=True)
        open(os.path.join(lib, 'libmod.v'), 'w').write('module libmod(output [7:0] y); assign y = 8\'d55; endmodule\n')
        m.EmbeddedCode('wire [7:0] laby;\nlibmod lm(.y(laby));\ninitial begin $display("LIB"); end')
        kw['libdir'] = lib if case.get('libstr') else [lib]
        want.append('LIB')
    return kw, want


def simulate(objs, case, ctx, d, sim_name=None, **kw):
    """through the API, in a scratch working directory; (output, output shown)"""
    cwd = os.getcwd()
    show = io.StringIO()
    os.chdir(d)
    try:
        with contextlib.redirect_stdout(show):
            if sim_name == 'func':
                kw = {k: ([v] if isinstance(v, str) and k in ('include', 'define', 'libdir') else v) for k, v in kw.items()}
                out = simulation.run_iverilog(objs, display=case['display'], **kw)
            else:
                o = {'sim': sim_name} if sim_name else {}
                out = simulation.Simulator(*objs, **o).run(display=case['display'], **kw)
    finally:
        os.chdir(cwd)
    return out, show.getvalue()


def vcd_edges(path, name):
    """rising and falling edges of a scalar"""
    ident, t, r = None, 0, []
    for l in open(path):
        l = l.strip()
        f = l.split()
        if l.startswith('$var') and f[4] == name and ident is None:
            ident = f[3]
        elif l.startswith('#'):
            t = int(l[1:])
        elif ident and l[1:] == ident and l[0] in '01x':
            r.append((t, l[0]))
    return r


def run(case, ctx):
    d = os.path.join(str(ctx.scratch), 'w')
    os.makedirs(d, exist_ok=True)
    (run_iv if case['t'] == 'iv' else run_ver)(case, ctx, d)


def run_iv(case, ctx, d):
    m = vg.Module('tb')
    clks = [m.Reg('CLK%d' % i) for i in range(len(case['h']))]
    rsts = [m.Reg('RST%d' % i) for i in range(len(case['rst']))]
    T = case['T']
    for i, (c, h) in enumerate(zip(clks, case['h'])):
        if h == 5 and i == 0:
            simulation.setup_clock(m, c)
        else:
            simulation.setup_clock(m, c, hperiod=h)
        mon(m, c.name, c)
    want = []
    init = None
    per = []
    for i, (r, s) in enumerate(zip(rsts, case['rst'])):
        p = s['p']
        while p is not None and any(q % h == 0 for h in case['h'] for q in (p, 2 * p)):
            p += 1
        if p is None and any(q % h == 0 for h in case['h'] for q in (100, 200)):
            p = 101
            while any(q % h == 0 for h in case['h'] for q in (p, 2 * p)):
                p += 1
        kw = {}
        if p is not None:
            kw['period'] = p
        if s['pol'] is not None:
            kw['polarity'] = s['pol']
        st = []
        for k in range(s['st']):
            v = m.Reg('v%d_%d' % (i, k), 8)
            st.append(v(17 * i + k + 1))
            m.Always(vg.Posedge(r) if (s['pol'] or 'high').lower() == 'high' else vg.Negedge(r))(vg.Systask('display', 'V v%d_%d %%0d' % (i, k), v))
            want.append('V v%d_%d %d' % (i, k, 17 * i + k + 1))
        mon(m, r.name, r)
        ini = simulation.setup_reset(m, r, *([st] if k_list(i) else st), **kw)
        p = 100 if p is None else p
        per.append(p)
        pos = (s['pol'] or 'high').lower() == 'high'
        # x -> inactive level at time 0 is an edge, too
        for t, v in ((0, not pos), (p, pos), (2 * p, not pos)):
            want.append('%s %s %d' % ('R' if v else 'F', r.name, t))
        if i == 0:
            init = ini
    t = 2 * per[0]
    h0 = case['h'][0]
    for k in range(case['steps']):
        init.add(*simulation.next_clock(clks[0]))
        init.add(vg.Systask('display', 'S %0d', tm()))
        e = h0
        while e <= t:
            e += 2 * h0
        t = e + 1
        want.append('S %d' % t)
    end = max(t, 2 * max(per)) + T
    init.add(vg.Delay(end - t), vg.Systask('display', 'END %0d', tm()), simulation.finish())
    for c, h in zip(clks, case['h']):
        want.append('F %s 0' % c.name)
        for n, e in enumerate(range(h, end, h)):
            want.append('%s %s %d' % ('R' if n % 2 == 0 else 'F', c.name, e))
    edge_at_end = {'%s %s %d' % (('R' if (end // h) % 2 else 'F'), c.name, end) for c, h in zip(clks, case['h']) if end % h == 0}
    want.append('END %d' % end)
    kw, w = extras(m, case, d)
    want += w
    vcd = None
    if case['vcd']:
        vcd = os.path.join(d, 'wave.vcd')
        simulation.setup_waveform(m, m.get_vars(), dumpfile=vcd)
    objs = [m]
    other = vg.Module('other')
    other.Initial(vg.Systask('display', 'OTHER'), vg.Systask('finish'))
    if case['strobj']:
        objs.append('module unused(input a, output b); assign b = a; endmodule\n')
    if case['top'] == 'second':
        objs.insert(0, other)
        kw['top'] = m
    elif case['top'] == 'mod':
        objs.append(other)
        kw['top'] = m
    elif case['top'] == 'str':
        kw['top'] = 'tb'
        if case['strobj']:
            objs.reverse()
    if case['out']:
        kw['outputfile'] = os.path.join(d, 'image.out')
    fail = case['fail']
    if fail == 'syntax':
        m.EmbeddedCode('this is not verilog')
    elif fail == 'nomod':
        m.EmbeddedCode('no_such_module nsm(.a(1));')
    elif fail == 'fatal':
        m.EmbeddedCode('initial begin #3 $fatal; end')
    elif fail == 'notop':
        kw['top'] = 'no_such_top'
    data = {'code': m.to_verilog()}
    try:
        out, shown = simulate(objs, case, ctx, d, case['sim'], **kw)
    except subprocess.CalledProcessError as e:
        if fail:
            ctx.ev('failures_reported')
            ctx.sig('fail', fail, case['display'])
            return
        raise Violation('run-failed', 'the simulator run failed: %s' % e, **data)
    ctx.ev('icarus_runs')
    if fail:
        raise Violation('failure-silent', 'a failing run (%s) returned %r' % (fail, out[:300]), **data)
    got = [l for l in out.splitlines() if not l.startswith('VCD info') and '$finish called' not in l]
    if case['display'] and shown.splitlines() != out.splitlines():
        raise Violation('display', 'what is shown differs from what is returned', shown=shown, out=out, **data)
    # x -> level at time 0 is seen or not, depending on the order of the initial blocks
    zero = lambda x: x[:2] in ('R ', 'F ') and x.endswith(' 0')
    got = [x for x in got if x not in edge_at_end and not zero(x)]
    want = [x for x in want if not zero(x)]
    if sorted(got) != sorted(want):
        a, b = set(got), set(want)
        raise Violation('events', 'printed but not expected %s; expected but not printed %s' % (sorted(a - b)[:8], sorted(b - a)[:8]), out=out, want=want, **data)
    ts = [int(l.split()[-1]) for l in got if l[0] in 'RFS' and l[1] == ' ']
    if ts != sorted(ts):
        raise Violation('order', 'events are printed out of order', out=out, **data)
    ctx.ev('edges_checked', len(ts))
    for k, e in (('define', 'macro_runs'), ('include', 'include_runs'), ('lib', 'library_runs')):
        if case[k]:
            ctx.ev(e)
    if vcd:
        if not os.path.exists(vcd):
            raise Violation('no-waveform', 'no waveform file was written', **data)
        for c, h in zip(clks, case['h']):
            e = [t for t, v in vcd_edges(vcd, c.name) if v in '01']
            if e[:-1] != list(range(0, end, h))[:len(e) - 1] or len(e) < end // h:
                raise Violation('waveform', 'edges of %s in the waveform: %s' % (c.name, e[:10]), **data)
            ctx.ev('vcd_edges', len(e))
    # a direct run of the emitted text
    if not case['include'] and not case['lib'] and not case['define']:
        direct = sim.iverilog(m.to_verilog(), 'tb', ctx).lines
        direct = [l for l in direct if not l.startswith('VCD info') and '$finish called' not in l and l not in edge_at_end and not zero(l)]
        if direct != got:
            raise Violation('direct-run', 'the emitted text run directly prints something else', out=out, direct=direct, **data)
        ctx.ev('direct_runs')
    ctx.evaluations += 1
    ctx.sig('iv', tuple(case['h']), tuple(per), case['top'], case['sim'])
    ctx.sample = {'clocks': case['h'], 'resets': case['rst'], 'lines': len(got)}


def k_list(i):
    return i % 2 == 0


def run_ver(case, ctx, d):
    def build():
        sub = vg.Module('dut')
        clk, rst = sub.Input('CLK'), sub.Input('RST')
        on = 1 if case['pol'] == 'high' else 0
        cnt = sub.Reg('cnt', 32, initval=0)
        armed = sub.Reg('armed', initval=0)
        acc = sub.Reg('acc', 32, initval=0)
        sub.Always(vg.Posedge(clk))(
            vg.If(rst == on)(cnt(0), armed(1), acc(3)).Else(
                cnt(cnt + 1), acc(acc * 5 + case['inc']),
                vg.If(armed)(vg.Systask('display', 'D %0d %0d', cnt, acc), vg.If(cnt == case['lim'])(vg.Systask('finish')))))
        m = vg.Module('tb')
        c = m.Reg('CLK')
        r = m.Reg('RST')
        a = m.Reg('pre', 8)
        m.Instance(sub, 'u', ports=[('CLK', c), ('RST', r)])
        m.Always(vg.Posedge(c))(vg.If(r == on)(vg.Systask('display', 'P %0d', a)))
        n = m.Reg('n', 32)
        m.Initial(n(0))
        if case['simtime']:
            m.Always(vg.Posedge(c))(n(n + 1), vg.Systask('display', 'N %0d', n))
        simulation.setup_clock(m, c, hperiod=case['h'])
        ini = simulation.setup_reset(m, r, a(91), sub_reset(sub), period=case['p'], polarity=case['pol'])
        ini.add(vg.Delay(case['p'] * 10 + case['h'] * 2 * 200), vg.Systask('finish'))
        return m, sub

    def sub_reset(sub):
        return []
    m, sub = build()
    kw, want = extras(m, case, d)
    if case['vcd']:
        vcd = os.path.join(d, 'wave.vcd')
        simulation.setup_waveform(m, m.get_vars(), dumpfile=vcd)
    objs = [m]
    if case['extra']:
        objs.append('module unused(input a, output b); assign b = a; endmodule\n')
    if case['top'] == 'mod':
        kw['top'] = m
    elif case['top'] == 'str':
        kw['top'] = 'tb'
        if case['extra']:
            objs.reverse()
    if case['opt'] == 'str':
        kw['options'] = '-O2'
    elif case['opt'] == 'list':
        kw['options'] = ['-O2', '-Wno-fatal']
    if case['out']:
        kw['outputfile'] = os.path.join(d, 'objdir')
    H2 = 2 * case['h']
    first = -(-2 * case['p'] // H2) * H2  # first rising edge after the reset
    stop = None
    if case['simtime']:
        stop = first + H2 * (case['lim'] // 2) + 1
        kw['sim_time'] = stop
    if case['fail']:
        m.EmbeddedCode('this is not verilog')
    code = m.to_verilog()
    data = {'code': code}
    try:
        out, shown = simulate(objs, case, ctx, d, 'verilator', **kw)
    except subprocess.CalledProcessError as e:
        if case['fail']:
            ctx.ev('failures_reported')
            return
        raise Violation('verilator-run-failed', 'the Verilator run failed: %s' % e, **data)
    if case['fail']:
        raise Violation('failure-silent', 'a failing Verilator run returned %r' % out[:300], **data)
    ctx.ev('verilator_runs')
    lines = out.splitlines()
    got = [l for l in lines if l.startswith('D ')]
    if stop is None:
        m2, _ = build()
        extras(m2, dict(case, lib=False, include=False, define=None), d)
        ref = [l for l in sim.iverilog(m2.to_verilog(), 'tb', ctx).lines if l.startswith('D ')]
        if len(ref) != case['lim'] + 1:
            raise Inconclusive('reference run %s' % ref[:3])
        if case['p'] % H2 == 0:
            raise Inconclusive('edges coincide')
        if got != ref:
            raise Violation('backends-differ', 'Verilator prints %s, Icarus %s' % (got[:6] + got[-2:], ref[:6] + ref[-2:]), **data)
    else:
        acc, ref = 3, []
        for c in range(case['lim'] // 2 + 1):
            ref.append('D %d %d' % (c, acc))
            acc = (acc * 5 + case['inc']) & 0xffffffff
        if got != ref:
            raise Violation('sim-time', 'with sim_time %d Verilator prints %d lines (%s), want %d (%s)' % (stop, len(got), got[-2:], len(ref), ref[-2:]), **data)
        nn = [l for l in lines if l.startswith('N ')]
        if nn != ['N %d' % i for i in range(stop // H2 + 1)]:
            raise Violation('sim-time-cycles', '%d clock cycles, want %d' % (len(nn), stop // H2 + 1), **data)
    pp = [l for l in lines if l.startswith('P ')]
    if not pp or any(l != 'P 91' for l in pp):
        raise Violation('prior-statements', 'the statements before the reset: %s' % pp[:5], **data)
    for w in want:
        if w not in lines:
            raise Violation('setting-lost', '%r is not printed' % w, out=out, **data)
    if any('NOTGIVEN' in l for l in lines):
        raise Violation('setting-invented', 'a macro that was not given is defined', out=out, **data)
    if case['display'] and not shown:
        raise Violation('display', 'nothing was shown', **data)
    if case['vcd'] and not (os.path.exists(vcd) and os.path.getsize(vcd)):
        raise Violation('no-waveform', 'no waveform file was written', **data)
    ctx.ev('verilator_lines', len(got))
    ctx.evaluations += 1
    ctx.sig('ver', case['h'], case['p'], case['pol'], case['define'], case['opt'])
    ctx.sample = {'verilator': case['h'], 'lines': len(got)}
