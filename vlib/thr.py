"""Load a generated thread program from source text and simulate it with cycle stamps."""
import importlib.util
import os
import sys
import veriloggen
from vlib.harness import Inconclusive
from vlib.sim import iverilog


def load(lines, ctx, name='prog_'):
    src = '\n'.join(lines) + '\n'
    path = os.path.join(ctx.scratch, name + '.py')
    with open(path, 'w') as f:
        f.write(src)
    compile(src, path, 'exec')
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
    return mod, src


def add_done(m, fsms, name='done_'):
    o = m.Output(name)
    d = None
    for f in fsms:
        c = f.state == f.current
        d = c if d is None else veriloggen.Land(d, c)
    o.assign(d if d is not None else 1)
    return o


class Log:
    """cycles: list of dicts (peeks before edge i); ev: [(cycle, words)]"""
    def __init__(self):
        self.cycles = []
        self.ev = []
        self.done = False
        self.text = ''


def simulate(m, fsms, ctx, maxcyc=20000, settle=60, peeks=(), decl='', conn='', body='', timeout=120, code=None, args=(), wait='done_', tail=''):
    """peeks: [(label, hierarchical expr under dut)] printed before every edge (b format). decl/conn/body: extra testbench
    text (declarations, port connections `.p(p)`, statements executed after the inputs of a cycle are due: use i__)."""
    if code is None:
        add_done(m, fsms)
        code = m.to_verilog()
    names = [p[0] for p in peeks]
    ex = [p[1] for p in peeks]
    tb = ['module tb__; reg CLK, RST; wire done_; integer i__, f__;', decl,
          m.name + ' dut(.CLK(CLK), .RST(RST), .done_(done_)%s);' % ((', ' + conn) if conn else ''),
          'initial begin CLK = 0; RST = 1; f__ = 0; #5 CLK=1; #5 CLK=0; #5 CLK=1; #5 CLK=0; RST = 0;',
          'for (i__ = 0; i__ < %d && f__ < %d; i__ = i__ + 1) begin' % (maxcyc, settle), body,
          '#2 $display("@%%0d%s", i__%s); #3 CLK = 1; #5 CLK = 0; ' % (' %b' * len(ex), ''.join(', ' + e for e in ex)),
          'if (%s === 1) f__ = f__ + 1; else f__ = 0; end' % wait, '$display("@TAIL");', tail,
          '$display("@END %0d", f__); $finish(0); end endmodule']
    r = iverilog(code + '\n' + '\n'.join(tb), 'tb__', ctx, timeout=timeout, args=args)
    L = Log()
    L.code = code
    cyc = -1
    fin = None
    for line in r.lines:
        if line.startswith('@END'):
            fin = int(line.split()[1])
        elif line.startswith('@TAIL'):
            cyc = 10 ** 9
        elif line.startswith('@'):
            f = line[1:].split()
            cyc = int(f[0])
            L.cycles.append(dict(zip(names, f[1:])))
        else:
            L.ev.append((cyc, line.split()))
    if fin is None:
        raise Inconclusive('simulation did not end: ' + r.out[-400:])
    L.done = fin >= settle
    L.ncyc = len(L.cycles)
    L.text = '\n'.join('%5d %s' % (c, ' '.join(l)) for c, l in L.ev[:400] if c < 10 ** 9)
    ctx.ev('cycles', L.ncyc)
    return L
