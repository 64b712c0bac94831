"""Cycle-accurate stimulus/trace driver: inputs change just after a clock edge,
outputs (and hierarchical peeks) are sampled just before the next one."""
import os
from vlib.harness import Violation, Inconclusive
from vlib.sim import iverilog


def trace(code, top, ins, outs, stim, ctx, clk='CLK', timeout=90, peeks=(), args=(), extra='', maxlines=None, after=()):
    """ins/outs: [(name, width)]; stim: list of dicts name->int, one per cycle.
    -> list of dicts name -> bit string (sampled before the edge that ends the cycle)"""
    n = len(stim)
    W = sum(w for _, w in ins) or 1
    path = os.path.join(ctx.scratch, 'stim%d.hex' % id(stim))
    with open(path, 'w') as f:
        for s in stim:
            v = 0
            for name, w in ins:
                v = v << w | (s.get(name, 0) & ((1 << w) - 1))
            f.write('%x\n' % v)
    L = ['`timescale 1ns/1ps', 'module tb__;', 'reg %s;' % clk, 'integer i__;', 'reg [%d:0] mem__ [0:%d];' % (W - 1, max(n - 1, 0))]
    for name, w in ins:
        L.append('reg [%d:0] %s;' % (w - 1, name))
    for name, w in outs:
        L.append('wire [%d:0] %s;' % (w - 1, name))
    L.append('%s dut__(%s);' % (top, ', '.join('.%s(%s)' % (p, p) for p in [clk] + [x for x, _ in list(ins) + list(outs)])))
    L.append('initial begin %s = 0; $readmemh("%s", mem__);' % (clk, path))
    names = [x for x, _ in outs] + [x for x, _ in peeks]
    exprs = [x for x, _ in outs] + ['dut__.' + p for _, p in peeks]
    L.append('for (i__ = 0; i__ < %d; i__ = i__ + 1) begin' % n)
    if ins:
        L.append('{%s} = mem__[i__];' % ', '.join(x for x, _ in ins))
    if exprs:
        L.append('#4 $display("T %%0d%s", i__, %s);' % (' %b' * len(exprs), ', '.join(exprs)))
    else:
        L.append('#4;')
    L.append('#1 %s = 1; #5 %s = 0; #0;' % (clk, clk))
    L.append('end $finish; end')
    L.append(extra)
    L.append('endmodule')
    r = iverilog(code + '\n' + '\n'.join(L), 'tb__', ctx, timeout=timeout, args=args)
    rows = []
    other = []
    for line in r.lines:
        if line.startswith('T '):
            f = line.split()
            rows.append(dict(zip(names, f[2:])))
        else:
            other.append(line)
    if len(rows) != n and exprs:
        raise Violation('silent', 'simulation stopped after %d of %d cycles: %s' % (len(rows), n, r.out[-500:]), code=code)
    ctx.ev('cycles', n)
    return rows, other


def b2i(bits):
    if bits is None or any(c not in '01' for c in bits):
        return None
    return int(bits, 2)
