"""Run Verilog text under Icarus Verilog in the case's scratch directory."""
import os
import subprocess
from vlib.harness import Violation, Inconclusive

_n = [0]


class SimResult:
    __slots__ = ('out', 'lines', 'rc', 'err')

    def __init__(self, out, rc, err):
        self.out = out
        self.lines = out.splitlines()
        self.rc = rc
        self.err = err


def iverilog(code, top, ctx, timeout=90, reject_is_violation=True, args=(), mech='rejected'):
    """compile+run; a compile error on emitted text is a violation (the emitted
    text is not the design), unless reject_is_violation is False."""
    _n[0] += 1
    base = os.path.join(ctx.scratch, 'sim%d' % _n[0])
    with open(base + '.v', 'w') as f:
        f.write(code)
    try:
        p = subprocess.run(['iverilog', '-g2005'] + list(args) + ['-s', top, '-o', base + '.vvp', base + '.v'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=ctx.scratch, env=dict(os.environ, TMPDIR=ctx.scratch))
    except subprocess.TimeoutExpired:
        raise Inconclusive('iverilog compile timeout')
    if p.returncode != 0 or not os.path.exists(base + '.vvp'):
        msg = p.stdout.decode(errors='replace')
        if 'failed assertion' in msg or p.returncode < 0 or 'internal error' in msg.lower():
            raise Inconclusive('simulator crash: ' + msg[:200])
        if reject_is_violation:
            raise Violation(mech, 'emitted Verilog rejected by iverilog:\n' + msg[:1500], code=code)
        return SimResult(msg, p.returncode, msg)
    try:
        q = subprocess.run(['vvp', '-n', base + '.vvp'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, cwd=ctx.scratch)
    except subprocess.TimeoutExpired:
        raise Inconclusive('vvp timeout')
    ctx.ev('simulations')
    return SimResult(q.stdout.decode(errors='replace'), q.returncode, p.stdout.decode(errors='replace'))


def sext(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) & 1 else v


def to_int(bits, signed=False):
    """binary string -> int or None if it has x/z"""
    bits = bits.strip()
    if any(c not in '01' for c in bits):
        return None
    v = int(bits, 2)
    if signed and bits[0] == '1':
        v -= 1 << len(bits)
    return v
