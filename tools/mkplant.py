"""mkplant.py: define a planted bug.  python3 mkplant.py SPEC.py ; SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new[, nth])], DEMO (python source)"""
import sys, os, json, subprocess, shutil
H = '''"""helpers of the demonstrations: simulate a module in a scratch directory"""
import os, subprocess, tempfile, shutil


def sim(code, top='tb', timeout=60):
    d = tempfile.mkdtemp()
    try:
        with open(os.path.join(d, 'a.v'), 'w') as f:
            f.write(code)
        subprocess.run(['iverilog', '-g2005', '-o', 'a.out', '-s', top, 'a.v'], cwd=d, check=True)
        return subprocess.run(['vvp', '-N', 'a.out'], cwd=d, capture_output=True, text=True, timeout=timeout).stdout
    finally:
        shutil.rmtree(d)


def bench(m, name, body='', maxcyc=3000, conn='', decl=''):
    """clock and reset for module m, which must print and $finish by itself"""
    return m.to_verilog() + """
module tb;
  reg CLK, RST; %s
  %s dut(.CLK(CLK), .RST(RST)%s);
  initial begin CLK = 0; forever #5 CLK = !CLK; end
  initial begin RST = 1; #32 RST = 0; #%d $display("TIMEOUT"); $finish; end
  %s
endmodule
""" % (decl, name, conn, maxcyc * 10, body)
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = '/verif/seeded/' + ns['ID']
os.makedirs(d, exist_ok=True)
W = '/tmp/cp/mk'
shutil.rmtree(W, ignore_errors=True)
os.makedirs('/tmp/cp', exist_ok=True)
subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
subprocess.run(['git', 'clone', '-q', '/repo', W], check=True)
for e in ns['EDITS']:
    p = os.path.join(W, e[0])
    s = open(p).read()
    n = s.count(e[1])
    if n == 0 or (n > 1 and len(e) < 4):
        raise SystemExit('%s: %d occurrences of %r' % (e[0], n, e[1]))
    parts = s.split(e[1])
    k = e[3] if len(e) > 3 else 0
    s = e[1].join(parts[:k + 1]) + e[2] + e[1].join(parts[k + 1:])
    open(p, 'w').write(s)
open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', W, 'diff'], capture_output=True, text=True).stdout)
shutil.rmtree(W)
open(d + '/h.py', 'w').write(H)
open(d + '/demo.py', 'w').write(ns['DEMO'].lstrip('\n'))
open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0 on the unchanged tree\nD=$(cd "$(dirname "$0")" && pwd)\nexport PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo:$D\nW=$(mktemp -d) && trap \'rm -rf "$W"\' EXIT && cd "$W" || exit 1\n/opt/venv/bin/python -W ignore "$D/demo.py"\n')
json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
print(open(d + '/patch.diff').read())
