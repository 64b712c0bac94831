"""C04: Verilog import. Random Verilog sources (and designs emitted by the library) are read into Veriloggen modules and emitted again; the
original text and the round-tripped text are simulated under the same stimulus and must give the same trace."""
import importlib
import os
import random
import re
import sys
import veriloggen
from veriloggen import Module
from vlib.harness import Violation, Inconclusive
from vlib import sim
from vlib.trace import trace
from vlib.vgen import Gen

PID = 'C04'
RULE = ('a case is a random Verilog source (port styles, parameters, ranges, memories, all operators and literal forms, combinational and clocked '
        'blocks, case/casex/casez, loops, functions, generate structures, instances with every connection style, initial blocks, preprocessor '
        'definitions) or a design emitted by the library itself (statement programs, hierarchies, sequences, state machines, memories, streams, '
        'pipelines), which is imported and emitted again, imported as a stub, or instantiated from Python; original and result are simulated under '
        'the same stimulus and every output and message of every cycle is compared; distinct = constructs used')
ASSUMPTIONS = ['iverilog simulates both texts faithfully', 'the source is inside what the installed Verilog parser reads (no task calls, no indexed part selects, no signed functions)']
MIN_EVENTS = {'outputs': 5000, 'sources': 60, 'library': 25, 'stubs': 8, 'wrapped': 8, 'generates': 25, 'instances': 60, 'cases': 60, 'functions': 25, 'memories': 25}
LIB = ['C03', 'C03', 'C05', 'C05', 'C07', 'C08', 'C12', 'C13', 'C19', 'C24', 'C25']


def setup(root):
    """generate the parser tables once (they are written to the working directory); forked cases inherit them"""
    d = os.path.join(root, 'ply')
    os.mkdir(d)
    os.chdir(d)
    sys.path.insert(0, d)
    from veriloggen.verilog.from_verilog import read_verilog_module_str
    for _ in range(2):
        read_verilog_module_str('module m(input a, output b); assign b = a; endmodule')


def counts(tier):
    return 150 if tier == 'quick' else 5000


def gen(rng, i, tier):
    x = rng.random()
    if x < .25:
        pid = rng.choice(LIB)
        m = importlib.import_module('checks.' + pid.lower())
        c = m.gen(rng, i, tier)
        return {'mode': 'lib', 'pid': pid, 'case': c}
    return {'mode': 'text' if x < .8 else 'stub' if x < .9 else 'wrap', 'seed': rng.getrandbits(32), 'file': rng.random() < .3}


def directed():
    return []


def roots(mods):
    used = set()
    for m in mods.values():
        for inst in m.instance.values() if hasattr(m.instance, 'values') else m.instance:
            used.add(inst.module.name)
    return [n for n in mods if n not in used]


def dedupe(texts):
    seen, out = {}, []
    for t in texts:
        for p in re.split(r'(?<=\bendmodule\b)', t):
            k = re.search(r'\bmodule\s+(\w+)', p)
            if k and k.group(1) not in seen:
                seen[k.group(1)] = p
                out.append(p)
            elif k and seen[k.group(1)].split() != p.split():
                raise Violation('two-texts', 'module %s was emitted in two forms:\n%s\n---\n%s' % (k.group(1), seen[k.group(1)], p))
    return '\n'.join(out)


def load(code, ctx, file=False, stub=False, define=None):
    from veriloggen.verilog import from_verilog as fv
    if file:
        p = os.path.join(ctx.scratch, 'src.v')
        open(p, 'w').write(code)
        f = fv.read_verilog_stubmodule if stub else fv.read_verilog_module
        return f(p, define=define) if define else f(p)
    f = fv.read_verilog_stubmodule_str if stub else fv.read_verilog_module_str
    return f(code)


def roundtrip(code, ctx, file=False, define=None):
    from pyverilog.vparser.parser import ParseError
    try:
        mods = load(code, ctx, file, False, define)
    except ParseError as e:
        raise Inconclusive('parser: %s' % str(e)[:200])
    t = dedupe([mods[n].to_verilog() for n in mods])
    for n in mods:
        if not re.search(r'\bmodule\s+%s\b' % n, t):
            raise Violation('lost-module', 'module %s is not emitted' % n, code=code)
    ctx.evaluations += 1
    return t


def strip(lines):
    return [x for x in lines if '$finish called' not in x]


SPLIT = re.compile(r'(`timescale[^\n]*\n)?module (tb__|tb|shell__)\b')


def run_lib(case, ctx):
    m = importlib.import_module('checks.' + case['pid'].lower())
    real = sim.iverilog
    found = []

    def both(code, top, c, *a, **k):
        r = real(code, top, c, *a, **k)
        s = SPLIT.search(code)
        if s and r.rc == 0 and not k.get('args'):
            t = roundtrip(code[:s.start()], ctx)
            k['reject_is_violation'] = False
            q = real(t + '\n' + code[s.start():], top, c, *a, **k)
            if q.err and not r.err and 'error' in q.err:
                found.append(Violation('rejected', 'round-tripped text does not compile:\n' + q.err[:1500], code=code, result=t))
                raise found[0]
            A, B = strip(r.lines), strip(q.lines)
            if A != B:
                for x, y in zip(A + ['<end>'], B + ['<end>']):
                    if x != y:
                        break
                found.append(Violation('trace:' + case['pid'], 'original: %s\nround trip: %s' % (x, y), code=code, result=t))
                raise found[0]
            ctx.ev('library')
            ctx.ev('outputs', len(r.lines))
        return r
    class Sub(type(ctx)):
        pass
    from vlib import trace as T, thr, elastic
    for x in (T, thr, elastic, m):
        if hasattr(x, 'iverilog'):
            x.iverilog = both
    c2 = type(ctx)(ctx.scratch)
    try:
        m.run(case['case'], c2)
    except Violation as v:
        if v in found or any(v is f for f in found):
            raise
        raise Inconclusive('not judged here: %s' % v.mech)
    ctx.sig('lib', case['pid'], repr(case['case'])[:200])
    ctx.sample = {'mode': 'lib', 'of': case['pid']}


def run(case, ctx):
    if case['mode'] == 'lib':
        return run_lib(case, ctx)
    g = Gen(random.Random(case['seed']), reginit=case['mode'] != 'stub')
    g.sv &= case['mode'] != 'stub'
    code, top, ins, outs, stim = g.source()
    ctx.sig(*sorted(g.used))
    ctx.sample = {'mode': case['mode'], 'constructs': sorted(g.used)[:30]}
    try:
        rows, other = trace(code, top, ins, outs, stim, ctx, args=('-g2012',) if g.sv else ())
    except Violation as v:
        raise Inconclusive('generated source: ' + v.msg[:300])
    for k, n in g.count.items():
        ctx.ev(k, n)
    if case['mode'] == 'text':
        ctx.ev('sources')
        new, ntop = roundtrip(code, ctx, case['file']), top
    else:
        mods = load(code, ctx, case['file'], case['mode'] == 'stub')
        m = Module('wrap_top')
        ports = [('CLK', m.Input('CLK'))] + [(n, m.Input(n, w)) for n, w in ins] + [(n, m.Output(n, w)) for n, w in outs]
        m.Instance(mods[top], 'u_top', ports=ports)
        new, ntop = m.to_verilog(), 'wrap_top'
        ctx.evaluations += 1
        if case['mode'] == 'stub':
            for n in mods:
                if n != top and not re.search(r'\bmodule\s+%s\b' % n, new):
                    new += '\n' + mods[n].to_verilog()
            ctx.ev('stubs')
        else:
            ctx.ev('wrapped')
    try:
        rows2, other2 = trace(new, ntop, ins, outs, stim, ctx)
    except Violation as v:
        raise Violation('rejected', v.msg, code=code, result=new)
    for t, (a, b) in enumerate(zip(rows, rows2)):
        for n, _ in outs:
            ctx.ev('outputs')
            if a[n] != b[n]:
                raise Violation('trace', 'cycle %d: %s is %s in the original, %s after the round trip' % (t, n, a[n], b[n]), code=code, result=new)
    other, other2 = strip(other), strip(other2)
    if other != other2:
        raise Violation('messages', 'messages differ: %s / %s' % (other[:10], other2[:10]), code=code, result=new)
