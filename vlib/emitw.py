"""Worker of C06 (runs under a chosen PYTHONHASHSEED): builds programs fresh (in a forked child) and in a sequence with global
resets, emits them repeatedly and records every emitted text. argv: job.json out.json"""
import hashlib
import importlib.util
import inspect
import io
import json
import os
import random
import re
import signal
import sys
import traceback

job = json.load(open(sys.argv[1]))
os.chdir(job['cwd'])
sys.setrecursionlimit(20000)
import veriloggen as vg
import veriloggen.core.module as vmod
import veriloggen.verilog.to_verilog as tv
assert vg.__file__.startswith('/repo/'), vg.__file__

if job['nosim']:
    pass
_n = [0]


class Abort(Exception):
    pass


def load(p):
    _n[0] += 1
    name = 'prog%d_' % _n[0] if p['kind'] == 'src' else os.path.splitext(os.path.basename(p['path']))[0]
    path = p['path']
    d = os.path.dirname(path)
    before = set(sys.modules)
    sys.path.insert(0, d)
    try:
        spec = importlib.util.spec_from_file_location(name, path)
        mod = importlib.util.module_from_spec(spec)
        sys.modules[name] = mod
        spec.loader.exec_module(mod)
    finally:
        while d in sys.path:
            sys.path.remove(d)
    fns = [(v.__code__.co_firstlineno, k) for k, v in vars(mod).items()
           if inspect.isfunction(v) and v.__module__ == name and k.startswith('mk') and
           all(q.default is not q.empty for q in inspect.signature(v).parameters.values())]
    fn = getattr(mod, p.get('fn') or max(fns)[1])
    # design helpers of a test directory must not stay cached for the next program
    p['_new'] = [k for k in sys.modules if k not in before and getattr(sys.modules[k], '__file__', '') and
                 not sys.modules[k].__file__.startswith(('/repo/veriloggen', '/usr', '/opt'))]
    return fn


def build(p):
    m = load(p)()
    for k in p['_new']:
        sys.modules.pop(k, None)
    if isinstance(m, (tuple, list)):
        m = m[0]
    return m


def put(text):
    # the random temporary file name chosen for an unnamed memory image is an input from the outside
    text = re.sub(r'memimg_[a-z0-9_]{8}\.out', 'memimg_X.out', text)
    h = hashlib.md5(text.encode()).hexdigest()
    f = os.path.join(job['cwd'], 'txt_' + h)
    if not os.path.exists(f):
        with open(f, 'w') as o:
            o.write(text)
    return h


def subs(m, rng):
    ms = [x for x in m.get_modules().values() if x is not m]
    rng.shuffle(ms)
    return ms


def fresh(p):
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            signal.alarm(100)
            h = put(build(p).to_verilog())
        except BaseException as e:
            h = 'EXC ' + ''.join(traceback.format_exception_only(type(e), e))[:300]
        os.write(w, h.encode())
        os._exit(0)
    os.close(w)
    b = b''
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        b += x
    os.close(r)
    os.waitpid(pid, 0)
    return b.decode()


res = {'fresh': {}, 'seq': [], 'inplace': []}
rng = random.Random(job['seed'])
devnull = open(os.devnull, 'w')
sys.stdout = devnull
for i, p in enumerate(job['programs']):
    res['fresh'][i] = fresh(p)
keep = []
hold = []
for step in job['order']:
    i, act = step
    p = job['programs'][i]
    vg.reset()
    # perturb the heap layout (identity-ordered containers) and keep earlier designs alive for a while
    keep.append([object() for _ in range(rng.randint(0, 3000))])
    if rng.random() < .5:
        keep.pop(0)
    rec = {'i': i, 'act': act, 'texts': []}
    try:
        if act == 'abort':
            n = [rng.randint(3, 120)]
            old = vmod.Module.add_object

            def bomb(self, obj):
                n[0] -= 1
                if n[0] < 0:
                    raise Abort()
                return old(self, obj)
            vmod.Module.add_object = bomb
            try:
                build(p)
                rec['aborted'] = False
            except Exception:
                rec['aborted'] = True
            finally:
                vmod.Module.add_object = old
            res['seq'].append(rec)
            continue
        m = build(p)
        hold.append(m)
        if len(hold) > 3:
            hold.pop(0)
        ss = subs(m, rng)
        if act == 'subs_first':
            rec['sub'] = {}
            for x in ss:
                rec['sub'][x.name] = [put(x.to_verilog())]
            rec['texts'].append(put(m.to_verilog()))
            for x in ss:
                rec['sub'][x.name].append(put(x.to_verilog()))
        elif act == 'verilator':
            m.to_verilog(for_verilator=True)
            rec['texts'].append(put(m.to_verilog()))
        elif act == 'file':
            f = os.path.join(job['cwd'], 'out_%d.v' % rng.randint(0, 10 ** 9))
            r1 = m.to_verilog(f)
            if os.path.exists(f):
                rec['file'] = put(open(f).read())
            rec['texts'].append(put(r1))
        elif act == 'str':
            # queries that only look at the design
            for q in ('get_io_names', 'get_ports', 'get_params', 'get_vars', 'get_modules', 'get_opened_params', 'has_hook'):
                f = getattr(m, q, None)
                if f is not None:
                    try:
                        f()
                    except Exception:
                        pass
            str(m), repr(m), m == m
            try:
                hash(m)
            except TypeError:
                pass
        elif act == 'held' and len(hold) > 1:
            # emit an earlier design again while this one is alive
            try:
                hold[0].to_verilog()
            except Exception as e:
                rec['held_exc'] = repr(e)
        rec['texts'].append(put(m.to_verilog()))
        if act == 'again':
            for _ in range(3):
                rec['texts'].append(put(m.to_verilog()))
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        own = [t for t in tb if '/veriloggen/' in t.filename]
        rec['exc'] = '%s@%s' % (type(e).__name__, (os.path.basename(own[-1].filename) + ':' + own[-1].name) if own else '?')
        rec['msg'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
    res['seq'].append(rec)
json.dump(res, open(sys.argv[2], 'w'))
