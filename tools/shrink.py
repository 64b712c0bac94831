"""greedy reduction of a violating case: tools/shrink.py REPLAY.json"""
import copy, importlib, json, os, shutil, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import harness
d = json.load(open(sys.argv[1]))
mod = importlib.import_module('checks.%s' % d['property'].lower())
root = tempfile.mkdtemp(prefix='shrink_')
if hasattr(mod, 'setup'):
    mod.setup(root)
pool = harness.Pool(mod, root, 8, 60)
want = d['mech']


def batch(cases):
    res = {}
    todo = list(enumerate(cases))[::-1]
    while todo or pool.active:
        while todo and len(pool.active) < 8:
            i, c = todo.pop()
            pool.start(i, c)
        k, c, out = pool.wait_one()
        res[k] = out['status'] == 'violation' and out['mech'] == want
        if res[k]:
            break
    hit = [k for k in res if res[k]]
    pool.stop()
    return hit[0] if hit else None


def paths(x, p=()):
    if isinstance(x, dict):
        for k in x:
            yield from paths(x[k], p + (k,))
    elif isinstance(x, list):
        for i in range(len(x)):
            yield p + (i,)
        for i in range(len(x)):
            yield from paths(x[i], p + (i,))


def variants(case):
    for p in paths(case):
        # delete element
        c = copy.deepcopy(case)
        t = c
        for k in p[:-1]:
            t = t[k]
        e = t.pop(p[-1])
        yield c
        if isinstance(e, list):
            for s in e:
                if isinstance(s, list) and s and isinstance(s[0], str):
                    c2 = copy.deepcopy(case)
                    t = c2
                    for k in p[:-1]:
                        t = t[k]
                    t[p[-1]] = s
                    yield c2


case = d['case']
while True:
    vs = []
    for c in variants(case):
        vs.append(c)
    found = None
    for i in range(0, len(vs), 64):
        h = batch(vs[i:i + 64])
        if h is not None:
            found = vs[i + h]
            break
    if found is None:
        break
    case = found
    print(len(json.dumps(case)), flush=True)
shutil.rmtree(root)
d['case'] = case
json.dump(d, open(sys.argv[1] + '.min', 'w'), indent=1)
print(json.dumps(case))
