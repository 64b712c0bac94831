"""shrink a C19/C20 replay: first node (in order) which alone fails, with only its ancestors"""
import copy, json, os, sys, importlib, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)

from vlib import harness, strm
fs = [os.path.abspath(f) for f in sys.argv[1:]]
os.chdir('/tmp')
for f in fs:
    d = json.load(open(f if f.startswith('/') else V + '/' + f))
    mod = importlib.import_module('checks.%s' % d['property'].lower())
    root = tempfile.mkdtemp(prefix='shrink_')
    pool = harness.Pool(mod, root, 8, 60)
    c = d['case']
    cand = []
    for j, n in enumerate(c['nodes']):
        if n['op'] in ('var', 'param', 'const'):
            continue
        keep = []
        todo = [j]
        while todo:
            x = todo.pop()
            if x not in keep:
                keep.append(x)
                todo += c['nodes'][x].get('a', [])
        keep.sort()
        mp = {o: i for i, o in enumerate(keep)}
        nn = []
        for o in keep:
            y = copy.deepcopy(c['nodes'][o])
            if 'a' in y:
                y['a'] = [mp[z] for z in y['a']]
            nn.append(y)
        cc = dict(c, nodes=nn, outs=[mp[j]])
        cand.append(cc)
    res = {}
    todo = list(enumerate(cand))[::-1]
    while todo or pool.active:
        while todo and len(pool.active) < 8:
            pool.start(*todo.pop())
        k, cc, out = pool.wait_one()
        res[k] = out
    pool.stop()
    bad = [k for k in sorted(res) if res[k]['status'] == 'violation']
    if not bad:
        print(f, 'NOT REPRODUCED with one output')
        continue
    b = min(bad, key=lambda k: len(cand[k]['nodes']))
    print(f, cand[b]['hs'], res[b]['mech'], res[b]['msg'][:200].replace('\n', ' '))
    at = []
    for i, n in enumerate(cand[b]['nodes']):
        at.append(strm.attr(n, at))
        print('   ', i, {k: v for k, v in n.items() if k not in ('py', 'hist')}, at[-1])
    json.dump(dict(d, case=cand[b]), open(f.replace('.json', '.min.json'), 'w'))
