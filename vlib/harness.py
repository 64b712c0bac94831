"""Check driver: deterministic case generation, fork-isolated execution,
three-valued verdicts, known findings, evidence.

A check module (checks/cNN.py) provides
    PID, LEVEL, RULE, ASSUMPTIONS
    counts(tier)  -> number of random cases
    directed()    -> list of case descriptions always run (JSON-able)
    gen(rng, i, tier) -> case description (JSON-able, fully determines the case)
    run(case, ctx)-> Result
Everything that decides a verdict happens in run(): the real veriloggen code is
executed (construction + emission), its output is simulated, and an oracle
written independently of veriloggen judges the observed events.
"""
import collections
import fnmatch
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    def __init__(self, mech, msg, **data):
        Exception.__init__(self, mech, msg)
        self.mech = mech
        self.msg = msg
        self.data = data


class Inconclusive(Exception):
    pass


class Ctx:
    """per-case services and the record of what the monitors observed"""

    def __init__(self, scratch):
        self.scratch = scratch
        self.events = collections.Counter()
        self.sigs = set()
        self.sample = None
        self.evaluations = 0

    def ev(self, kind, n=1):
        self.events[kind] += n

    def sig(self, *key):
        self.sigs.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def violation(self, mech, msg, **data):
        raise Violation(mech, msg, **data)


def _child(mod, case, path, scratch, timeout):
    os.chdir(scratch)
    os.setpgid(0, 0)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    ctx = Ctx(scratch)
    out = {'status': 'ok', 'mech': None, 'msg': None, 'data': None}
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    try:
        sys.setrecursionlimit(20000)
        mod.run(case, ctx)
    except Violation as v:
        out.update(status='violation', mech=v.mech, msg=v.msg, data=v.data)
    except Inconclusive as e:
        out.update(status='inconclusive', mech='inconclusive', msg=str(e))
    except MemoryError as e:
        out.update(status='inconclusive', mech='memory', msg=str(e))
    except BaseException as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        inrepo = [f for f in tb if '/veriloggen/' in f.filename]
        last = tb[-1] if tb else None
        txt = traceback.format_exc()
        if inrepo:
            # an exception out of the code under test on a design the check
            # regards as legal: the design the user asked for is not produced
            f = inrepo[-1]
            out.update(status='violation',
                       mech='exception:%s:%s:%s' % (type(e).__name__, os.path.basename(f.filename), f.name),
                       msg=txt[-3000:], data={})
        else:
            out.update(status='error', mech='harness', msg=txt[-3000:])
    out['events'] = dict(ctx.events)
    out['sigs'] = ctx.sigs
    out['sample'] = ctx.sample
    out['evaluations'] = ctx.evaluations
    with open(path + '.tmp', 'wb') as f:
        pickle.dump(out, f)
    os.rename(path + '.tmp', path)
    os._exit(0)


class Pool:
    def __init__(self, mod, root, jobs, timeout):
        self.mod, self.root, self.jobs, self.timeout = mod, root, jobs, timeout
        self.active = {}
        self.n = 0

    def start(self, key, case):
        self.n += 1
        scratch = os.path.join(self.root, 'c%d' % self.n)
        os.mkdir(scratch)
        path = os.path.join(self.root, 'r%d' % self.n)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                _child(self.mod, case, path, scratch, self.timeout)
            finally:
                os._exit(3)
        self.active[pid] = (key, case, path, scratch, time.monotonic())

    def _kill(self, pid):
        for f in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
            try:
                f()
            except OSError:
                pass

    def wait_one(self):
        """-> (key, case, out)"""
        delay = 0.001
        while True:
            for pid in list(self.active):
                key, case, path, scratch, t0 = self.active[pid]
                try:
                    r, st = os.waitpid(pid, os.WNOHANG)
                except ChildProcessError:
                    r, st = pid, 0
                if r == pid:
                    del self.active[pid]
                    self._kill(pid)
                    out = None
                    if os.path.exists(path):
                        with open(path, 'rb') as f:
                            out = pickle.load(f)
                        os.unlink(path)
                    else:
                        out = {'status': 'inconclusive', 'mech': 'child-died', 'msg': 'exit status %r' % st,
                               'data': None, 'events': {}, 'sigs': set(), 'sample': None, 'evaluations': 0}
                    shutil.rmtree(scratch, ignore_errors=True)
                    out['wall'] = time.monotonic() - t0
                    return key, case, out
                if time.monotonic() - t0 > self.timeout:
                    self._kill(pid)
                    os.waitpid(pid, 0)
                    del self.active[pid]
                    shutil.rmtree(scratch, ignore_errors=True)
                    return key, case, {'status': 'inconclusive', 'mech': 'watchdog',
                                       'msg': 'wall-clock watchdog %ds' % self.timeout, 'data': None,
                                       'events': {}, 'sigs': set(), 'sample': None, 'evaluations': 0,
                                       'wall': self.timeout}
            time.sleep(delay)
            delay = min(delay * 1.5, 0.02)

    def stop(self):
        for pid in list(self.active):
            self._kill(pid)
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
        self.active.clear()


def load_known():
    known = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and line.startswith('{'):
                known.append(json.loads(line))
    return known


def main(argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--n', type=int, default=None)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('--replay', default=None)
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('--no-directed', action='store_true')
    ap.add_argument('--only-directed', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(argv)
    if a.replay:
        a.replay = os.path.abspath(a.replay)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'

    t0 = time.monotonic()
    root = tempfile.mkdtemp(prefix='verif_%s_' % a.pid, dir=os.environ.get('VERIF_SCRATCH', '/tmp'))
    sys.pycache_prefix = os.path.join(root, 'pyc')
    rc = 2
    try:
        os.chdir(root)
        rc = _main(a, tier, root, t0)
    finally:
        os.chdir('/')
        shutil.rmtree(root, ignore_errors=True)
    return rc


def case_for(mod, pid, seed, i, tier):
    rng = random.Random('%s:%d:%d' % (pid, seed, i))
    return mod.gen(rng, i, tier)


def _main(a, tier, root, t0):
    pid = a.pid
    sys.path.insert(0, VERIF)
    mod = importlib.import_module('checks.%s' % pid.lower())
    if hasattr(mod, 'setup'):
        mod.setup(root)
    timeout = getattr(mod, 'TIMEOUT', 100 if tier == 'quick' else 300)
    pool = Pool(mod, root, a.jobs, timeout)

    if a.replay:
        case = json.load(open(a.replay))['case']
        os.environ['VERIF_DEBUG'] = '1'
        pool.start(('replay', 0), case)
        key, case, out = pool.wait_one()
        print(out['status'], out['mech'])
        print(out['msg'])
        if out['data']:
            for k, v in out['data'].items():
                print('---', k)
                print(v)
        return 1 if out['status'] == 'violation' else 0

    known = [k for k in load_known() if k.get('property') == pid and k.get('status') == 'known']
    directed = [] if a.no_directed else list(mod.directed()) if hasattr(mod, 'directed') else []
    n = a.n if a.n is not None else mod.counts(tier)
    if a.only_directed:
        n = 0

    todo = collections.deque([(('directed', i), c) for i, c in enumerate(directed)])

    def feed():
        for i in range(n):
            yield ('random', i), case_for(mod, pid, a.seed, i, tier)
    gen = feed()

    events = collections.Counter()
    sigs = set()
    samples = []
    stat = collections.Counter()
    evaluations = 0
    violations = []
    known_hits = collections.OrderedDict()
    inconc = []
    errors = []
    exhausted = False
    slow = 0.0
    stop = False
    while True:
        while not stop and len(pool.active) < a.jobs:
            if todo:
                key, case = todo.popleft()
            else:
                try:
                    key, case = next(gen)
                except StopIteration:
                    break
            pool.start(key, case)
        if not pool.active:
            break
        key, case, out = pool.wait_one()
        stat[out['status']] += 1
        evaluations += max(1, out['evaluations'])
        events.update(out['events'])
        sigs |= out['sigs']
        slow = max(slow, out['wall'])
        if out['sample'] is not None and len(samples) < 4:
            samples.append(out['sample'])
        if out['status'] == 'violation':
            hit = None
            for k in known:
                if fnmatch.fnmatchcase(out['mech'], k['mech']) and (
                        k['case_id'] == '*' or k['case_id'] == (case.get('id') if isinstance(case, dict) else None)):
                    hit = k
                    break
            if hit is not None:
                known_hits.setdefault(hit['id'], hit)
            else:
                violations.append((key, case, out))
                if not a.keep_going:
                    stop = True
        elif out['status'] == 'inconclusive':
            inconc.append((key, case, out))
            if os.environ.get('VERIF_VERBOSE'):
                print('inconclusive', key, out['mech'], out['msg'], json.dumps(case)[:600])
        elif out['status'] == 'error':
            errors.append((key, case, out))
            if len(errors) > 3:
                stop = True
    pool.stop()

    # confirm: a verdict must be reproducible from the replay file alone
    confirmed = []
    for key, case, out in violations[:int(os.environ.get("VERIF_MAXV", "6"))]:
        pool.start(key, case)
        _, _, out2 = pool.wait_one()
        if out2['status'] == 'violation':
            confirmed.append((key, case, out2))
        else:
            inconc.append((key, case, {'mech': 'not-reproduced', 'msg': out['msg']}))

    wall = time.monotonic() - t0
    for kid, k in known_hits.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    rc = 0
    rdir = os.path.join(VERIF, 'evidence', 'replays')
    for j, (key, case, out) in enumerate(confirmed):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s-%s%d.json' % (pid, a.seed, key[0][0], key[1]))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'seed': a.seed, 'tier': tier, 'key': key, 'case': case,
                       'mech': out['mech'], 'msg': out['msg'], 'data': out['data']}, f, indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  mechanism: %s' % out['mech'])
        msg = (out['msg'] or '').strip().replace('\n', '\n  ')
        print('  ' + (msg[-1000:] if out['mech'].startswith('exception') else msg[:1500]))
        rc = 1
    total = sum(stat.values())
    for key, case, out in errors[:2]:
        print('HARNESS-ERROR %r: %s' % (key, out['msg']))
        print(json.dumps(case)[:1500])
    if inconc:
        c = collections.Counter(o['mech'] for _, _, o in inconc)
        print('inconclusive cases: %s' % dict(c))
        for key, case, o in inconc[:2]:
            print('  e.g. %r %s: %s' % (key, o['mech'], str(o['msg'])[:300]))
    if rc == 0:
        need = getattr(mod, 'MIN_EVENTS', {})
        missing = [k for k, v in need.items() if events.get(k, 0) < v and not (a.n is not None or a.only_directed)]
        if errors:
            rc = 2
        elif total == 0 or not sum(events.values()):
            print('no events observed: inconclusive')
            rc = 2
        elif len(inconc) > 0.25 * total:
            print('too many inconclusive cases (%d of %d)' % (len(inconc), total))
            rc = 2
        elif missing:
            print('monitors did not observe: %s' % missing)
            rc = 2
    ev = {
        'property': pid, 'tier': tier, 'seed': a.seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(sigs),
            'rule': mod.RULE,
            'samples': samples or ['(none)'],
            'cases_run': total,
            'directed_cases': len(directed),
            'verdicts': dict(stat),
            'observed_events': dict(sorted(events.items())),
            'known_findings_hit': list(known_hits),
            'slowest_case_s': round(slow, 2),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2),
        'violations': len(confirmed),
    }
    if not a.no_evidence:
        with open(os.path.join(VERIF, 'evidence', '%s.json' % pid), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print('%s tier=%s seed=%d rc=%d cases=%d evaluations=%d distinct=%d events=%s verdicts=%s wall=%.1fs slow=%.1fs' % (
        pid, tier, a.seed, rc, total, evaluations, len(sigs), dict(sorted(events.items())), dict(stat), wall, slow))
    return rc


