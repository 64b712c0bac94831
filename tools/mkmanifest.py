"""regenerate /verif/MANIFEST.json from the check modules"""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {
    'C21': 'Not claimed: the documented conversions are partly undefined in the code (fixed_to_int of negative points refers to an undefined name, division keeps no fraction), so '
           'no oracle could be written that is right for all formats; the fixed-point paths of memories, FIFOs, streams and dataflow are monitored under C17, C19 and C23.',
    'C22': 'Not claimed as a whole: width and literal resolution is monitored where it is observable, under C01, C02, C05 and C27 (resolved port widths); the stand-alone '
           'optimizer is only reached through the same paths.',
}
checks, na = [], []
for p in props:
    pid = p['id']
    f = os.path.join(V, 'checks', pid.lower() + '.py')
    if not os.path.exists(f):
        na.append({'property': pid, 'reason': NA.get(pid, 'check not built yet')})
        continue
    m = importlib.import_module('checks.' + pid.lower())
    checks.append({
        'property': pid,
        'quick_cmd': './check %s --tier quick' % pid,
        'thorough_cmd': './check %s --tier thorough' % pid,
        'technique': getattr(m, 'TECHNIQUE', 'runtime monitoring: simulation of the real generated design under random stress, '
                                             'every observed value judged by an independent online oracle'),
        'level': getattr(m, 'LEVEL', 'exploration'),
        'level_note': ('Every execution explored was judged by the oracle; inputs are sampled, not exhausted. ' +
                       'Rule: ' + m.RULE + '. Trusts: ' + '; '.join(m.ASSUMPTIONS) + '.'),
    })
json.dump({'version': 1, 'setup_cmd': 'sh ./setup.sh', 'hooks': {'guard': 'none', 'enable': 'no hooks in /repo: monitors observe the emitted design in simulation', 'source_commits': []},
           'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
