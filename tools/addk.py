"""addk.py fixed PID COMMIT TEXT | addk.py known PID CASEID MECH TEXT"""
import json, sys
a = sys.argv[1:]
if a[0] == 'fixed':
    e = {'property': a[1], 'status': 'fixed', 'commit': a[2], 'text': 'fixed: property=%s %s %s' % (a[1], a[2], a[3])}
else:
    e = {'property': a[1], 'status': 'known', 'id': a[2], 'case_id': a[2], 'mech': a[3], 'what': a[4]}
open('known_findings.jsonl', 'a').write(json.dumps(e) + '\n')
