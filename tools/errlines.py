import json,sys,re
for f in sys.argv[1:]:
    d=json.load(open(f)); L=d['data'].get('code','').splitlines()
    for n in sorted({int(x) for x in re.findall(r'sim\d+.v:(\d+)',d['msg'])})[:4]:
        print(f[-12:], n, L[max(0,n-2):n+1] if n<=len(L) else 'tb')
