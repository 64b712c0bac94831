#!/bin/bash
# plant.sh ID [CHECK...] : validate /verif/seeded/ID in a private copy bind-mounted over /repo (own mount namespace), then run the named checks on it
ID=$1; shift
S=/verif/seeded/$ID
C=/tmp/cp/$ID
D=/tmp/cp/demo-$ID
mkdir -p /tmp/cp "$D"
cp -a /repo "$C" || exit 1
cp "$S"/* "$D"/; rm -f "$D"/*.diff "$D"/meta.json
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1
[ -n "$NOCLEAN" ] || { (cd /repo && timeout 300 bash "$D/demo.sh" >/tmp/cp/$ID.demo0 2>&1); echo "$ID demo clean rc=$? (want 0)"; }
git -C "$C" apply "$S/patch.diff" || { echo "$ID PATCH DOES NOT APPLY"; rm -rf "/tmp/cp/$ID" "/tmp/cp/demo-$ID"; exit 1; }
unshare -Urm bash -c '
ID='$ID'; D='$D'
mount --bind /tmp/cp/$ID /repo || exit 1
cd /repo
timeout 300 bash $D/demo.sh >/tmp/cp/$ID.demo1 2>&1; echo "$ID demo patched rc=$? (want !=0)"
bash /opt/vp/build.sh >/tmp/cp/$ID.build 2>&1; echo "$ID build rc=$?"
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/cp/$ID.json >/tmp/cp/$ID.log 2>&1
python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open("/tmp/cp/$ID.json"))
s=lambda x: set(next(x[k] for k in ("stable","passed","pass","tests") if k in x))
print("$ID missing tests:", sorted(s(b)-s(t))[:5], len(s(b)-s(t)))
P
fi
cd /verif
for c in "$@"; do timeout 900 ./check $c --no-evidence 2>&1 | grep -E "VIOLATION|mechanism|rc=" | cut -c1-200 | sed "s/^/$ID /"; done
' x "$@"
rm -rf "/tmp/cp/$ID" "/tmp/cp/demo-$ID"
