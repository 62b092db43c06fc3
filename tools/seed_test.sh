#!/bin/bash
# seed_test.sh ID [demo|tests|check|all] : in a private namespace with a copy of /repo bound over it.
# Needs /tmp/sw (cp -a of /repo at HEAD).  'check' also binds a copy of /verif (/tmp/vw).
id=$1; what=${2:-all}; d=/verif/seeded/$id
git -C /tmp/sw checkout -q -- . ; git -C /tmp/sw fetch -q /repo HEAD && git -C /tmp/sw reset -q --hard FETCH_HEAD
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
if [ "$what" = check -o "$what" = all ]; then mkdir -p /tmp/vw; rsync -a --delete --exclude .git --exclude .work /verif/ /tmp/vw/ 2>/dev/null || { rm -rf /tmp/vw; cp -a /verif /tmp/vw; }; fi
export id what d prop
unshare -Urm bash -c '
mount --bind /tmp/sw /repo || exit 9
cd /repo
if [ $what = demo -o $what = all ]; then bash $d/demo.sh > /tmp/seed-$id.clean.log 2>&1; echo "$id demo clean: $?"; fi
git apply $d/patch.diff || { echo "$id DOES NOT APPLY"; exit 8; }
if [ $what = tests -o $what = all ]; then
 bash /opt/vp/build.sh > /tmp/seed-$id.build.log 2>&1 || echo "$id BUILD FAILS"
 bash /opt/vp/test.sh /tmp/seed-$id.json > /tmp/seed-$id.tests.log 2>&1
 python3 - <<P
import json
r=json.load(open("/tmp/seed-$id.json")); b=json.load(open("/opt/vp/BASELINE.json"))
def passed(x):
    for k in ("passed","pass","stable"):
        if isinstance(x,dict) and k in x: return set(x[k]) if isinstance(x[k],list) else x[k]
    return None
pb,pr=passed(b),passed(r)
lost=sorted(pb-pr) if isinstance(pb,set) and isinstance(pr,set) else ["? %s %s" % (list(b)[:5], list(r)[:5])]
print("$id tests lost:", len(lost), lost[:4])
P
fi
if [ $what = demo -o $what = all ]; then bash $d/demo.sh > /tmp/seed-$id.bug.log 2>&1; echo "$id demo with bug: $?"; fi
if [ $what = check -o $what = all ]; then mount --bind /tmp/vw /verif; cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $prop quick > /tmp/seed-$id.check.log 2>&1; echo "$id check $prop: $?"; grep -h VIOLATION /tmp/seed-$id.check.log | head -5; fi
'
git -C /tmp/sw checkout -q -- .
