#!/bin/bash
# tools/plant.sh DIR [notest] : try a planted bug (DIR has patch.diff demo.sh meta.json) in a private
# copy of /repo that is bind-mounted over /repo in a namespace of its own.  Development aid only.
D=$(readlink -f "$1"); ID=$(basename $D); P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
S=$(mktemp -d /tmp/plant-$ID-XXXX)
cp -a /repo $S/repo; rsync -a --exclude .git --exclude seeded --exclude evidence --exclude replays /verif/ $S/verif/ 2>/dev/null || { mkdir $S/verif; (cd /verif && tar cf - --exclude=.git --exclude=seeded --exclude=evidence --exclude=replays .) | tar xf - -C $S/verif; }
cp $D/patch.diff $S/p.diff; cp -a $D $S/demo; rm -f $S/demo/patch.diff $S/demo/meta.json
cat > $S/go.sh <<E2
mount --bind $S/repo /repo; mount --bind $S/verif /verif
cd /repo
if [ -z "$2" ]; then bash $S/demo/demo.sh > $S/d0.log 2>&1; echo "$ID demo unchanged rc=\$?"; fi
git apply $S/p.diff || { echo "$ID PATCH DOES NOT APPLY"; exit; }
bash /opt/vp/build.sh > $S/b.log 2>&1 || { echo "$ID BUILD FAILED"; tail -5 $S/b.log; exit; }
if [ -z "$2" ]; then bash /opt/vp/test.sh $S/out.json > $S/t.log 2>&1; python3 - <<E3
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$S/out.json'))
names=lambda x: set(x) if isinstance(x,list) else set()
def passed(o):
    for k in ('passed','pass','stable','tests'):
        if k in o: return set(o[k]) if not isinstance(o[k],dict) else {t for t,v in o[k].items() if v in ('passed','pass',True)}
print("$ID tests lost:", len(passed(b)-passed(o)), sorted(passed(b)-passed(o))[:3])
E3
fi
timeout 300 bash $S/demo/demo.sh > $S/d1.log 2>&1; echo "$ID demo patched rc=\$?"; tail -2 $S/d1.log | cut -c1-200
cd /verif; for p in $P $3; do timeout 900 ./check \$p quick > $S/c.log 2>&1; echo "$ID check \$p rc=\$? (\$(grep -c '^VIOLATION' $S/c.log) violations)"; grep -e '->' -e OK -e ERROR $S/c.log | head -2 | cut -c1-300; done
E2
unshare -m --propagation private bash $S/go.sh
rm -rf $S
