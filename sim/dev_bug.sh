#!/bin/bash
# development aid: dev_bug.sh ID [PROP...]: applies a seeded bug to /repo, builds, tests, runs its demo and checks, undoes it
id=$1; shift
S=/verif/seeded/$id
P=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo dirty; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1
bash $S/demo.sh >/tmp/demo.out 2>&1; echo "$id demo on clean tree: $?"
git apply $S/patch.diff || exit 2
trap 'git -C /repo checkout -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/tmp/bug.build 2>&1 || { echo "$id does not build"; tail -5 /tmp/bug.build; exit 1; }
bash /opt/vp/test.sh /tmp/bug.json >/dev/null 2>&1
python3 -c "import json;d=json.load(open('/tmp/bug.json'));print('$id tests: passed',len(d['passed']),'failed',d['failed'])"
bash $S/demo.sh >/tmp/demo.out 2>&1; echo "$id demo with bug: $?"; tail -2 /tmp/demo.out
for p in $P; do (cd /verif && VERIF_SEED=1 python3 check.py $p quick 2>&1 | tail -4); done
