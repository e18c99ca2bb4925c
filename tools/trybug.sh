#!/bin/bash
# trybug.sh ID [notest] [PROP...]: validate a planted bug in a private mount namespace:
# applies, builds, passes the stable tests, demo fails with it and passes without; then runs checks.
id=$1; shift; nt=0; [ "$1" = notest ] && { nt=1; shift; }
S=/verif/seeded/$id; [ -d $S ] || S=/verif/planted/$id; W=/tmp/w/$id
(cd /repo && bash $S/demo.sh >/tmp/w/$id.demo0 2>&1); d0=$?
[ -d $W ] || cp -a /repo $W
git -C $W checkout -q -- . ; git -C $W fetch -q /repo HEAD 2>/dev/null; git -C $W reset -q --hard FETCH_HEAD 2>/dev/null
git -C $W apply $S/patch.diff || { echo "$id: patch does not apply"; exit 1; }
props="$*"; [ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
unshare -Urm bash -c "
mount --bind $W /repo || exit 9
cd /repo
if [ $nt = 0 ]; then bash /opt/vp/test.sh /tmp/w/$id.json >/tmp/w/$id.log 2>&1; echo \"$id tests: \$(tail -1 /tmp/w/$id.log)\"; fi
bash $S/demo.sh >/tmp/w/$id.demo1 2>&1; echo \"$id demo: clean=$d0 patched=\$?\"
cd /verif
for p in $props; do timeout 900 python3 check.py \$p --tier quick >/tmp/w/$id.\$p.out 2>&1; echo \"$id check \$p: rc=\$? \$(grep -a VIOLATION /tmp/w/$id.\$p.out | head -1)\"; done
"
