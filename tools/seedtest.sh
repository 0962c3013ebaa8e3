#!/bin/bash
# seedtest.sh ID [PROP...]: in private copies of /repo and /verif mounted over the real ones, checks that a planted bug applies, builds, passes the
# tests, is shown by its demo, and which of the given checks (default: its own property's) report it.
id=$1; shift
S=/tmp/seed.$id; rm -rf /tmp/seed."$id"; mkdir -p $S
cp -a /repo $S/repo; mkdir $S/verif; cp -a /verif/lib /verif/harness /verif/tools /verif/*.json /verif/properties.jsonl /verif/seeded $S/verif/ 2>/dev/null
mkdir -p $S/verif/evidence
prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
cat > $S/run.sh <<'R'
ip link set lo up
S=$1; id=$2; shift 2
mount --bind $S/repo /repo; mount --bind $S/verif /verif; cd /repo
D=$S/demo; mkdir $D; cp /verif/seeded/$id/* $D; rm -f $D/patch.diff $D/meta.json
timeout 300 bash $D/demo.sh > $S/demo0.log 2>&1; echo "demo on unchanged tree: $?"
git apply --stat /verif/seeded/$id/patch.diff; git apply /verif/seeded/$id/patch.diff || { echo "DOES NOT APPLY"; exit 1; }
python3 - <<'P'
import subprocess,re
d=subprocess.check_output(["git","-C","/repo","diff","-U0"],text=True); f=None; n=o=0
for l in d.splitlines():
    if l.startswith("--- "): f=l[6:]
    m=re.match(r"@@ -(\d+)(?:,(\d+))? ",l)
    if m:
        a=int(m[1]); c=int(m[2] or 1)
        if c:
            b=subprocess.check_output(["git","-C","/repo","blame","-s","-L%d,+%d"%(a,c),"HEAD","--",f],text=True)
            n+=len(b.splitlines()); o+=sum(x.startswith("^") for x in b.splitlines())
        else: n+=0
print("lines removed: %d, of the original: %d%s" % (n,o,"" if o else "   <-- NOT ORIGINAL"))
P
bash /opt/vp/build.sh > $S/build.log 2>&1 || { echo "BUILD FAILED"; grep -m3 error $S/build.log; exit 1; }
timeout 300 bash $D/demo.sh > $S/demo1.log 2>&1; echo "demo with the bug: $?"
[ -n "$NOTEST" ] || { bash /opt/vp/test.sh $S/o.json > $S/test.log 2>&1; python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$S/o.json'))
m=sorted(set(b['stable'])-set(o['passed'])); print('tests failing:',m if m else 'none')"; }
cd /verif
for p in "$@"; do VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 lib/run.py $p > $S/check.$p.log 2>&1; echo "check $p: rc $? $(grep -m1 VIOLATION $S/check.$p.log)"; done
R
unshare -mn bash $S/run.sh $S $id ${@:-$prop} 2>&1 | sed "s/^/$id: /"
for f in demo1 build test; do [ -n "$KEEP" ] && tail -5 $S/$f.log; done
[ -n "$KEEP" ] || rm -rf /tmp/seed."$id"
