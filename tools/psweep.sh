#!/bin/bash
# psweep.sh N [name-prefix ...]: sweep.py in N copies of /repo and /verif, each in a mount namespace of its own.
# Results: build/sweep-<k>.log, merged into build/sweep.json
n=$1; shift
base=${BASE:-/tmp/sw}
pids=()
for k in $(seq 0 $((n-1))); do
  d=$base/$k
  mkdir -p $d/vp
  rsync -a --delete /repo/ $d/repo/ 2>/dev/null || { rm -rf $base/$k/repo; cp -a /repo $d/repo; }
  rsync -a --delete --exclude build/run-* /verif/ $d/verif/ 2>/dev/null || { rm -rf $base/$k/verif; cp -a /verif $d/verif; }
  cp -a /opt/vp/. $d/vp/
  [ $# -gt 0 ] || echo '{}' > /dev/null
  unshare -Urm bash -c "mount --bind $d/repo /repo && mount --bind $d/verif /verif && mount --bind $d/vp /opt/vp && cd /verif && exec timeout 14000 python3 tools/sweep.py $k/$n $*" > /verif/build/sweep-${TAG:-}$k.log 2>&1 &
  pids+=($!)
done
wait
python3 - $n <<'PY'
import json, os, sys
p = "/verif/build/sweep.json"
r = json.load(open(p)) if os.path.exists(p) else {}
for k in range(int(sys.argv[1])):
    f = os.environ.get("BASE", "/tmp/sw") + "/%d/verif/build/sweep.json" % k
    old = json.load(open(f)) if os.path.exists(f) else {}
    log = open("/verif/build/sweep-%s%d.log" % (os.environ.get("TAG", ""), k)).read().split("\n")
    for l in log:
        n = l.split(" ")[0]
        if n in old:
            r[n] = old[n]
json.dump(r, open(p, "w"), indent=1)
PY
