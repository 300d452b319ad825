# many.sh PROP COUNT SECONDS KNOWN seeds...
P=$1; C=$2; S=$3; K=$4; shift 4
cd /verif; python3 sim/build.py ${FLAVOUR:-asan} >/dev/null || exit 2
for i in "$@"; do (rm -rf /tmp/o$i; mkdir -p /tmp/o$i; build/${FLAVOUR:-asan}/flsim run $P --out /tmp/o$i --summary /tmp/o$i/s.json --count $C --seed $i --known "$K" --seconds $S >/dev/null 2>&1; python3 - <<EOF
import json
s=json.load(open('/tmp/o$i/s.json'))
print(s['runs'],round(s['wall']),s['known'],s['violation'],s['violation_class'],s['violation_detail'][:1000], s['harness'][:300],s['mismatches'],s['unconfirmed'])
EOF
) & done; wait
