#!/bin/bash
# rc.sh "C01 C02" budget seed
source /opt/vp/env.sh; cd /verif
for p in $1; do timeout 600 /opt/venv/bin/python -m concrete.run $p --budget ${2:-25} --seed ${3:-1} --out /tmp/o_$p.json; python3 - $p <<'P'
import json,sys
r=json.load(open('/tmp/o_%s.json'%sys.argv[1])); print(r['property'],r['evaluations'],'undef',r['undefined'],r['kinds'],len(r['failures']),r['known_open'])
for f in r['failures'][:3]: print('  ',f['kind'],json.dumps(f['args'])[:700]); print('  ',f['error'][-700:])
P
done
