#!/bin/bash
# run1.sh name cases sources...
n=$1; k=$2; shift 2
cd "$(dirname "$0")"
rm -f /tmp/r_$n.json
./build_one.sh /tmp/$n "$@" 2>&1 | head -c 3000
ASAN_OPTIONS=abort_on_error=1:detect_leaks=0:max_malloc_fill_size=1000000:malloc_fill_byte=190 /tmp/$n --seed ${SEED:-1} --cases $k --out /tmp/r_$n.json --replay-dir /tmp > /tmp/log_$n 2>&1
python3 - /tmp/r_$n.json <<'PY'
import json,sys;r=json.load(open(sys.argv[1]))
for v in r['violations']: print(v['test'],v['confirmed'],v['msg'][:700])
print('wall',r['wall'],'cases',sum(t['cases'] for t in r['tests']))
import os
for t in r['tests'][::1 if os.environ.get('V') else 6]: print('  ',t['test'],t['cases'],t['distinct_nontrivial'],'disc',t['discarded'],t['labels'],t['known'])
PY
