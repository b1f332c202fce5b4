#!/bin/bash
# build and run govc, aggregated failures
cd /verif/govc && GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off go build -o /tmp/govc . || exit 1
ulimit -v 26000000
/tmp/govc -out /tmp/r.json "$@" | cut -c1-300 | head -${LINES_MAX:-3}
python3 - <<'P'
import json,collections
d=json.load(open('/tmp/r.json'))
c=collections.Counter()
ex={}
for f in d['Failed'] or []:
    k=(f['Fn'],f['Name'],f['Res'])
    c[k]+=1; ex.setdefault(k,f['Detail'][:200])
for k,n in sorted(c.items())[:60]: print(n,*k,'|',ex[k])
P
