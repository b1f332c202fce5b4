#!/bin/bash
# tryref.sh NAME=PROP...: applies behaviour-preserving patches (refactor/NAME.diff) to a scratch copy and runs the verifier for the property
# build govc first (tools/gv.sh)
for np in "$@"; do
  n=${np%%=*}; p=${np#*=}
  rm -rf /tmp/tryref; cp -a /repo /tmp/tryref && git -C /tmp/tryref checkout -q -- . && git -C /tmp/tryref apply /verif/refactor/$n.diff || { echo "$n: does not apply"; continue; }
  (cd /tmp/tryref && PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=vendor go build ./... && GOFLAGS=-mod=vendor go test -vet=off -count=1 ./... 2>&1 | grep -c ^ok) > /tmp/tryref.t
  /tmp/govc -repo /tmp/tryref -verif /verif -prop $p -out /tmp/tryref.json -timeout 10000 >/dev/null
  python3 - "$n" "$p" <<'P'
import json,sys,collections
d=json.load(open('/tmp/tryref.json'))
f=d['Failed'] or []
print(sys.argv[1],sys.argv[2],'tests ok',open('/tmp/tryref.t').read().strip().split('\n')[-1],'obligations',d['Obligations'],'FAILED' if f else 'quiet',len(f))
for k,n in collections.Counter((x['Fn'],x['Name'],x['Res'],(x['Detail'] or '')[:160]) for x in f).most_common(4): print('    ',n,*k)
P
  rm -rf /tmp/tryref
done
