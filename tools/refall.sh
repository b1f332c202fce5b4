#!/bin/bash
# refall.sh [PREFIX...]: every behaviour-preserving patch against all properties of its part; prints those that raise an alarm
# build govc first (tools/gv.sh)
D=$(mktemp -d /tmp/refall.XXXXXX)
cp -a /repo $D/r && git -C $D/r checkout -q -- .
n=0
for f in /verif/refactor/*.diff; do
  b=$(basename $f .diff)
  if [ $# -gt 0 ]; then m=0; for p in "$@"; do [[ $b == $p* ]] && m=1; done; [ $m = 1 ] || continue; fi
  case $b in
    a2l-*) P=P07,P08,P09,P10,P11,P12,P13,P14;; cal-*) P=P14,P16,P17,P18,P19,P20,P21,P22;; file-*) P=P25,P01,P02,P04,P05;;
    hex-*) P=P01,P02,P03,P06;; srec-*) P=P04,P05,P06;; mod-*) P=P09,P12,P13;; read-*) P=P15;; tok-*) P=P23,P24;;
    ren-*) P=P01,P02,P03,P04,P05,P06,P15,P16,P17,P18,P19,P20,P21,P22,P23,P24;; *) P=P25;;
  esac
  git -C $D/r apply $f 2>/dev/null || { echo "$b: does not apply"; continue; }
  timeout 300 /tmp/govc -repo $D/r -verif /verif -prop $P -out $D/o.json -timeout 10000 >/dev/null
  [ $? = 0 ] || { echo "$b: ALARM"; python3 -c "
import json
for x in (json.load(open('$D/o.json'))['Failed'] or [])[:2]: print('    ',x['Fn'],x['Name'],x['Res'],(x['Detail'] or '')[:150])"; }
  n=$((n+1))
  git -C $D/r checkout -q -- . && git -C $D/r clean -fdq -e calibReader.log
done
echo "$n patches"
rm -rf $D
