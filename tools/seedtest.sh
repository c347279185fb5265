#!/bin/bash
# seedtest.sh ID: confirms a planted change in scratch copies
ID=$1; D=/verif/seeded/$ID; W=/tmp/sw/$ID
rm -rf "$W"; mkdir -p "$W"; cp -a /repo "$W/astra"
. /opt/vp/env.sh
run() { ( cd "$1" && rm -rf .astra && timeout 300 bash $W/d/demo.sh >$W/$2.out 2>&1; echo $? ); }
mkdir $W/d; cp -r $D/. $W/d/; rm -f $W/d/patch.diff $W/d/meta.json
A=$(run $W/astra demo0)
( cd $W/astra && git apply $D/patch.diff ) || { echo "$ID: patch does not apply"; exit 1; }
( cd $W/astra && go build ./... ) || { echo "$ID: no build"; exit 1; }
( cd $W/astra/cli/astra && cp go.mod $W/cli.mod && cat go.sum ../../go.sum | sort -u >$W/cli.sum && GOFLAGS="-mod=mod -modfile=$W/cli.mod" go build ./... ) || { echo "$ID: no cli build"; exit 1; }
B=$(run $W/astra demo1)
if [ -z "$NOTEST" ]; then
( cd $W/astra && go test -json -vet=off -count=1 -timeout 5m ./... >$W/log 2>$W/err )
python3 /opt/vp/results.py $W/out.json gojson:$W/log >/dev/null 2>&1
M=$(python3 - <<P
import json
o=json.load(open('$W/out.json'));b=json.load(open('/opt/vp/BASELINE.json'))
p=set(o['passed']) if 'passed' in o else {k for k,v in o.items() if v in('pass','passed',True)}
m=[t for t in b['stable'] if t not in p]
print(len(m),m[:4])
P
)
fi
echo "$ID: demo clean=$A patched=$B missing-tests=$M"
tail -2 $W/demo1.out | cut -c1-300
[ -n "$KEEP" ] || rm -rf "$W"
