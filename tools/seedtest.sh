#!/bin/bash
# seedtest.sh ID...: development tool. Verifies planted bugs in scratch copies and runs the check of their property on them.
. /opt/vp/env.sh
export GIT_ALLOW_PROTOCOL=none GIT_TERMINAL_PROMPT=0
for id in "$@"; do
  s=/verif/seeded/$id; c=/tmp/sd/$id
  mkdir -p /tmp/sd; rm -rf "/tmp/sd/$id"; cp -a /repo "$c"
  msg="$id:"
  rm -rf "/tmp/sd/$id.demo"; mkdir -p "/tmp/sd/$id.demo"; cp "$s"/demo.sh "$s"/*.go "/tmp/sd/$id.demo/"
  (cd "$c" && bash "/tmp/sd/$id.demo/demo.sh" >/tmp/sd/$id.clean.log 2>&1) && msg="$msg clean-demo-ok" || msg="$msg CLEAN-DEMO-FAILS"
  (cd "$c" && git apply "$s/patch.diff") || msg="$msg PATCH-FAILS"
  (cd "$c" && go build ./... ) || msg="$msg BUILD-FAILS"
  (cd "$c" && GIT_CEILING_DIRECTORIES=$c go test -json -vet=off -count=1 ./... >/tmp/sd/$id.test.json 2>/dev/null)
  msg="$msg $(python3 - "$id" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
p=set()
for l in open('/tmp/sd/%s.test.json'%sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Action')=='pass' and e.get('Test'): p.add(e['Package']+'::'+e['Test']); p.add(e['Package']+'/'+e['Test']); p.add(e['Package']+'.'+e['Test']); p.add(e['Test'])
m=[x for x in b if x not in p]
print('tests-ok' if not m else 'TESTS-FAIL %s'%sorted(m)[:4])
P
)"
  (cd "$c" && bash "/tmp/sd/$id.demo/demo.sh" >/tmp/sd/$id.bug.log 2>&1); r=$?; [ $r -ne 0 ] && [ $r -ne 3 ] && msg="$msg bug-demo-fails" || msg="$msg BUG-DEMO-RC-$r"
  prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  sed "s#=> /repo#=> $c#" /verif/harness/go.mod > /tmp/sd/$id.mod; cp /verif/harness/go.sum /tmp/sd/$id.sum
  (cd /verif/harness && go build -modfile=/tmp/sd/$id.mod -o /tmp/sd/$id.check .) || msg="$msg HARNESS-BUILD-FAILS"
  mkdir -p /tmp/sd/$id.out; cp /verif/known_findings.txt /tmp/sd/$id.out/
  t0=$(date +%s)
  for q in $prop ${PROPS}; do
  /tmp/sd/$id.check check -prop $q -out /tmp/sd/$id.out >/tmp/sd/$id.$q.log 2>&1; r=$?
  [ $r -eq 1 ] && msg="$msg $q:CAUGHT" || msg="$msg $q:missed($r)"
  done
  echo "$msg ($(( $(date +%s)-t0 ))s)"
  rm -rf "/tmp/sd/$id" "/tmp/sd/$id.demo" "/tmp/sd/$id.check" "/tmp/sd/$id.mod" "/tmp/sd/$id.sum" "/tmp/sd/$id.test.json"
done
