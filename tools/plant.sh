#!/bin/bash
# plant.sh DIR...: for seeded/DIR, in /repo's working tree (restored after):
# demo on the unchanged tree, then with the patch: build, stable tests, demo,
# and the check of its property.
cd /verif
for d in "$@"; do
  s=/verif/seeded/$d
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  t=$(mktemp -d); cp -r "$s" "$t/x"; rm -f "$t/x"/*.diff "$t/x/meta.json"
  (cd /repo && timeout 300 bash "$t/x/demo.sh" >"$t/d0" 2>&1); d0=$?
  (cd /repo && git apply "$s/patch.diff") || { echo "$d: patch does not apply"; continue; }
  bash /opt/vp/build.sh >"$t/b" 2>&1; b=$?
  bash /opt/vp/test.sh "$t/out.json" >"$t/tl" 2>&1
  miss=$(python3 - "$t/out.json" <<'P'
import json,sys
o=json.load(open(sys.argv[1])); base=json.load(open('/opt/vp/BASELINE.json'))
b=base.get('stable') or base.get('passing') or base.get('tests') or base.get('passed')
ps=set(o.get('passed') or o.get('pass') or [k for k,v in o.items() if v in('pass','passed')])
print(len([x for x in b if x not in ps]))
P
)
  (cd /repo && timeout 300 bash "$t/x/demo.sh" >"$t/d1" 2>&1); d1=$?
  if [ -z "$NOCHECK" ]; then out=$(timeout 900 ./run.sh "${CHECK:-$p}" -noev 2>&1); c=$?; fi
  (cd /repo && git checkout -q -- .)
  ok=BAD; [ $d0 = 0 ] && [ $b = 0 ] && [ "$miss" = 0 ] && [ $d1 != 0 ] && ok=counts
  echo "$d ($p): demo0=$d0 build=$b missing=$miss demo1=$d1 => $ok; check rc=$c: $(echo "$out" | head -1 | cut -c1-200)"
  [ $ok = BAD ] && { tail -n 3 "$t/d0" "$t/d1"; }
  rm -rf -- "$t"
done
