#!/bin/bash
# plant.sh ID PROP 'needs' 'what it breaks'  -- the changed tree is /tmp/wt (a copy of /repo with the bug);
# the demo is /tmp/demo.go (in-package test file with func TestDemo). CAL=1 for the calendar files.
ID=$1; D=/verif/seeded/$ID; mkdir -p $D
git -C /tmp/wt diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "empty patch"; exit 1; }
cp /tmp/demo.go $D/demo_test.go.txt
if [ -n "$CAL" ]; then mkdir -p $D/stubs; cp -r /verif/stubs/src $D/stubs/; fi
cat > $D/demo.sh <<'S'
#!/bin/bash
# exit 0 when the property holds on the shown inputs
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src/github.com/splendidmoons/suriya-go"
P="$W/src/github.com/splendidmoons/suriya-go"
cp "$PWD"/*.go "$P/"; rm -f "$P"/*_test.go
cp -r "$PWD/data" "$P/" 2>/dev/null
if [ -d "$D/stubs" ]; then cp -r "$D/stubs/src/." "$W/src/"; else
  for f in astro_moon cal_day calendar_event event half_moon major_event uposatha_moon; do rm -f "$P/$f.go"; done
fi
cp "$D/demo_test.go.txt" "$P/demo_test.go"
cd "$P" && GO111MODULE=off GOFLAGS= GOPATH="$W" CGO_ENABLED=0 timeout 250 go test -vet=off -count=1 -run TestDemo . > "$W/out" 2>&1
rc=$?
tail -15 "$W/out"
exit $rc
S
chmod +x $D/demo.sh
python3 - "$2" "$3" "$4" > $D/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1,ensure_ascii=False))
P
# confirm: clean passes, changed fails, builds, tests
(cd /repo && $D/demo.sh >/dev/null 2>&1) && echo clean-ok || echo "CLEAN DEMO FAILS"
(cd /tmp/wt && $D/demo.sh > /tmp/demo.out 2>&1) && echo "DEMO DOES NOT FAIL" || { echo demo-fails; grep -m3 -E 'demo_test|panic|Error' /tmp/demo.out; }
git -C /repo apply $D/patch.diff && { bash /opt/vp/build.sh > /tmp/b.out 2>&1 && echo build-ok || { echo BUILD FAILS; cat /tmp/b.out; }; bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
print('tests', {k:(len(v) if isinstance(v,list) else v) for k,v in t.items()})
P
if [ -z "$NOCHECK" ]; then /verif/check.sh $2 quick | tail -4; fi
}
git -C /repo checkout -q -- .
