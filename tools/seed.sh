#!/bin/bash
# seed.sh new              fresh scratch copy of /repo in /tmp/wt
# seed.sh keep ID PROP     record /tmp/wt's change as seeded/ID (demo_test.go or demo.sh is read from /tmp/demo)
#   first line of /tmp/demo: //pkg <dir of the package>; /tmp/needs and /tmp/breaks hold the meta texts
# seed.sh try ID           apply seeded/ID to /repo, run its property's quick check, undo
. /opt/vp/env.sh
case $1 in
new) rm -rf /tmp/wt; cp -a /repo /tmp/wt; git -C /tmp/wt checkout -q -- .; git -C /tmp/wt clean -fdq;;
keep)
  d=/verif/seeded/$2; mkdir -p $d
  git -C /tmp/wt diff > $d/patch.diff
  pkg=$(head -1 /tmp/demo | sed 's,//pkg ,,')
  tail -n +2 /tmp/demo > $d/demo_test.go.txt
  cat > $d/demo.sh <<D
#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=\$(cd "\$(dirname "\$0")" && pwd)
cd "\${DEMO_REPO:-/repo}" || exit 2
t=\$(mktemp -d) || exit 2
trap 'rm -rf "\$t"' EXIT
cp "\$here/demo_test.go.txt" "\$t/demo_test.go"
echo "{\"Replace\": {\"\$PWD/$pkg/zz_demo_test.go\": \"\$t/demo_test.go\"}}" > "\$t/o.json"
TMPDIR=\$t go test -vet=off -count=1 -timeout 200s -overlay "\$t/o.json" -run 'TestZZDemo\$' ./$pkg
D
  python3 - "$3" $d <<'P'
import json,sys
json.dump({"property":sys.argv[1],"needs":open('/tmp/needs').read().strip(),"what_it_breaks":open('/tmp/breaks').read().strip()},open(sys.argv[2]+'/meta.json','w'),indent=1)
P
  sed -i "s,^here=.*,here=\$(cd \"\$(dirname \"\$0\")\" \&\& pwd)," $d/demo.sh
  DEMO_REPO=/repo bash $d/demo.sh >/tmp/demo.out 2>&1; a=$?
  DEMO_REPO=/tmp/wt bash $d/demo.sh >/tmp/demo.out2 2>&1; b=$?
  echo "demo unchanged=$a (want 0) changed=$b (want !=0)"; [ $a = 0 ] || tail -20 /tmp/demo.out; grep -E 'FAIL|zz_demo|panic' /tmp/demo.out2 | head -4
  (cd /tmp/wt && GODEBUG=randautoseed=0 go test -json -vet=off -count=1 -timeout 10m ./... > /tmp/wt.json 2>/dev/null)
  python3 - <<'P'
import json
p=set();
for l in open('/tmp/wt.json'):
    try: e=json.loads(l)
    except: continue
    if e.get('Action')=='pass' and e.get('Test'): p.add(e['Package']+'/'+e['Test'])
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
import re
print("baseline sample",b[0], "passed", len(p))
m=[x for x in b if x not in p and not any(y.endswith(x) or x.replace('::','/') == y or x.replace(' ','/')==y for y in p)]
print("tests missing:", m[:5], len(m))
P
  ;;
try)
  d=/verif/seeded/$2; prop=${3:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  git -C /repo apply $d/patch.diff || exit 1
  (cd /verif && bash run.sh $prop quick > /tmp/try.$2.out 2>&1); echo "$2 $prop exit=$? $(grep -m1 VIOLATION /tmp/try.$2.out | cut -c1-200)"
  git -C /repo checkout -q -- .;;
esac
