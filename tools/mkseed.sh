#!/bin/bash
# mkseed.sh <id> <property> : takes the edit made in /tmp/w/seed (a copy of /repo), the demo in /tmp/w/demo.py,
# needs/breaks text from /tmp/w/needs, /tmp/w/breaks; verifies and stores it in /verif/seeded/<id>
set -eu
id=$1; prop=$2; d=/verif/seeded/$id
rm -rf /tmp/w/seedv; 
cd /tmp/w/seed && git diff > /tmp/w/p.diff; [ -s /tmp/w/p.diff ]
mkdir -p "$d"; cp /tmp/w/p.diff "$d/patch.diff"; cp /tmp/w/demo.py "$d/demo.py"; cp /verif/tools/shim.py "$d/shim.py"; if grep -q demolib /tmp/w/demo.py; then cp /verif/tools/demolib.py "$d/"; fi
printf '#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$d"\nexec /opt/venv/bin/python "$d/demo.py"\n' > "$d/demo.sh"; chmod +x "$d/demo.sh"
python3 - "$d" "$prop" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":open('/tmp/w/needs').read().strip(),"what_it_breaks":open('/tmp/w/breaks').read().strip()},open(sys.argv[1]+'/meta.json','w'),indent=1)
P
cd /repo && git status --short | grep -q . && { echo "repo dirty"; exit 1; }
bash "$d/demo.sh" > /tmp/w/d0.log 2>&1 || { echo "demo fails on unchanged"; tail -5 /tmp/w/d0.log; exit 1; }
git apply "$d/patch.diff"
set +e
bash "$d/demo.sh" > /tmp/w/d1.log 2>&1; r=$?
bash /opt/vp/build.sh > /tmp/w/b.log 2>&1; b=$?
bash /opt/vp/test.sh /tmp/w/t.json > /tmp/w/t.log 2>&1
python3 -c '
import json; b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open("/tmp/w/t.json"))
s=json.dumps(t); 
p=t.get("passed") or [k for k,v in t.get("tests",t).items() if v in ("passed","pass",True)]
m=[x for x in b["stable"] if x not in p]; print("tests missing:",m)'
( cd /verif; ./check $prop > /tmp/w/c.log 2>&1; echo "check rc=$?"; grep -E "VIOLATION|broken|PROBLEM|UNCONF" /tmp/w/c.log | cut -c1-300 | head -5 )
cd /repo; git checkout -q -- .
echo "$id demo with patch rc=$r build rc=$b"
