#!/usr/bin/env python3
"""mkseed.py FILE.py...: each file defines id, prop, pkg, needs, breaks, edits=[(file, old, new)], test (Go source of the demo).
Builds the seeded bug in a scratch copy of /repo, confirms build, stable tests and demo, and writes /verif/seeded/<id>."""
import sys, os, subprocess, json, shutil, tempfile
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right
. /opt/vp/env.sh
d="$(cd "$(dirname "$0")" && pwd)"
o="$(mktemp /tmp/zzdemoXXXXXX.json)"
echo "{\\"Replace\\":{\\"$PWD/%s/zz_demo_test.go\\":\\"$d/demo_test.go\\"}}" > "$o"
go test -overlay "$o" -vet=off -count=1 -timeout 120s -run 'TestZZDemo' ./%s
rc=$?
rm -f "$o"
exit $rc
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, executable="/bin/bash", **k)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def run(f):
    g = {}
    exec(open(f).read(), g)
    id = g["id"]
    wt = tempfile.mkdtemp(prefix="seedwt")
    sh("cp -a /repo %s/repo" % wt, "/")
    r = wt + "/repo"
    try:
        sh("git checkout -q -- .", r)
        d = "/verif/seeded/" + id
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.sh", "w").write(g.get("demo") or DEMO % (g["pkg"], g["pkg"]))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo_test.go", "w").write(g["test"])
        json.dump(dict(property=g["prop"], needs=g["needs"], what_it_breaks=g["breaks"]), open(d + "/meta.json", "w"), indent=1)
        p = sh("bash %s/demo.sh" % d, r)
        if p.returncode != 0:
            print(id, "DEMO FAILS ON CLEAN TREE\n", p.stdout[-3000:]); return False
        for fn, old, new in g["edits"]:
            s = open(r + "/" + fn).read()
            if s.count(old) < 1:
                print(id, "edit text not found in", fn, repr(old)); return False
            s = s.replace(old, new, 1)
            open(r + "/" + fn, "w").write(s)
        df = sh("git diff", r).stdout
        open(d + "/patch.diff", "w").write(df)
        b = sh(". /opt/vp/env.sh; go build ./... && go vet ./... 2>&1 | tail -3", r)
        if b.returncode != 0:
            print(id, "BUILD FAILS\n", b.stdout[-3000:]); return False
        p = sh("bash %s/demo.sh" % d, r)
        if p.returncode == 0:
            print(id, "DEMO PASSES WITH THE BUG"); return False
        if "FAIL" not in p.stdout:
            print(id, "demo failed oddly\n", p.stdout[-2000:])
        ts = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + r)
        open(wt + "/test.sh", "w").write(ts)
        t = sh("bash %s/test.sh %s/res.json" % (wt, wt), r)
        passed = set(json.load(open(wt + "/res.json"))["passed"])
        miss = stable - passed
        if miss:
            print(id, "STABLE TESTS FAIL", miss); return False
        print(id, "ok")
        return True
    finally:
        shutil.rmtree(wt)
ok = True
for f in sys.argv[1:]:
    ok = run(f) and ok
sys.exit(0 if ok else 1)
