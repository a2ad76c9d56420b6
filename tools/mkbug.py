#!/usr/bin/env python3
"""mkbug.py SPEC.py : SPEC defines ID, PROP, PKG, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (go test source), RACE
Makes seeded/ID from a scratch copy and confirms: builds, stable tests pass (with -t), demo passes without / fails with the change."""
import sys, os, subprocess, json, shutil
W = "/tmp/w/repo"
R = os.environ.get("RDIR", "/repo")
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def main(path, test):
    g = {}
    exec(open(path).read(), g)
    d = os.environ.get("VDIR", "/verif") + "/seeded/" + g["ID"]
    if not os.path.isdir(W):
        os.makedirs("/tmp/w", exist_ok=True); sh("cp -a %s %s" % (R, W))
    sh("cd %s && git checkout -q -- . && git fetch -q %s HEAD && git reset -q --hard FETCH_HEAD" % (W, R))
    for f, o, n in g["EDITS"]:
        s = open(W + "/" + f).read()
        assert s.count(o) == 1, (f, s.count(o), o)
        open(W + "/" + f, "w").write(s.replace(o, n))
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(sh("cd %s && git diff" % W).stdout.decode())
    open(d + "/demo_test.go", "w").write(g["DEMO"].lstrip())
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# cwd: the repository; exit 0 when the property holds on the demonstrated case
. /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
ov=$(mktemp)
trap 'rm -f "$ov"' EXIT
{ echo "{\\"Replace\\":{"
  for f in $(pwd)/%s/*_test.go; do [ -e "$f" ] && echo "\\"$f\\": \\"\\","; done
  echo "\\"$(pwd)/%s/zz_demo_test.go\\": \\"$d/demo_test.go\\"}}"; } >"$ov"
go test -vet=off -count=1 -overlay "$ov" -timeout 120s -run '^TestDemo$'%s ./%s
''' % (g["PKG"], g["PKG"], " -race" if g.get("RACE") else "", g["PKG"]))
    json.dump(dict(property=g["PROP"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    ok = True
    b = sh(". /opt/vp/env.sh; cd %s && go build ./..." % W, executable="/bin/bash")
    print("build", b.returncode, b.stdout.decode()[-500:])
    r = sh("cd %s && bash %s/demo.sh" % (W, d), timeout=200)
    print("demo with patch rc", r.returncode, r.stdout.decode()[-300:])
    sh("cd %s && git checkout -q -- ." % W)
    r2 = sh("cd %s && bash %s/demo.sh" % (W, d), timeout=200)
    print("demo without rc", r2.returncode, r2.stdout.decode()[-300:] if r2.returncode else "")
    print(g["ID"], "OK" if b.returncode == 0 and r.returncode != 0 and r2.returncode == 0 else "BAD")
for p in sys.argv[1:]:
    main(p, False)
