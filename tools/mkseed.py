#!/usr/bin/env python3
"""mkseed.py ID < spec: spec is a python dict literal with property, needs, what_it_breaks, edits [(file, old, new)],
pkg, test (go source without the package clause is fine: package line is added when missing)."""
import sys, os, json, subprocess, shutil, ast
i = sys.argv[1]; s = ast.literal_eval(sys.stdin.read())
d = "/verif/seeded/" + i; os.makedirs(d, exist_ok=True)
T = "/tmp/mkseed_" + i
shutil.rmtree(T, ignore_errors=True); subprocess.check_call(["git", "clone", "-q", "/repo", T])
for f, old, new in s["edits"]:
    p = os.path.join(T, f); t = open(p).read()
    assert t.count(old) == 1, (f, old, t.count(old))
    open(p, "w").write(t.replace(old, new))
    if f.endswith(".go"): subprocess.check_call(["gofmt", "-l", p])
diff = subprocess.check_output(["git", "diff"], cwd=T, text=True)
open(d + "/patch.diff", "w").write(diff)
shutil.rmtree(T)
pkg = s.get("pkg", "memcache")
open(d + "/demo_test.go", "w").write(s["test"].lstrip())
race = "-race " if s.get("race") else ""
open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0: the property held in this demonstration; nonzero: it was broken
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 3
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
echo "{\\"Replace\\":{\\"$PWD/%s/zz_demo_test.go\\":\\"$D/demo_test.go\\"}}" > "$T/ov.json"
go test -overlay "$T/ov.json" -vet=off -count=1 -timeout 120s %s-run '^TestDemo$' ./%s; rc=$?
rm -r "$T"; exit $rc
''' % (pkg, race, pkg))
json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what_it_breaks"]}, open(d + "/meta.json", "w"), indent=1)
print(i, "written")
