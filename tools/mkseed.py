#!/usr/bin/env python3
"""mkseed.py NAME PROPERTY: helper to store a planted bug.  Reads a python dict
from stdin: {"edits": [(file, old, new)...], "needs":..., "breaks":..., "dir": package dir of the demo,
"demo": text of an in-package Go test file, "race": bool}.  Writes seeded/NAME/."""
import json, os, subprocess, sys, shutil, ast
name, prop = sys.argv[1:3]
d = ast.literal_eval(sys.stdin.read())
dst = "/verif/seeded/" + name
os.makedirs(dst, exist_ok=True)
tmp = f"/tmp/mkseed-{name}"
shutil.rmtree(tmp, ignore_errors=True)
subprocess.check_call(["git", "clone", "-q", "/repo", tmp])
for f, old, new in d["edits"]:
    p = os.path.join(tmp, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
bad = subprocess.run(["gofmt", "-l"] + [e[0] for e in d["edits"]], cwd=tmp, capture_output=True, text=True).stdout
if bad: print("gofmt:", bad)
open(dst + "/patch.diff", "w").write(subprocess.check_output(["git", "diff"], cwd=tmp, text=True))
open(dst + "/demo_test.go", "w").write(d["demo"].lstrip("\n"))
pkg = d.get("dir", ".")
open(dst + "/demo.sh", "w").write(f'''#!/bin/bash
# exit 0: the property holds in this demonstration; run with cwd = repository
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod HOME=${{HOME:-/root}}
cp "$here/demo_test.go" "$tmp/"
echo "{{\\"Replace\\": {{\\"$repo/{"" if pkg == "." else pkg + "/"}zz_demo_test.go\\": \\"$tmp/demo_test.go\\"}}}}" > "$tmp/overlay.json"
go test {"-race " if d.get("race") else ""}-vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestDemo' ./{pkg}
''')
json.dump({"property": prop, "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
shutil.rmtree(tmp)
