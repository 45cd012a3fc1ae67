#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from a description in a Python file:
ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (Go main program), TEST=(pkgdir, go test source)"""
import sys, os, json, subprocess, tempfile, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = "/verif/seeded/" + ns["ID"]
os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp()
subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", t + "/r", "HEAD"])
try:
    for f, a, b in ns["EDITS"]:
        s = open(f"{t}/r/{f}").read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open(f"{t}/r/{f}", "w").write(s.replace(a, b))
    out = subprocess.check_output(["git", "-C", t + "/r", "diff"]).decode()
    open(d + "/patch.diff", "w").write(out)
finally:
    subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", t + "/r"])
    shutil.rmtree(t)
json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
pre = '''#!/bin/bash
# Runs in the repository's root.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -r "$tmp"' EXIT
'''
if "DEMO" in ns:
    open(d + "/demo.go", "w").write(ns["DEMO"].lstrip())
    sh = pre + '''printf '{"Replace":{"%s/cmd/zzdemo/main.go":"%s/demo.go"}}' "$PWD" "$here" > "$tmp/o.json"
go build %s-overlay "$tmp/o.json" -o "$tmp/demo" ./cmd/zzdemo || exit 2
"$tmp/demo"
''' .replace("%s-overlay", ns.get("FLAGS", "") + "-overlay")
elif "TEST" in ns:
    open(d + "/demo_test.go.txt", "w").write(ns["TEST"][1].lstrip())
    sh = pre + '''printf '{"Replace":{"%s/@P/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$here" > "$tmp/o.json"
go test @F -count=1 -overlay "$tmp/o.json" -run 'ZZDemo' ./@P
'''.replace("@P", ns["TEST"][0]).replace("@F", ns.get("FLAGS", ""))
else:
    sh = pre + ns["SH"]
open(d + "/demo.sh", "w").write(sh)
os.chmod(d + "/demo.sh", 0o755)
