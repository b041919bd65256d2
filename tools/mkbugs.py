#!/usr/bin/env python3
"""mkbugs.py FILE: makes seeded/<id> for the bugs described in FILE.

FILE is a Python file that defines BUGS, a list of dicts with id, property,
edits [(file, old, new)], needs, breaks, demo (the body of a Go test; t is
the *testing.T) and decls (Go declarations beside it)."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
DEMO = '''#!/bin/bash
# Fails when the bug is there.  Run in the repository.
d=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
t=$(mktemp -d) && trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$d" > "$t/o.json"
go test -vet=off -count=1 -timeout 200s -overlay "$t/o.json" -run '^TestZZDemo$' {flags}.
'''
for b in ns["BUGS"]:
    if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
        continue
    d = os.path.join(V, "seeded", b["id"])
    w = tempfile.mkdtemp(prefix="mkbug")
    try:
        subprocess.check_call("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A -f && git -c user.email=a -c user.name=a commit -qm base" % (w, w), shell=True)
        for f, old, new in b["edits"]:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], f, "occurs", s.count(old), "times:", old[:80])
                break
            open(p, "w").write(s.replace(old, new))
        else:
            os.makedirs(d, exist_ok=True)
            subprocess.call(["gofmt", "-w"] + [os.path.join(w, f) for f, _, _ in b["edits"]])
            open(os.path.join(d, "patch.diff"), "w").write(subprocess.check_output(["git", "-C", w, "diff"], text=True))
            open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("{flags}", b.get("flags", "")))
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            imps = ["testing"] + b.get("imports", [])
            pkg = b.get("pkg", "amino_test")
            src = "package %s\n\nimport (\n%s\n" % (pkg, "".join('\t"%s"\n' % i for i in imps))
            if pkg == "amino_test":
                src += '\n\tamino "github.com/tendermint/go-amino"\n'
            src += ")\n\n" + b.get("decls", "") + "\n\nfunc TestZZDemo(t *testing.T) {\n" + b["demo"] + "\n}\n"
            open(os.path.join(d, "demo_test.go"), "w").write(src)
            subprocess.call(["gofmt", "-w", os.path.join(d, "demo_test.go")])
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            print(b["id"], "written")
    finally:
        shutil.rmtree(w)
