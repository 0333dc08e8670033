#!/usr/bin/env python3
"""mkseed.py SPEC...: makes /verif/seeded/<id>/ of a spec file (header lines, edits, demonstration program) and
verifies it in a scratch copy of /repo: builds, passes the tests, the demonstration fails only with the change.

id: NAME
property: Cnn
needs: ...
breaks: ...
dir: zz_demo                 (virtual package directory of the demonstration)
--- edit path
<<<<
old
====
new
>>>>
--- main
package main ...
"""
import json, os, re, shutil, subprocess, sys
ROOT = "/verif/seeded"
DEMO = '''#!/bin/bash
# Runs the demonstration program as a virtual package of the module in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS=-mod=mod GOWORK=off GOPROXY=off GOTOOLCHAIN=local
echo "{\\"Replace\\":{\\"$repo/%(dir)s/main.go\\":\\"$here/main.go.txt\\"}}" > "$tmp/o.json"
go build %(flags)s-overlay "$tmp/o.json" -o "$tmp/demo" ./%(dir)s || exit 3
cd "$tmp" && DEMO_REPO=$repo timeout 120 ./demo
'''
def sh(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, shell=True, executable="/bin/bash", cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout
def samples(cwd):
    return sh(r'''go build -o /tmp/seedwork/grammar.bin ./examples/grammar/grammar.go && cd examples/grammar && for f in samples/*/valid/* samples/*/invalid/*; do
 [ -f "$f" ] || continue; args=(); case $f in *.txt) args+=(-m);; esac; case $f in */invalid/*) args+=(-e);; esac
 timeout 60 /tmp/seedwork/grammar.bin "${args[@]}" "${f%/*/*}/.grammar" "$f" >/dev/null 2>&1 || { echo FAIL $f; exit 1; }; done'''.replace("{ echo FAIL $f; exit 1; }", "exit 1"), cwd)
def main(spec):
    text = open(spec).read()
    head, *parts = re.split(r"^--- ", text, flags=re.M)
    meta = dict(l.split(": ", 1) for l in head.strip().splitlines())
    sid = meta["id"]
    work = "/tmp/seedwork/" + sid
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs("/tmp/seedwork", exist_ok=True)
    subprocess.check_call(["cp", "-a", "/repo", work])
    main_src = None
    for p in parts:
        kind, body = p.split("\n", 1)
        if kind.startswith("edit "):
            fn = work + "/" + kind[5:].strip()
            s = open(fn).read()
            for m in re.finditer(r"<<<<\n(.*?)\n?====\n(.*?)\n?>>>>", body, flags=re.S):
                if s.count(m.group(1)) != 1:
                    print(sid, "BAD EDIT: matches", s.count(m.group(1)), m.group(1)[:80]); return False
                s = s.replace(m.group(1), m.group(2))
            open(fn, "w").write(s)
        else:
            main_src = body
    d = ROOT + "/" + sid
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(["git", "diff"], cwd=work, stdout=subprocess.PIPE, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/main.go.txt", "w").write(main_src)
    open(d + "/demo.sh", "w").write(DEMO % {"dir": meta.get("dir", "zz_demo"), "flags": meta.get("flags", "") and meta["flags"] + " "})
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    ok = True
    def bad(what, out=""):
        nonlocal ok
        ok = False
        print(sid, "BAD:", what, out[-1500:])
    rc, out = sh("gofmt -l $(git diff --name-only) ; go build ./...", work)
    if rc or out.strip(): bad("build", out)
    rc, out = sh("ulimit -v 20000000; go test -vet=off -count=1 -timeout 90s ./... 2>&1 | grep -v '^ok\\|no test files'", work)
    if out.strip(): bad("tests", out)
    rc, out = samples(work) if "FAST" not in os.environ else (0, "")
    if rc: bad("samples", out)
    rc, out = sh("bash " + d + "/demo.sh", "/repo")
    if rc: bad("demo on the unchanged tree: %d" % rc, out)
    rc, out = sh("bash " + d + "/demo.sh", work)
    if rc == 0 or rc == 3: bad("demo with the patch: %d" % rc, out)
    print(sid, "ok" if ok else "NOT OK", "|", out.strip()[-200:].replace("\n", " / "))
    return ok
if not all([main(s) for s in sys.argv[1:]]):
    sys.exit(1)
