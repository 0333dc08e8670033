#!/usr/bin/env python3
"""judge.py SURVIVORS OUT: runs the checks concerned against every mutant that passes the test suite."""
import json, os, shutil, subprocess, sys, time
ORDER = {
 "source/": "C01 C02 C03 C21 C23 C06 C20",
 "internal/queue/": "C04 C02 C22 C15",
 "internal/ints/": "C05 C09 C10",
 "lexer/": "C39 C06 C07 C16 C25 C20 C01",
 "langdef/": "C39 C08 C09 C10 C12 C11 C24 C14 C13 C35",
 "parser/parser.go": "C22 C18 C14 C25 C20 C38 C15 C23 C13 C24 C21 C16 C19 C17",
 "parser/misc.go": "C38 C13 C15 C16 C14 C18 C30 C20 C26",
 "parser/hooks.go": "C22 C23 C18 C27",
 "parser/layers/indent": "C29", "parser/layers/convert": "C28", "parser/layers/restrict": "C30", "parser/layers/common": "C28 C29 C30",
 "tree/": "C31 C32 C33 C34", "cmd/": "C35", "llx.go": "C25 C08 C28",
}
V = os.path.realpath(os.path.dirname(__file__) + "/../..")
vd = "/tmp/mut/vdir"; shutil.rmtree(vd, ignore_errors=True); os.makedirs(vd + "/evidence")
for f in os.listdir(V):
    if f not in ("evidence", ".git", "seeded"): os.symlink(V + "/" + f, vd + "/" + f)
outp = sys.argv[2]
done = set()
if os.path.exists(outp):
    for l in open(outp): done.add(json.loads(l)["n"])
def sh(c, t, env):
    p = subprocess.Popen(c, shell=True, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try: o, _ = p.communicate(timeout=t); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait(); return -9, ""
w = "/tmp/mut/x"
shutil.rmtree(w, ignore_errors=True); subprocess.check_call(["cp", "-a", "/repo", w])
n = -1
while True:
    lines = open(sys.argv[1]).read().splitlines()
    n += 1
    if n >= len(lines):
        if "-f" in sys.argv: time.sleep(10); n -= 1; continue
        break
    if n in done: continue
    m = json.loads(lines[n])
    fn = w + "/" + m["file"]; src = open(fn, "rb").read()
    open(fn, "wb").write(src[:m["From"]] + m["new"].encode() + src[m["To"]:])
    env = dict(os.environ, LLX_REPO=w, MC_TMP="/tmp/mut", MC_LLXGEN="/tmp/mut/llxgen", MC_SCHED="/tmp/mut/mcsched")
    res = "missed"; log = ""
    if sh(V + "/bin/build.sh /tmp/mut/mc", 200, env)[0] != 0: res = "nobuild"
    else:
        ids = next(v for k, v in ORDER.items() if m["file"].startswith(k)).split()
        for i in ids:
            if i == "C35": sh(V + "/bin/build-gen.sh llxgen /tmp/mut/llxgen", 200, env)
            if i == "C11": sh(V + '/bin/build-sched.sh /tmp/mut/mcsched ""', 200, env)
            if i in ("C26", "C27"): sh(V + "/bin/build-sched.sh /tmp/mut/mcsched", 200, env)
            rc, o = sh("/tmp/mut/mc %s quick %s" % (i, vd), 400, env)
            if rc == 1 and "VIOLATION property=" + i in o: res = "caught " + i; break
            if rc != 0: res = "rc %d %s" % (rc, i); log = o[-600:]; break
    open(fn, "wb").write(src)
    m["n"] = n; m["res"] = res; m["log"] = log
    open(outp, "a").write(json.dumps(m) + "\n")
