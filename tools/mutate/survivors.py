#!/usr/bin/env python3
"""survivors.py MUTANTS OUT [WORKERS]: runs the test suite of /repo against every mutant, writes those that pass."""
import json, os, shutil, subprocess, sys, threading, queue
muts = [json.loads(l) for l in open(sys.argv[1])]
muts = [m for m in muts if not m["file"].endswith("_test.go")]
out = open(sys.argv[2], "a")
done = set()
if os.path.exists(sys.argv[2] + ".done"):
    done = set(open(sys.argv[2] + ".done").read().split())
dl = open(sys.argv[2] + ".done", "a")
n = int(sys.argv[3]) if len(sys.argv) > 3 else 4
q = queue.Queue()
for i, m in enumerate(muts):
    if str(i) not in done:
        q.put((i, m))
lock = threading.Lock()
stat = {}
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOMAXPROCS="3")
def work(k):
    w = "/tmp/mut/w%d" % k
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", w])
    while True:
        try: i, m = q.get_nowait()
        except queue.Empty: return
        fn = w + "/" + m["file"]
        src = open(fn, "rb").read()
        open(fn, "wb").write(src[:m["From"]] + m["new"].encode() + src[m["To"]:])
        pkg = "./" + os.path.dirname(m["file"])
        def run(c, t):
            p = subprocess.Popen("ulimit -v 12000000; exec " + c, shell=True, cwd=w, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
            try: return p.wait(t)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9); p.wait(); return -1
        if run("go build " + pkg, 60) != 0: res = "nobuild"
        elif run("go test -vet=off -timeout 20s " + pkg, 60) != 0: res = "killed"
        elif run("go test -vet=off -timeout 20s ./...", 120) != 0: res = "killed"
        else: res = "survived"
        open(fn, "wb").write(src)
        with lock:
            stat[res] = stat.get(res, 0) + 1
            dl.write("%d\n" % i); dl.flush()
            if res == "survived":
                out.write(json.dumps(m) + "\n"); out.flush()
            if sum(stat.values()) % 100 == 0: print(stat, q.qsize(), flush=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
[t.start() for t in ts]; [t.join() for t in ts]
print(stat)
