#!/usr/bin/env python3
"""Measures how many small mutations of /repo the checks notice.

run.py OUT.jsonl [-j N] [-n RUNS] [-s STRIDE] DIR...

Each mutation is applied to a scratch copy, built with build.sh and tried
with the checks of that directory until one reports a violation. Not used by
any check."""
import json, os, subprocess, sys, tempfile, shutil, threading, queue
here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
PROPS = {
    "pool": "C05 C01 C02 C03 C04", "rand": "C06", "exc": "C09 C10 C25", "errors": "C25",
    "types": "C11 C13 C24 C27 C12 C25 C17 C14", "hashtable": "C12 C28", "tree/avl": "C13 C07 C08 C12 C26",
    "tree": "C27 C13 C07", "tree/bptree": "C14 C26", "trie": "C15 C20 C29",
    "list": "C16 C11 C20 C17 C24 C26", "set": "C17 C20 C06 C11 C26", "heap": "C18", "linked": "C19 C24",
}
args = sys.argv[1:]
out = args.pop(0)
J, N, S = 4, 20000, 1
dirs = []
while args:
    a = args.pop(0)
    if a == "-j": J = int(args.pop(0))
    elif a == "-n": N = int(args.pop(0))
    elif a == "-s": S = int(args.pop(0))
    else: dirs.append(a)
tmp = tempfile.mkdtemp(prefix="mutate-")
def sh(cmd, **kw):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], capture_output=True, text=True, **kw)
assert sh(f"cd {here}/tools/mutate && go build -o {tmp}/mutate main.go").returncode == 0
work = queue.Queue()
for d in dirs:
    fs = [f for f in sorted(os.listdir("/repo/" + d)) if f.endswith(".go") and not f.endswith("_test.go") and f != "doc.go"]
    r = sh(f"cd /repo && {tmp}/mutate " + " ".join(d + "/" + f for f in fs))
    for i, l in enumerate(r.stdout.splitlines()):
        if i % S == 0:
            work.put((d, json.loads(l)))
total = work.qsize()
lock = threading.Lock()
res = open(out, "w")
count = {}
def one(i):
    base = f"{tmp}/w{i}"
    sh(f"git clone -q /repo {base}/repo && mkdir -p {base}/b")
    while True:
        try: d, m = work.get_nowait()
        except queue.Empty: return
        p = f"{base}/repo/{m['file']}"
        orig = open(p, "rb").read()
        open(p, "wb").write(orig[:m["off"]] + m["new"].encode() + orig[m["end"]:])
        m["status"] = "survived"
        try:
            if sh(f"cd {base}/repo && go build ./{d}").returncode:
                m["status"] = "nocompile"
            else:
                shutil.rmtree(f"{base}/b"); os.mkdir(f"{base}/b")
                b = sh(f"cd {here} && VERIF_REPO={base}/repo ./build.sh {base}/b")
                if b.returncode:
                    m["status"] = "build-error"; m["msg"] = b.stderr[-300:]
                else:
                    errs = []
                    for pr in PROPS[d].split():
                        try:
                            r = sh(f"ulimit -v 12000000; cd {base}/b && timeout 200 ./dst run -first -prop {pr} -runs {N} -workers 2 -seconds 60 -out {base}/b/out -known {here}/known-findings.txt")
                        except Exception as e:
                            errs.append(pr + ": " + str(e)); continue
                        if r.returncode == 1:
                            m["status"] = "caught"; m["by"] = pr
                            m["msg"] = r.stdout[-300:]
                            break
                        if r.returncode != 0:
                            errs.append(f"{pr}: rc={r.returncode} {r.stderr[:300]}")
                    else:
                        if errs: m["status"] = "error"; m["msg"] = errs
        finally:
            open(p, "wb").write(orig)
        with lock:
            count[m["status"]] = count.get(m["status"], 0) + 1
            res.write(json.dumps(m) + "\n"); res.flush()
            if sum(count.values()) % 50 == 0:
                print(sum(count.values()), "of", total, count, flush=True)
ts = [threading.Thread(target=one, args=(i,)) for i in range(J)]
[t.start() for t in ts]; [t.join() for t in ts]
print("done", total, count)
shutil.rmtree(tmp)
