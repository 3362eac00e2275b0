#!/usr/bin/env python3
"""Validate planted bugs:  seed.py [-j N] [--nocheck] ID...
Each seeded/<ID>/ holds patch.diff (or edits.py: EDITS=[(file, old, new)] from which the patch is made),
demo.sh, demo.cpp and meta.json.  A scratch copy of /repo is bind-mounted over /repo in a private
mount namespace, so build, tests, demo and check see the changed tree at its usual place."""
import sys, os, subprocess, json, shutil, threading, queue, re
V = "/verif"; S = V + "/seeded"
DEMO = r'''#!/bin/bash
# run with cwd = the repository after a build: 0 = property holds, nonzero = broken
here=$(cd "$(dirname "$0")" && pwd)
R=$PWD
E=/opt/vp/epics-base/include
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
g++ -std=gnu++11 -O1 -g -w -Wno-error EXTRA -I"$here" -I"$R/include" $(for d in "$R"/src/*/; do echo -I$d; done) -I"$R/src" -I$E -I$E/os/Linux -I$E/compiler/gcc \
    "$here/demo.cpp" -o "$T/demo" -L"$R/lib/linux-x86_64" -Wl,-rpath,"$R/lib/linux-x86_64" -lpvData -lCom -lpthread || exit 98
cd "$T" && timeout 120 ./demo
'''
def sh(cmd, w=None, log=None, timeout=1500):
    if w: cmd = "unshare -Urm bash -c 'mount --bind %s /repo; cd /repo; . %s/cmd.sh'" % (w, w + ".d"); 
    return subprocess.run(["bash", "-c", cmd], stdout=log, stderr=subprocess.STDOUT, timeout=timeout).returncode
def inrepo(w, cmd, log):
    os.makedirs(w + ".d", exist_ok=True)
    open(w + ".d/cmd.sh", "w").write(cmd + "\n")
    return sh(cmd, w, log)
def worker(n, q, res, check):
    w = "/tmp/w%d" % n
    if not os.path.exists(w): subprocess.check_call(["cp", "-a", "/repo", w])
    while True:
        try: i = q.get_nowait()
        except queue.Empty: return
        d = S + "/" + i; out = []
        try:
            with open("/tmp/seed.%s.log" % i, "w") as log:
                subprocess.check_call("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (w, w), shell=True)
                if os.path.exists(d + "/edits.py"):
                    g = {}; exec(open(d + "/edits.py").read(), g)
                    for f, a, b in g["EDITS"]:
                        t = open(w + "/" + f).read()
                        if t.count(a) != 1: raise Exception("edit of %s matches %d times: %r" % (f, t.count(a), a))
                        open(w + "/" + f, "w").write(t.replace(a, b))
                    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", w, "diff"], text=True))
                else:
                    subprocess.check_call(["git", "-C", w, "apply", d + "/patch.diff"])
                if not os.path.exists(d + "/demo.sh"):
                    open(d + "/demo.sh", "w").write(DEMO.replace("EXTRA ", getattr(sys, "x", "")))
                    os.chmod(d + "/demo.sh", 0o755)
                if sh("cd /repo; bash %s/demo.sh" % d, None, log): out.append("DEMO FAILS UNPATCHED")
                if inrepo(w, "bash /opt/vp/build.sh", log): out.append("BUILD FAILS")
                else:
                    rc = inrepo(w, "bash %s/demo.sh" % d, log)
                    if rc == 0: out.append("DEMO PASSES PATCHED")
                    if rc in (98, 99): out.append("DEMO DOES NOT BUILD")
                    if not fast: inrepo(w, "bash /opt/vp/test.sh /tmp/seed.%s.json" % i, log)
                    st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); ok = st if fast else set(json.load(open("/tmp/seed.%s.json" % i))["passed"])
                    if not fast and st - ok: out.append("TESTS FAIL: %s" % sorted(st - ok)[:4])
                if check:
                    p = json.load(open(d + "/meta.json"))["property"]
                    with open("/tmp/seed.%s.chk" % i, "w") as cl:
                        rc = inrepo(w, "cd /verif; export SV_BUILD=/tmp/b%d SV_EVID=/tmp/b%d; time python3 check.py run %s" % (n, n, p), cl)
                    t = open("/tmp/seed.%s.chk" % i).read()
                    out.append("check %s rc=%d %s %s" % (p, rc, "CAUGHT" if "VIOLATION property=%s" % p in t and rc == 1 else "MISSED", "".join(re.findall(r"real\s+(\S+)", t))))
        except Exception as e: out.append("ERROR %r" % e)
        print(i, "; ".join(out) or "ok", flush=True)
        res[i] = out
if __name__ == "__main__":
    a = sys.argv[1:]; check = True; n = 3; fast = False
    while a and a[0].startswith("-"):
        if a[0] == "-j": n = int(a[1]); a = a[2:]
        elif a[0] == "--fast": fast = True; a = a[1:]
        elif a[0] == "--nocheck": check = False; a = a[1:]
    if not a: a = sorted(os.listdir(S))
    q = queue.Queue(); res = {}
    for i in a: q.put(i)
    ts = [threading.Thread(target=worker, args=(k + 1, q, res, check)) for k in range(min(n, len(a)))]
    for t in ts: t.start()
    for t in ts: t.join()
