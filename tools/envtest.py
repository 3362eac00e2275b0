#!/usr/bin/env python3
"""Compares the models in engine/env/env_core.cpp with the real libCom (developer tool)."""
import subprocess, tempfile, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check as c
inc = ["-I" + c.EPICS + "/include", "-I" + c.EPICS + "/include/os/Linux", "-I" + c.EPICS + "/include/compiler/gcc", "-I" + c.ENG, "-I" + c.ENG + "/env"]
with tempfile.TemporaryDirectory() as t:
    c.must(["g++", "-std=gnu++17", "-O1", "-w"] + c.DEFS + inc + ["-c", c.ENG + "/env/env_core.cpp", "-o", t + "/m.o"])
    syms = [l.split()[-1] for l in c.must(["nm", "--defined-only", t + "/m.o"]).splitlines() if " T " in l]
    c.must(["objcopy"] + ["--redefine-sym=%s=m_%s" % (s, s) for s in syms] + [t + "/m.o"])
    lc = c.libcom()
    c.must(["g++", "-std=gnu++17", "-O1", "-w"] + c.DEFS + inc + [c.V + "/tools/envtest.cpp", t + "/m.o", lc, "-Wl,--allow-shlib-undefined", "-Wl,-rpath," + os.path.dirname(lc), "-o", t + "/x"])
    p = subprocess.run([t + "/x"], text=True, errors="replace", stdout=subprocess.PIPE); print(p.stdout); sys.exit(p.returncode)
