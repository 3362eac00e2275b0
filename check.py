#!/usr/bin/env python3
"""Solver-based checks of pvDataCPP: build (instrumented + native) and run.

  check.py setup                     build everything once
  check.py run ID [--tier quick|thorough]   run the check of one property
  check.py list
Exit 0: property held on everything explored; 1: VIOLATION printed; 2: no verdict.
"""
import sys, os, re, json, subprocess, hashlib, glob, time, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SV_REPO", "/repo")
EPICS = "/opt/vp/epics-base"
BUILD = os.environ.get("SV_BUILD", os.path.join(V, "build"))
EVID = os.environ.get("SV_EVID", os.path.join(V, "evidence"))
ENG = os.path.join(V, "engine")
NCPU = os.cpu_count() or 4
OPT = "O1"

def z3dir():
    for d in sorted(glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages/z3")):
        if os.path.exists(d + "/lib/libz3.so") and os.path.exists(d + "/include/z3.h"):
            return d + "/include", d + "/lib"
    return "/usr/include", "/usr/lib/x86_64-linux-gnu"

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    return p.returncode, p.stdout

class BuildError(Exception):
    pass

def must(cmd, **kw):
    rc, out = sh(cmd, **kw)
    if rc:
        raise BuildError("command failed (%d): %s\n%s" % (rc, " ".join(cmd)[:600], out[-4000:]))
    return out

def filehash(*paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, "rb") as f:
            h.update(f.read()); h.update(b"\0")
    return h.hexdigest()[:24]

def gen_version(dst):
    """pvdVersionNum.h as the EPICS build generates it"""
    vals = {}
    try:
        for l in open(REPO + "/configure/CONFIG_PVDATA_VERSION"):
            m = re.match(r"\s*(\w+)\s*=\s*(\S*)", l)
            if m: vals[m.group(1)] = m.group(2)
    except OSError:
        pass
    os.makedirs(dst + "/pv", exist_ok=True)
    t = open(glob.glob(REPO + "/src/pv/pvdVersionNum.h@")[0]).read()
    t = re.sub(r"@(\w+)@", lambda m: vals.get(m.group(1), "0"), t)
    p = dst + "/pv/pvdVersionNum.h"
    if not os.path.exists(p) or open(p).read() != t:
        with open(p, "w") as f: f.write(t)

def includes():
    gen = BUILD + "/gen"
    gen_version(gen)
    inc = ["-I" + gen, "-I" + REPO + "/src"]
    for d in sorted(glob.glob(REPO + "/src/*/")):
        if not os.path.basename(d.rstrip("/")).startswith("O."):
            inc.append("-I" + d.rstrip("/"))
    inc += ["-I" + EPICS + "/include", "-I" + EPICS + "/include/os/Linux", "-I" + EPICS + "/include/compiler/gcc"]
    return inc

def sources():
    return [s for s in sorted(glob.glob(REPO + "/src/*/*.cpp")) if "/O." not in s]

DEFS = ["-D_GNU_SOURCE", "-DUNIX", "-Dlinux", "-w"]

class Builder:
    def __init__(self):
        for d in ("obj", "bin", "gen"):
            os.makedirs(os.path.join(BUILD, d), exist_ok=True)
        self.inc = includes()
        self.zi, self.zl = z3dir()
        self.encoded = []

    def cached(self, key, ext, make):
        out = os.path.join(BUILD, "obj", key + ext)
        if not os.path.exists(out):
            tmp = out + ".%d.%d.tmp" % (os.getpid(), time.monotonic_ns())
            make(tmp)
            os.replace(tmp, out)
        else:
            os.utime(out)
        return out

    def plugin(self):
        src = ENG + "/svpass.cpp"
        fl = must(["llvm-config-18", "--cppflags"]).split()
        return self.cached(filehash(src), ".so", lambda o: must(["clang++-18", "-O1", "-fPIC", "-shared", "-fno-rtti", "-std=c++17"] + fl + [src, "-o", o]))

    def runtime(self):
        srcs = [ENG + "/svrt.cpp", ENG + "/svexpr.h", ENG + "/sv_internal.h"]
        def mk(o):
            must(["clang++-18", "-O2", "-g1", "-std=c++17", "-fPIE", "-include", ENG + "/pre.h", "-I" + self.zi, "-c", srcs[0], "-o", o + ".1.o"])
            # the engine's own copies of std:: templates must not be merged with the instrumented ones
            must(["ld", "-r", "--force-group-allocation", o + ".1.o", "-o", o + ".2.o"])
            must(["objcopy", "-w", "--keep-global-symbol=__sv*", "--keep-global-symbol=_Z*__sv*", "--keep-global-symbol=sv_*", "--keep-global-symbol=main", "--keep-global-symbol=__asan_*", o + ".2.o", o])
            os.unlink(o + ".1.o"); os.unlink(o + ".2.o")
        return self.cached(filehash(*srcs) + "L3", ".o", mk)

    def sym(self, src, plugin):
        """one translation unit -> instrumented object"""
        base = ["clang++-18", "-std=gnu++17", "-" + OPT, "-g1", "-fPIC", "-include", ENG + "/pre.h"] + DEFS + ["-DSV_SYM"] + ["-I" + ENG + "/compat"] + self.inc + ["-I" + ENG, "-I" + ENG + "/env", "-fsanitize=address"]
        pp = must(base + ["-E", src])
        key = hashlib.sha256((pp + plugin + OPT + " ".join(base)).encode()).hexdigest()[:24]
        def make(o):
            must(base + ["-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c", src, "-o", o + ".bc"])
            must(["opt-18", "-load-pass-plugin=" + plugin, "-vectorize-loops=false", "-vectorize-slp=false", "-passes=default<%s>,sv,asan" % OPT, o + ".bc", "-o", o + ".2.bc"])
            must(["clang++-18", "-O1", "-g1", "-fPIC", "-Xclang", "-disable-llvm-passes", "-c", "-x", "ir", o + ".2.bc", "-o", o])
            os.unlink(o + ".bc"); os.unlink(o + ".2.bc")
        return self.cached(key, ".o", make)

    def nat(self, src, tsan=False):
        san = "-fsanitize=address" if not tsan else "-fno-sanitize=all" if src.startswith(ENG) else "-fsanitize=thread"
        base = ["g++", "-std=gnu++17", "-O1", "-g1", san] + (["-DSV_TSAN"] if tsan else []) + DEFS + self.inc + ["-I" + ENG, "-I" + ENG + "/env"]
        pp = must(base + ["-E", src])
        key = hashlib.sha256((pp + " ".join(base)).encode()).hexdigest()[:24]
        return self.cached("n" + key, ".o", lambda o: must(base + ["-c", src, "-o", o]))

    def native_tsan(self, harness_srcs):
        """replays counterexamples of data races under ThreadSanitizer"""
        srcs = harness_srcs + sources() + [ENG + "/env/env_sched.cpp", ENG + "/env/env_yajl_nat.cpp", ENG + "/svnative.cpp"]
        with ThreadPoolExecutor(NCPU) as ex:
            objs = list(ex.map(lambda s: self.nat(s, True), sorted(srcs, key=lambda s: -os.path.getsize(s))))
        exe = os.path.join(BUILD, "bin", "t" + hashlib.sha256(" ".join(sorted(objs)).encode()).hexdigest()[:24])
        lc = libcom()
        if not os.path.exists(exe):
            must(["g++", "-fsanitize=thread", "-Wl,--allow-multiple-definition", "-Wl,--allow-shlib-undefined", "-Wl,-rpath," + os.path.dirname(lc)] + objs + [lc, "-lpthread", "-o", exe + ".tmp%d" % os.getpid()])
            os.replace(exe + ".tmp%d" % os.getpid(), exe)
        return exe

    def build(self, harness_srcs, want_native=True):
        """returns (symbolic binary, native binary or None)"""
        with ThreadPoolExecutor(NCPU) as ex:
            fr = ex.submit(self.runtime)
            fp = ex.submit(self.plugin)
            plugin = fp.result()
            lib = sources()
            env = [ENG + "/env/env_core.cpp", ENG + "/env/env_sched.cpp", ENG + "/env/env_yajl_sym.cpp", ENG + "/env/env_stream.cpp"]
            nenv = [ENG + "/env/env_sched.cpp", ENG + "/env/env_yajl_nat.cpp", ENG + "/svnative.cpp"]
            # big translation units first
            order = sorted(harness_srcs + lib + env, key=lambda s: -os.path.getsize(s))
            fs = [ex.submit(self.sym, s, plugin) for s in order]
            fn = [ex.submit(self.nat, s) for s in sorted(harness_srcs + lib + nenv, key=lambda s: -os.path.getsize(s))] if want_native else []
            objs = [f.result() for f in fs]
            nobjs = [f.result() for f in fn]
            rt = fr.result()
        key = hashlib.sha256(" ".join(sorted(objs) + [rt]).encode()).hexdigest()[:24]
        exe = os.path.join(BUILD, "bin", key)
        rtd = must(["clang++-18", "-print-resource-dir"]).strip() + "/lib/linux"
        def link(out, cmd):
            if os.path.exists(out): return
            tmp = out + ".%d.tmp" % os.getpid()
            must(cmd + ["-o", tmp]); os.replace(tmp, out)
        cmd = ["clang++-18", "-pie", "-fsanitize=address", "-shared-libasan", "-Wl,-rpath," + rtd, "-Wl,-rpath," + self.zl, "-Wl,--version-script=" + ENG + "/exports.map"] + objs + [rt, self.zl + "/libz3.so", "-ldl", "-lpthread"]
        try:
            link(exe, cmd)
        except BuildError:
            # the code calls a libCom function without a model: it runs uninstrumented, its arguments concretised
            lc = libcom()
            link(exe, cmd + ["-Wl,--allow-shlib-undefined", "-Wl,-rpath," + os.path.dirname(lc), lc])
        nexe = None
        if want_native:
            nkey = hashlib.sha256(" ".join(sorted(nobjs)).encode()).hexdigest()[:24]
            nexe = os.path.join(BUILD, "bin", "n" + nkey)
            lc = libcom(); lcd = os.path.dirname(lc)
            link(nexe, ["g++", "-fsanitize=address", "-Wl,--allow-multiple-definition", "-Wl,--allow-shlib-undefined", "-Wl,-rpath," + lcd] + nobjs + [lc, "-lpthread"])
        return exe, nexe

def libcom():
    lc = EPICS + "/lib/linux-x86_64/libCom.so"
    if os.path.exists(lc): return lc
    return sorted(glob.glob("/lib/x86_64-linux-gnu/libCom.so*") + glob.glob("/usr/lib/epics/lib/linux-x86_64/libCom.so*"))[0]

def prune():
    """keep the cache small: newest 1200 objects, 12 binaries"""
    for d, keep in (("obj", 1200), ("bin", 12)):
        fs = sorted(glob.glob(os.path.join(BUILD, d, "*")), key=lambda f: -os.path.getmtime(f))
        for f in fs[keep:]:
            try: os.unlink(f)
            except OSError: pass

NATENV = dict(os.environ, TSAN_OPTIONS="halt_on_error=1:exitcode=66:report_bugs=1", ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0")

def run_native(nexe, h, tier, hexin, timeout=90):
    try:
        p = subprocess.run([nexe, "-h", h, "-T", tier, "-i", hexin], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=NATENV, timeout=timeout)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return -14, "", "timeout"

def meta(src):
    m = {"bounds": [], "assume": [], "explain": [], "title": ""}
    for l in open(src):
        g = re.match(r"//@(\w+)\s+(.*)", l)
        if g: m.setdefault(g.group(1), [] if g.group(1) != "title" else "")
        if g and g.group(1) != "title": m[g.group(1)].append(g.group(2).strip())
        elif g: m["title"] = g.group(2).strip()
    return m

def known_findings():
    p = os.path.join(V, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

def check(pid, tier):
    t0 = time.time()
    src = os.path.join(V, "harness", pid + ".cpp")
    b = Builder()
    exe, nexe = b.build([src])
    t_build = time.time() - t0
    md = meta(src)
    T = "1" if tier == "thorough" else "0"
    hs = [(n, int(t)) for n, t in (l.split() for l in must([exe, "-l"]).splitlines())]
    hs = sorted(n for n, t in hs if t == 0 or T == "1")
    only = os.environ.get("SV_ONLY")
    if only: hs = [h for h in hs if re.search(only, h)]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    total = float(os.environ.get("SV_BUDGET", "330" if T == "0" else "3000"))
    deadline = time.time() + total
    qto = "20000" if T == "0" else "120000"
    workers = min(len(hs), 4) or 1
    jobs = max(2, (NCPU + workers - 1) // workers + 1)
    def one(h):
        left = max(5.0, deadline - time.time())
        out = os.path.join(BUILD, "bin", "r_%s_%s_%d.json" % (pid, h, os.getpid()))
        rc, o = sh([exe, "-h", h, "-T", T, "-t", "%.0f" % left, "-j", str(jobs), "-q", qto, "-s", str(seed & 0x7fffffff), "-o", out], timeout=left + 400)
        try:
            r = json.load(open(out)); os.unlink(out)
        except Exception as e:
            r = {"harness": h, "error": "engine produced no result (rc %d): %s %s" % (rc, o[-500:], e), "violations": [], "notes": [], "ends": {}, "paths": 0, "complete": False}
        return r
    with ThreadPoolExecutor(workers) as ex:
        res = list(ex.map(one, hs))
    # native confirmation of violations, native validation of sample paths
    validated, mism = 0, []
    viols, unconf, errors, known = [], [], [], {}
    kf = {k["id"]: k for k in known_findings() if k.get("status") == "known"}
    jobs2 = []
    texe = b.native_tsan([src]) if any(v["kind"] == "race" for r in res for v in r.get("violations", [])) else None
    for r in res:
        if r.get("error"): errors.append(r["harness"] + ": " + r["error"])
        for v in r.get("violations", []): jobs2.append(("v", r["harness"], v["input"], v))
        for s in r.get("samples", []): jobs2.append(("s", r["harness"], s, None))
    with ThreadPoolExecutor(NCPU) as ex:
        outs = list(ex.map(lambda j: run_native(texe if j[3] and j[3]["kind"] == "race" else nexe, j[1], T, j[2]), jobs2))
    for (k, h, hexin, v), (rc, o, e) in zip(jobs2, outs):
        if k == "s":
            if rc == 0: validated += 1
            else: mism.append((h, hexin, rc, o.strip()[-200:], e[-300:]))
        else:
            if rc in (0, 5, 6): unconf.append((h, v, rc))
            elif rc == 7:
                known[o.split()[1]] = known.get(o.split()[1], 0) + 1
            else: viols.append((h, v, rc, o.strip()[-300:], e))
    # a passing path whose native run fails is a violation too (the real code fails on that input)
    for h, hexin, rc, o, e in mism:
        if rc in (3, 4, 99, -6, -11, -14, -8, -4, -7): viols.append((h, {"kind": "native", "label": "native run of an explored path fails", "input": hexin}, rc, o, e))
        elif rc != 7: errors.append("%s: native validation of sample %s gave %s %s" % (h, hexin, rc, o))
    rdir = os.path.join(EVID, "replay"); os.makedirs(rdir, exist_ok=True)
    seen_known = {}
    for r in res:
        for n in r.get("notes", []):
            if n[0] == "KNOWN": seen_known[n[1]] = seen_known.get(n[1], 0) + n[2]
    for k in known: seen_known[k] = seen_known.get(k, 0) + known[k]
    rcode = 0
    for k in sorted(seen_known):
        if k in kf: print("KNOWN-FINDING: property=%s %s" % (kf[k]["property"], kf[k]["what"]))
        else: errors.append("harness reports known finding %s which is not listed in known_findings.json" % k)
    done = set()
    for h, v, rc, o, e in viols:
        key = (h, v["label"])
        if key in done: continue
        done.add(key)
        name = "%s_%s_%s" % (pid, h, hashlib.sha256((v["label"] + v["input"]).encode()).hexdigest()[:8])
        rp = os.path.join(rdir, name + ".json")
        cmd = "python3 %s/check.py replay %s %s %s %s" % (V, pid, h, T, v["input"] or "-")
        json.dump({"property": pid, "harness": h, "tier": tier, "input": v["input"], "label": v["label"], "kind": v["kind"], "native_exit": rc, "native_stdout": o, "native_stderr": e[-3000:], "replay": cmd}, open(rp, "w"), indent=1)
        print("%s: %s [%s] native replay exit %s: %s" % (h, v["label"], v["kind"], rc, (o or e.strip()[-200:]).replace("\n", " | ")))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        rcode = 1
    vac = []
    src_labels = set(re.findall(r'sv_check\s*\(.*?"([^"]+)"\s*\)\s*;', open(src).read()))
    reached = set()
    for r in res:
        labs = [n[1] for n in r.get("notes", []) if n[0] == "REACH"]
        reached.update(labs)
        if not r.get("error") and (not labs) and not r.get("violations"): vac.append(r["harness"])
    if vac: errors.append("vacuous harness (no assertion reached): " + ", ".join(vac))
    fns = functions(exe, res)
    notes = {}
    for r in res:
        for n in r.get("notes", []):
            if n[0] in ("INCOMPLETE", "EXTERN-CONCRETISED", "NOTE", "COVER", "SINK"): notes.setdefault(n[0], {}); notes[n[0]][n[1]] = notes[n[0]].get(n[1], 0) + n[2]
    S = lambda k: sum(r.get(k, 0) for r in res)
    ok = sum(r.get("ends", {}).get("ok", 0) for r in res)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2), "violations": len(done),
      "assumptions": md["assume"],
      "coverage": {
        "explanation": "Bounded symbolic execution of the real code: src/**/*.cpp is compiled to LLVM IR, instrumented, executed; every branch, address and assertion that depends on the symbolic input is decided by Z3 over all its values. states = symbolic paths, transitions = solver-decided branch points on them.",
        "bounds": md["bounds"], "what": md["explain"],
        "states": S("paths"), "transitions": S("branches"),
        "traces_validated_against_impl": validated,
        "paths_completed": ok,
        "solver_queries": S("queries"), "solver_sat": S("sat"), "solver_unsat": S("unsat"), "solver_unknown": S("unknown"), "unsat_cache_hits": S("cached"),
        "assertions_evaluated": S("checks"), "assertions_symbolic": S("symchecks"), "assertions_proved_unsat": S("checks_unsat"),
        "solver_time_s": round(S("ztime"), 2), "build_s": round(t_build, 1),
        "exhaustive_within_bounds": all(r.get("complete") for r in res),
        "harnesses": [{"name": r["harness"], "paths": r.get("paths"), "complete": r.get("complete"), "queries": r.get("queries"), "wall_s": r.get("wall"), "ends": r.get("ends")} for r in res],
        "incomplete": {r["harness"]: ("time budget" if r.get("truncated") else "see notes") for r in res if not r.get("complete")},
        "unreached_assertions": sorted(src_labels - reached),
        "notes": notes, "functions_encoded": fns, "functions_encoded_count": len(fns),
        "samples": [{"harness": r["harness"], "input_hex": s} for r in res for s in r.get("samples", [])[:1]][:20],
        "unconfirmed_counterexamples": [{"harness": h, "label": v["label"], "input": v["input"], "native_exit": rc} for h, v, rc in unconf],
        "known_findings_hit": seen_known, "errors": errors }}
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    c = ev["coverage"]
    print("%s %s: %d harnesses, %d paths, %d branch points, %d queries (%d unsat, %.1fs solver), %d assertions (%d proved by solver), complete=%s, native-validated %d, build %.0fs, wall %.0fs" % (pid, tier, len(res), c["states"], c["transitions"], c["solver_queries"], c["solver_unsat"], c["solver_time_s"], c["assertions_evaluated"], c["assertions_proved_unsat"], c["exhaustive_within_bounds"], validated, t_build, ev["wall_s"]))
    if os.environ.get("SV_V"):
        for r in res: print("  ", r["harness"], "paths", r.get("paths"), "q", r.get("queries"), "complete", r.get("complete"), "wall", r.get("wall"), "ends", r.get("ends"), [n for n in r.get("notes", []) if n[0] in ("INCOMPLETE",)])
        if c["unreached_assertions"]: print("   unreached:", c["unreached_assertions"])
        if notes.get("EXTERN-CONCRETISED"): print("   extern:", notes["EXTERN-CONCRETISED"])
    for h, v, rc in unconf: print("UNCONFIRMED: counterexample does not reproduce natively, not a violation: %s %s input %s (exit %s)" % (h, v["label"], v["input"], rc))
    for e in errors: print("ERROR:", e)
    if rcode == 0 and errors: rcode = 2
    return rcode

def functions(exe, res):
    addrs = sorted({a for r in res for a in r.get("functions", [])})
    if not addrs: return []
    p = subprocess.run(["llvm-symbolizer-18", "-e", exe, "--functions=linkage", "--no-inlines"], input="\n".join(addrs), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    names = set()
    for blk in p.stdout.split("\n\n"):
        l = blk.strip().splitlines()
        if len(l) >= 2 and (REPO + "/src/") in l[1]: names.add(l[0])
    if not names: return []
    q = subprocess.run(["c++filt"], input="\n".join(sorted(names)), stdout=subprocess.PIPE, text=True)
    return sorted(set(x[:160] for x in q.stdout.splitlines()))

def main(a):
    if a[:1] == ["setup"]:
        b = Builder()
        t = time.time()
        srcs = sorted(glob.glob(os.path.join(V, "harness", "*.cpp")))
        b.build(srcs[:1])
        print("built in %.0fs" % (time.time() - t)); return 0
    if a[:1] == ["list"]:
        for s in sorted(glob.glob(os.path.join(V, "harness", "*.cpp"))): print(os.path.basename(s)[:-4])
        return 0
    if a[:1] == ["replay"]:
        pid, h, T, hexin = a[1:5]
        b = Builder(); _, nexe = b.build([os.path.join(V, "harness", pid + ".cpp")])
        rc, o, e = run_native(nexe, h, T, "" if hexin == "-" else hexin)
        print(o, e, "exit", rc, sep="\n"); return 0 if rc == 0 else 1
    if a[:1] == ["run"]:
        pid = a[1]; tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a: tier = a[a.index("--tier") + 1]
        try:
            rc = check(pid, tier)
        except BuildError as e:
            print("ERROR: build failed\n" + str(e)); rc = 2
        prune()
        return rc
    print(__doc__); return 2

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
