"""Writes DESIGN.md from design_head.md, the property table, harness headers, known findings and seeded/."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def write(P):
    t = open(V + "/tools/design_head.md").read()
    kf = json.load(open(V + "/known_findings.json"))
    t = t.replace("@FIXES@", "| property | commit | defect |\n|---|---|---|\n" + "\n".join("| %s | %s | %s |" % (k["property"], k["commit"], k["what"]) for k in kf if k["status"] == "fixed"))
    t = t.replace("@KNOWN@", "\n".join("* `%s` (%s): %s" % (k["id"], k["property"], k["what"]) for k in kf if k["status"] == "known"))
    rows = []
    for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
        m = json.load(open(d)); rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"].replace("|", "/").replace("\n", " "), m["needs"].replace("|", "/").replace("\n", " ")))
    t = t.replace("@SEEDS@", "| id | caught by | what it breaks | needs |\n|---|---|---|---|\n" + "\n".join(rows))
    mu = json.load(open(V + "/tools/mutants.json")) if os.path.exists(V + "/tools/mutants.json") else {}
    t = t.replace("@MUT@", mu.get("totals", "(none)")).replace("@MUTX@", mu.get("extensions", ""))
    o = [t, "## 9 Properties\n"]
    names = {"inputs": "inputs", "histories": "histories", "configurations": "configurations", "schedules": "schedules", "fault_sequences": "fault sequences"}
    for q in P:
        src = open("%s/harness/%s.cpp" % (V, q["id"])).read()
        tag = lambda k: re.findall(r"^//@%s\s+(.*)$" % k, src, re.M)
        hs = re.findall(r"^(QUICK|THOROUGH)\((\w+)\)", src, re.M)
        o.append("### %s %s\n\n%s\n" % (q["id"], q["title"], q["statement"]))
        o.append("* Quantifies over %s (%s)." % (q["quant"], ", ".join(names[x] for x in q["over"])))
        o.append("* Code: " + ", ".join("`%s`" % f for f in q["files"]) + "; " + "; ".join("%s (`%s`)" % m for m in q["mech"]) + ".")
        o.append("* Why not by tests: " + q["why"])
        for k, n in (("explain", "Oracle / method"), ("bounds", "Bounds"), ("assume", "Assumed")):
            for x in tag(k): o.append("* %s: %s" % (n, x[0].lower() + x[1:] if k != "explain" else x))
        o.append("* Harnesses: " + ", ".join(n + (" (thorough)" if k == "THOROUGH" else "") for k, n in hs) + ".\n")
    open(V + "/DESIGN.md", "w").write("\n".join(o))
