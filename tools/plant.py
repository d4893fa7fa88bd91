#!/usr/bin/env python3
"""Confirm planted bugs in a scratch copy of /repo and keep them in seeded/.

  plant.py FILE.py [ID ...]     FILE.py defines BUGS, a list of dicts:
      id, property, edits [(file, old, new)], demo (C++ text), libs, needs, breaks

For each one: the patch applies, removes no line that a commit of ours added,
the tests still pass, demo.sh fails with it and passes without it.  Then the
property's own check is run against the copy; the outcome goes to
tools/plants.tsv (id, property, caught|missed).
"""
import importlib.util, json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
W = "/tmp/pl/w"
VP = "/tmp/pl/vp"
DEMO = r'''#!/bin/bash
# run in /repo; exit 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
clang++-18 -std=c++26 -DBOOST_HANA_CONFIG_ENABLE_STRING_UDL -DBOOST_ASIO_NO_TYPEID \
  -I"$PWD/include" -I"$PWD/example" -isystem /usr/include/jsoncpp \
  -include cstdint -include string -include algorithm -w -O1 \
  -I"$d" @FLAGS@ "$d/demo.cpp" -o "$t/demo" @LIBS@ || exit 3
timeout 60 "$t/demo"
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def setup():
    if not os.path.isdir(W):
        os.makedirs("/tmp/pl", exist_ok=True)
        sh(["git", "clone", "-q", "/repo", W])
        shutil.copytree("/opt/vp", VP, ignore=shutil.ignore_patterns("build*", "cache*") if False else None)
        for r, _, fs in os.walk(VP):
            for f in fs:
                p = os.path.join(r, f)
                if f.endswith((".sh", ".py")):
                    s = open(p).read()
                    open(p, "w").write(s.replace("/repo", W).replace("/opt/vp", VP))
    sh(["git", "-C", W, "fetch", "-q"]); sh(["git", "-C", W, "checkout", "-q", "-f", "origin/HEAD"])
    return W

def tests():
    out = "/tmp/pl/out.json"
    r = sh(["bash", VP + "/test.sh", out])
    try:
        j = json.load(open(out))
    except Exception:
        return None, r.stdout[-3000:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    return j, r.stdout[-3000:]

def passed_set(j):
    for k in ("passed", "pass", "stable"):
        if isinstance(j, dict) and k in j:
            return set(map(str, j[k]))
    if isinstance(j, dict) and "tests" in j:
        return {str(t.get("id", t.get("name"))) for t in j["tests"] if t.get("status") in ("pass", "passed")}
    return set()

def main():
    spec = importlib.util.spec_from_file_location("bugs", sys.argv[1])
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only = set(sys.argv[2:])
    setup()
    base = passed_set(json.load(open("/opt/vp/BASELINE.json")))
    ours = set(sh(["git", "-C", W, "log", "--format=%H", "--grep=^fix:"]).stdout.split())
    for b in m.BUGS:
        if only and b["id"] not in only:
            continue
        sh(["git", "-C", W, "checkout", "-q", "-f", "."])
        d = os.path.join(VERIF, "seeded", b["id"])
        tmp = "/tmp/pl/" + b["id"]
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        open(tmp + "/demo.cpp", "w").write(b["demo"])
        for f in b.get("files", []):
            shutil.copy(os.path.join(VERIF, f), tmp)
        if b.get("shim"):   # stand-ins for the browser, beside the demonstration
            shutil.copytree(os.path.join(VERIF, "shim"), tmp, dirs_exist_ok=True)
            b["flags"] = b.get("flags", []) + [r'''-DVF_BROWSER_JS="\"$d/browser.js\""''']
        open(tmp + "/demo.sh", "w").write(DEMO.replace("@LIBS@", " ".join(b.get("libs", []))).replace("@FLAGS@", " ".join(b.get("flags", []))))
        os.chmod(tmp + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(tmp + "/meta.json", "w"), indent=1)
        clean = sh(["bash", tmp + "/demo.sh"], cwd=W)
        if clean.returncode:
            print(b["id"], "DEMO FAILS ON CLEAN TREE\n", "\n".join(l for l in clean.stdout.split("\n") if "error" in l)[:600]); continue
        bad = None
        for f, old, new in b["edits"]:
            p = os.path.join(W, "include", f)
            s = open(p).read()
            if s.count(old) != 1:
                bad = "%s: %d matches of %r" % (f, s.count(old), old); break
            open(p, "w").write(s.replace(old, new))
        if bad:
            print(b["id"], "EDIT", bad); continue
        diff = sh(["git", "-C", W, "diff"]).stdout
        open(tmp + "/patch.diff", "w").write(diff)
        # removed lines must be of the original
        for f in {e[0] for e in b["edits"]}:
            bl = sh(["git", "-C", W, "blame", "-l", "-s", "HEAD", "--", "include/" + f]).stdout.split("\n")
            u0 = sh(["git", "-C", W, "diff", "-U0", "--", "include/" + f]).stdout
            for mm in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", u0, re.M):
                a, n = int(mm.group(1)), int(mm.group(2) or 1)
                for i in range(a - 1, a - 1 + n):
                    h = bl[i].split()[0].lstrip("^")
                    if any(o.startswith(h) for o in ours):
                        print(b["id"], "WARNING touches our line:", bl[i])
        dem = sh(["bash", tmp + "/demo.sh"], cwd=W)
        if dem.returncode == 0:
            print(b["id"], "DEMO PASSES WITH THE BUG\n", dem.stdout[-1500:]); continue
        if dem.returncode == 3:
            print(b["id"], "demo does not compile with the bug:", dem.stdout[-1500:])
        j, out = tests()
        ok = passed_set(j) if j else set()
        if base - ok:
            print(b["id"], "TESTS", len(base - ok), "fail:", sorted(base - ok)[:5], out[-1500:] if not ok else ""); continue
        env = dict(os.environ, VF_REPO=W, VERIF_SEED="1")
        c = sh([sys.executable, VERIF + "/run.py", b["property"]], env=env, cwd=VERIF)
        caught = c.returncode == 1 and ("VIOLATION property=" + b["property"]) in c.stdout
        shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d)
        print(b["id"], b["property"], "caught" if caught else "MISSED rc=%d" % c.returncode, "| demo rc", dem.returncode, dem.stdout.strip()[-200:], flush=True)
        if not caught:
            print(c.stdout[-1500:])
        tsv = HERE + "/plants.tsv"
        rows = {}
        if os.path.exists(tsv):
            for l in open(tsv):
                rows[l.split("\t")[0]] = l
        how = ""
        mm = re.findall(r"^\s*(\S+): FALSIFIED|falsified[: ]+(\S+)", c.stdout, re.M | re.I)
        rows[b["id"]] = "%s\t%s\t%s\t%s\n" % (b["id"], b["property"], "caught" if caught else "missed", b["breaks"].replace("\n", " "))
        open(tsv, "w").writelines(rows[k] for k in sorted(rows))
    sh(["git", "-C", W, "checkout", "-q", "-f", "."])

main()
