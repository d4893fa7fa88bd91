#!/usr/bin/env python3
"""Decide one property: build its harness from /repo's working tree, search
generated inputs for a violation, write the evidence file.

  run.py <ID> [--tier quick|thorough] [--replay FILE] [--only PROP] [--scale X]

Exit 0: the property held on everything explored.  Exit 1 with a line
"VIOLATION property=<ID> replay=<path>": it is broken.  Exit 2: the check
itself could not run (toolchain missing, disk full, ...).
"""
import argparse, concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
CXX = "clang++-18"
BASE = ["-std=c++26", "-DBOOST_HANA_CONFIG_ENABLE_STRING_UDL", "-DBOOST_ASIO_NO_TYPEID",
        "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "example"),
        "-isystem", "/usr/include/jsoncpp", "-I" + os.path.join(HERE, "lib"),
        "-include", "cstdint", "-include", "string", "-include", "algorithm",
        "-w", "-O1", "-g1", "-fno-omit-frame-pointer"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
LIBS = ["-ljsoncpp", "-lpthread"]
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            h.update(root.encode() + b"\0" + open(root, "rb").read())
            continue
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                try:
                    h.update(p.encode() + b"\0" + open(p, "rb").read())
                except OSError:
                    pass
    return h.hexdigest()[:20]


def toolchain_ok():
    r = sh([CXX, "-x", "c++", "-std=c++26", "-fsyntax-only", "-"], input="#include <cstdint>\nint main(){}\n")
    return r.returncode == 0


def compile_one(src, obj, flags, key):
    stamp = obj + ".key"
    if os.path.exists(obj) and os.path.exists(stamp) and open(stamp).read() == key:
        return None
    cmd = [CXX] + BASE + flags + ["-c", src, "-o", obj]
    r = sh(cmd)
    if r.returncode and ("unable to execute command" in r.stdout or "Killed" in r.stdout or "No space left" in r.stdout):
        time.sleep(3)
        r = sh(cmd)
    if r.returncode:
        return " ".join(cmd) + "\n" + r.stdout
    with open(stamp, "w") as f:
        f.write(key)
    return None


def build(cid, spec, fuzz=False):
    """returns (binary, error text)"""
    bdir = os.path.join(HERE, "build", cid + ("-fuzz" if fuzz else ""))
    os.makedirs(bdir, exist_ok=True)
    repo_key = tree_hash([os.path.join(REPO, "include"), os.path.join(REPO, "example"), os.path.join(HERE, "lib")])
    san = SAN + (["-fsanitize=fuzzer-no-link", "-DVF_FUZZ"] if fuzz else [])
    srcs = list(spec["src"])
    if "generate" in spec:
        srcs += spec["generate"](bdir)
    jobs, objs = [], []
    mainsrc = os.path.join(HERE, "lib", "vf_main.cpp")
    for s in [mainsrc] + [os.path.join(HERE, s) for s in srcs]:
        o = os.path.join(bdir, os.path.basename(s) + ".o")
        flags = san + spec.get("flags", [])
        key = hashlib.sha256((repo_key + tree_hash([s]) + repr(BASE + flags)).encode()).hexdigest()
        if s == mainsrc:
            key = hashlib.sha256((tree_hash([os.path.join(HERE, "lib")]) + repr(BASE + flags)).encode()).hexdigest()
        for dep in spec.get("deps", []):
            key += tree_hash([os.path.join(HERE, dep)])
        jobs.append((s, o, flags, key))
        objs.append(o)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(lambda j: compile_one(*j), jobs) if e]
    if errs:
        return None, "\n".join(errs)
    exe = os.path.join(bdir, "check")
    r = sh([CXX] + SAN + (["-fsanitize=fuzzer"] if fuzz else []) + objs + ["-o", exe] + spec.get("libs", []) + LIBS)
    if r.returncode:
        return None, r.stdout
    return exe, None


def known_findings(cid):
    """keys of the open findings listed for this property"""
    path = os.path.join(HERE, "known_findings.txt")
    out = {}
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == cid:
                out[m.group(2)] = m.group(3)
    return out


def run_bin(exe, args, timeout):
    try:
        return subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                              errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(exe, 124, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""))


def fuzz_stage(cid, spec, seed, secs, rdir, exe, known):
    """coverage-guided search over the same properties; returns (stats, replay or None)"""
    fexe, err = build(cid, spec, fuzz=True)
    if err:
        return [{"error": err[-400:]}], None
    stats = []
    props = spec["fuzz"]
    per = max(5, secs // max(1, (len(props) + 3) // 4))

    def one(p):
        work = os.path.join(HERE, "build", cid + "-fuzz", "w-" + p)
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(os.path.join(work, "corpus"))
        env = dict(os.environ, VF_FUZZ_PROP=p)
        r = sh([fexe, os.path.join(work, "corpus"), f"-max_total_time={per}", f"-seed={seed}", "-max_len=2048",
                "-timeout=60", "-rss_limit_mb=3000", "-print_final_stats=1", "-artifact_prefix=" + work + "/",
                "-verbosity=0"], env=env, cwd=work)
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", r.stdout)
        st = {"prop": p, "executions": int(m.group(1)) if m else 0,
              "corpus": len(os.listdir(os.path.join(work, "corpus")))}
        bad = [f for f in os.listdir(work) if f.startswith(("crash-", "timeout-", "oom-"))]
        rep = None
        for b in bad:
            args = ["--from-bytes", os.path.join(work, b), "--only", p, "--replay-dir", rdir]
            for k in known:
                args += ["--known", k]
            rr = run_bin(exe, args, 200)
            if rr.returncode == 1:
                m = re.search(r"^REPLAY (.*)$", rr.stdout, re.M)
                rep = (m.group(1) if m else os.path.join(work, b), rr.stdout)
        return st, rep

    found = None
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for st, rep in ex.map(one, props):
            stats.append(st)
            if rep and not found:
                found = rep
    return stats, found


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", default="1")
    ap.add_argument("--budget")
    a = ap.parse_args()
    cid, tier = a.id, a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = CHECKS[cid]
    t0 = time.time()
    rdir = os.path.join(HERE, "replays", cid)
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    known = known_findings(cid)

    def evidence(cov, violations):
        ev = {"property": cid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
        p = os.path.join(HERE, "evidence", cid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)

    # programs are generated from tier and seed; a replay needs the ones it was found with
    os.environ["VF_TIER_NOW"], os.environ["VF_SEED_NOW"] = tier, str(seed)
    if a.replay and os.path.exists(a.replay + ".gen"):
        os.environ["VF_TIER_NOW"], os.environ["VF_SEED_NOW"] = open(a.replay + ".gen").read().split()
    log = os.path.join(rdir, "compile.log")
    if os.path.exists(log):
        os.remove(log)
    exe, err = build(cid, spec)
    if err:
        log = os.path.join(rdir, "compile.log")
        with open(log, "w") as f:
            f.write(err)
        if not toolchain_ok():
            print("error: the toolchain does not work\n" + err[-2000:])
            return 2
        lines = [l for l in err.splitlines() if "error:" in l][:8]
        print("the programs that use this part of the library no longer compile:\n" + "\n".join(lines))
        print(f"VIOLATION property={cid} replay={log}")
        evidence({"evaluations": 0, "distinct_nontrivial": 0, "rule": "harness did not compile against /repo", "samples": []}, 1)
        return 1

    if a.replay:
        args = ["--replay", os.path.abspath(a.replay)]
        r = run_bin(exe, args, 600)
        print(r.stdout)
        return r.returncode

    b = spec.get("budget", (40, 420))
    budget = float(a.budget) if a.budget else (b[0] if tier == "quick" else b[1])
    out = os.path.join(HERE, "build", cid, "stats.json")
    args = ["--seed", str(seed), "--tier", tier, "--budget", str(budget), "--out", out, "--replay-dir", rdir,
            "--workers", "8", "--scale", a.scale]
    if a.only:
        args += ["--only", a.only]
    for k in known:
        args += ["--known", k]

    def attempt():
        if os.path.exists(out):
            os.remove(out)
        r = run_bin(exe, args, budget * 3 + 400)
        try:
            return r, json.load(open(out))
        except (OSError, ValueError):
            return r, None

    r, st = attempt()
    if st is None:
        r, st = attempt()
    if st is None:
        print(r.stdout[-3000:])
        print("error: the driver gave no statistics")
        return 2
    if st["failed"] and st["flaky"]:
        # the failure did not reproduce by itself: believe it only if the same run fails again
        r2, st2 = attempt()
        if st2 is not None and not st2["failed"]:
            print("note: a failure did not reproduce:", st["failure"]["prop"], st["failure"]["msg"][:300])
        if st2 is not None:
            r, st = r2, st2

    fuzz_stats, fuzz_rep = [], None
    if tier == "thorough" and spec.get("fuzz") and not st["failed"]:
        fuzz_stats, fuzz_rep = fuzz_stage(cid, spec, seed, spec.get("fuzz_s", 120), rdir, exe, known)

    samples = []
    for p in st["props"]:
        for s in p["samples"][:2]:
            samples.append({"check": p["name"], "case": s})
    cov = {
        "evaluations": sum(p["evaluations"] for p in st["props"]),
        "distinct_nontrivial": st["distinct_nontrivial"],
        "rule": spec["rule"],
        "samples": samples[:24],
        "checks": [{k: p[k] for k in ("name", "evaluations", "discarded", "exhausted", "labels")} for p in st["props"]],
    }
    if fuzz_stats:
        cov["coverage_guided"] = fuzz_stats
    hits = {}
    for p in st["props"]:
        for k, n in p["known"].items():
            hits[k] = hits.get(k, 0) + n
    for k, what in known.items():
        print(f"KNOWN-FINDING: property={cid} key={k} {what} (met {hits.get(k, 0)} times in this run)")
    if known:
        cov["known_findings_met"] = hits
    bad = st["failed"] or fuzz_rep
    evidence(cov, 1 if bad else 0)
    if st["failed"]:
        f = st["failure"]
        print(f"{f['prop']}: {f['msg']}\n  case: {f['case']}")
        if "generate" in spec:
            with open(f["replay"] + ".gen", "w") as g:
                g.write(f"{tier} {seed}\n")
        print(f"VIOLATION property={cid} replay={f['replay']}")
        return 1
    if fuzz_rep:
        print(fuzz_rep[1][-2000:])
        print(f"VIOLATION property={cid} replay={fuzz_rep[0]}")
        return 1
    print(f"{cid} held: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct non-trivial, {time.time() - t0:.1f} s")
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception as e:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
