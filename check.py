#!/usr/bin/env python3
"""check.py <property-id> [quick|thorough]      run one registered check
   check.py replay <replay-file>               re-run one recorded counterexample
   check.py build-all                          compile every harness (warms nothing that checks rely on)
Builds the harness of the property from /repo's current working tree, explores it
exhaustively within its bounds, rewrites evidence/<id>.json.
exit 0: property held on everything explored (known findings are printed)
exit 1: VIOLATION property=<id> replay=<path>
exit 2: the check itself failed (build error, divergence while replaying, ...)"""
import sys, os, json, subprocess, time, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MAEC_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS, COMMON

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def compile_one(job):
    src, obj, flags, cc = job
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    r = sh([cc, *flags, "-c", src, "-o", obj])
    return (src, r.returncode, r.stdout)

def build(pid):
    """Everything is compiled from scratch from /repo's working tree."""
    c = CHECKS[pid]
    bdir = os.path.join(HERE, "build", pid)
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    inc = ["-I" + os.path.join(REPO, "include/maec"), "-I" + os.path.join(HERE, "harness"), "-I" + os.path.join(REPO, "include")]
    base = c.get("flags", COMMON["flags"]) + inc
    lib = c.get("lib_flags", COMMON["lib_flags"])
    jobs, objs = [], []
    srcs = []
    if c.get("sources", "all") == "all":
        for d in ("src", "src/io", "src/dsp"):
            p = os.path.join(REPO, d)
            srcs += [os.path.join(p, f) for f in sorted(os.listdir(p)) if f.endswith(".cpp")]
    for s in srcs:
        o = os.path.join(bdir, "repo_" + os.path.relpath(s, REPO).replace("/", "_") + ".o")
        jobs.append((s, o, base + lib, "g++"))
        objs.append(o)
    for h in c["harness"]:
        extra = []
        if isinstance(h, (list, tuple)):
            h, extra = h[0], list(h[1])
        s = os.path.join(HERE, "harness", h)
        o = os.path.join(bdir, "h_" + h.replace("/", "_") + ".o")
        jobs.insert(0, (s, o, base + (extra if extra else c.get("harness_flags", lib)), "g++"))
        objs.append(o)
    s = os.path.join(HERE, "harness/mc.cpp")
    o = os.path.join(bdir, "h_mc.o")
    jobs.insert(0, (s, o, base + c.get("mc_flags", ["-O1"]), "g++"))
    objs.append(o)
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        res = list(ex.map(compile_one, jobs))
    bad = [r for r in res if r[1] != 0]
    if bad:
        for b in bad:
            print("BUILD FAILED:", b[0]); print(b[2][-3000:])
        return None
    exe = os.path.join(bdir, "check")
    # objects of the library go into an archive so that only what is used is linked
    ar = os.path.join(bdir, "libmaec.a")
    ro = [x for x in objs if os.path.basename(x).startswith("repo_")]
    ho = [x for x in objs if not os.path.basename(x).startswith("repo_")]
    if ro:
        sh(["ar", "rcs", ar, *ro])
    r = sh(["g++", "-o", exe, *ho, *([ar] if ro else []), *c.get("link", COMMON["link"])])
    if r.returncode != 0:
        print("LINK FAILED"); print(r.stdout[-4000:])
        return None
    return exe

def known_for(pid):
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                k = json.loads(l)
                if k.get("property") == pid and k.get("kind") == "finding":
                    out.append(k)
    return out

def run(pid, tier):
    t0 = time.time()
    c = CHECKS[pid]
    exe = build(pid)
    if exe is None:
        print("ERROR: build failed for", pid)
        return 2
    bdir = os.path.dirname(exe)
    tb = time.time() - t0
    known = known_for(pid)
    kf = os.path.join(bdir, "known.txt")
    with open(kf, "w") as f:
        for k in known:
            for case in k["cases"]:
                f.write(case + "\n")
    out = os.path.join(bdir, "out.json")
    budget = c.get("budget", {}).get(tier, 560 if tier == "quick" else 3000)
    env = dict(os.environ)
    env.pop("ASAN_OPTIONS", None)
    cmd = [exe, "--out", out, "--work", bdir, "--tier", tier, "--budget", str(budget), "--known", kf]
    r = sh(cmd, env=env)
    if not os.path.exists(out):
        print(r.stdout[-3000:]); print("ERROR: explorer died", r.returncode)
        return 2
    d = json.load(open(out))
    if d["error"]:
        print("ERROR:", d["errtext"][:1500]); return 2
    kmap = {}
    for k in known:
        for case in k["cases"]:
            kmap[case] = k
    unknown, hit = [], {}
    flaky = []
    for v in d["violations"]:
        key = v["scenario"] + "|" + v["label"]
        if key in kmap:
            hit.setdefault(kmap[key]["id"], []).append(key)
        elif v["confirmed"]:
            unknown.append(v)
        else:
            flaky.append(v)
    tot = lambda f: sum(s[f] for s in d["scenarios"])
    samples = []
    sp = os.path.join(bdir, "samples.jsonl")
    if os.path.exists(sp):
        for l in open(sp):
            try: samples.append(json.loads(l))
            except Exception: pass
    cov = {"states": tot("states"), "transitions": tot("transitions"), "traces_validated_against_impl": tot("executions"),
           "distinct_outcomes": tot("outcomes"), "pruned_executions": tot("pruned"),
           "exhaustive": (not d["capped"]) and d["table_full"] == 0,
           "rule": c["bounds"], "scenarios": d["scenarios"], "samples": samples[:12] or ["none"],
           "known_findings_reproduced": {k: sorted(set(x))[:20] for k, x in hit.items()}}
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": c.get("level", "model_checking"),
          "coverage": cov, "assumptions": c.get("assumptions", []) + COMMON["assumptions"], "wall_s": round(time.time() - t0, 2),
          "violations": len(unknown)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} [{tier}] build {tb:.1f}s explore {d['wall_s']:.1f}s: scenarios={len(d['scenarios'])} executions={tot('executions')} "
          f"transitions={tot('transitions')} states={tot('states')} outcomes={tot('outcomes')} exhaustive={cov['exhaustive']}")
    if os.environ.get("MC_STATS"):
        for s in d["scenarios"]: print("   ", s)
    for k in known:
        if k["id"] in hit:
            print(f"KNOWN-FINDING: property={pid} {k['id']}: {k['what']} ({len(set(hit[k['id']]))} of {len(k['cases'])} listed cases reproduced)")
    if unknown:
        rd = os.path.join(HERE, "build", "replays"); os.makedirs(rd, exist_ok=True)
        for v in unknown[:10]:
            h = hashlib.sha1((v["scenario"] + v["label"]).encode()).hexdigest()[:10]
            rp = os.path.join(rd, f"{pid}-{h}.json")
            json.dump({"property": pid, **v}, open(rp, "w"), indent=1)
            print(f"  {v['kind']} in {v['scenario']} case [{v['label']}]: {v['msg'][:600]}")
            print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if flaky:
        for v in flaky[:5]:
            print(f"ERROR: not reproducible alone: {v['kind']} {v['scenario']} [{v['label']}] {v['msg'][:500]}")
        return 2
    if any(s["executions"] == 0 for s in d["scenarios"]) or not d["scenarios"]:
        print("ERROR: vacuous scenario"); return 2
    return 0

def main():
    if len(sys.argv) < 2:
        print(__doc__); return 2
    if sys.argv[1] == "replay":
        v = json.load(open(sys.argv[2]))
        exe = build(v["property"])
        if exe is None: return 2
        r = sh([exe, "--work", os.path.dirname(exe), "--replay", v["scenario"] + ":" + ".".join(map(str, v["choices"]))])
        print(r.stdout)
        return 1 if r.returncode in (1, 2) else r.returncode
    if sys.argv[1] == "build-all":
        ok = all(build(p) for p in CHECKS)
        return 0 if ok else 2
    if sys.argv[1] == "setup":
        ok = all(sh(t).returncode == 0 for t in (["g++", "--version"], ["ar", "--version"]))
        return 0 if ok else 2
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return run(sys.argv[1], tier)

if __name__ == "__main__":
    sys.exit(main())
