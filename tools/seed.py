#!/usr/bin/env python3
"""Confirms planted bugs: seed.py [--nocheck] ID...   (scratch clone of /repo in /tmp/wt, removed by seed.py --clean)
For each seeded/ID: the demo passes on the clean tree; with the patch the tree builds, the stable tests pass, the demo fails; then runs the property's quick check on the patched tree."""
import json, os, subprocess, sys, shutil, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/wt"
FLAGS = "-G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_C_COMPILER=gcc -DCMAKE_CXX_COMPILER=g++ -DCMAKE_CXX_FLAGS=-Wno-error -DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS -DFETCHCONTENT_FULLY_DISCONNECTED=ON".split()
def sh(cmd, **k): return subprocess.run(cmd, capture_output=True, text=True, errors="replace", **k)
def build():
    env = dict(os.environ, CC="gcc", CXX="g++")
    r = sh(["cmake", "-S", WT, "-B", WT + "/_build"] + FLAGS, env=env)
    if r.returncode: return r
    t = sh(["ninja", "-C", WT + "/_build", "-t", "targets", "all"]).stdout
    tg = [l.split(":")[0] for l in t.splitlines() if ": CXX_" in l and "_LINKER__" in l and ("EXECUTABLE" in l or "LIBRARY" in l)]
    tg = [x for x in tg if x.split("/")[-1] not in ("freq-plot", "iir-plot", "parallel-plot")]
    return sh(["ninja", "-C", WT + "/_build"] + tg)
def tests():
    rep = WT + "/_build/vp-reports"; shutil.rmtree(rep, ignore_errors=True); os.makedirs(rep)
    sh(["python3", "/opt/vp/run_catch.py", WT + "/_build/test/test", rep], cwd=WT)
    sh(["python3", "/opt/vp/results.py", "/tmp/wt.json", "junit:%s/*.xml" % rep], cwd=WT)
    ok = set(json.load(open("/tmp/wt.json"))["passed"])
    return [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in ok]
def clean(): sh(["git", "-C", WT, "checkout", "-q", "--", "."]); sh(["git", "-C", WT, "clean", "-fdq"])
def main():
    args = sys.argv[1:]
    if args == ["--clean"]: shutil.rmtree(WT, ignore_errors=True); return
    nocheck = "--nocheck" in args; only = "--only-check" in args
    args = [a for a in args if a[:2] != "--"]
    if not os.path.isdir(WT): sh(["git", "clone", "-q", "/repo", WT])
    clean(); sh(["git", "-C", WT, "fetch", "-q", "origin"]); sh(["git", "-C", WT, "reset", "-q", "--hard", sh(["git", "-C", "/repo", "rev-parse", "HEAD"]).stdout.strip()])
    for i in args:
        d = R + "/seeded/" + i; m = json.load(open(d + "/meta.json")); prop = m["property"]; msg = []
        demo = lambda: sh(["bash", d + "/demo.sh"], cwd=WT, timeout=300)
        if not only:
            b = build()
            if b.returncode: print("clean tree does not build", b.stdout[-2000:]); return
            r = demo(); msg.append("clean demo %s" % ("ok" if r.returncode == 0 else "FAILS: " + (r.stdout + r.stderr)[-1500:]))
        r = sh(["git", "-C", WT, "apply", d + "/patch.diff"])
        if r.returncode: print(i, "patch does not apply:", r.stderr); continue
        if not only:
            b = build()
            if b.returncode: print(i, "DOES NOT BUILD", b.stdout[-2500:]); clean(); continue
            bad = tests(); msg.append("tests ok" if not bad else "TESTS FAIL: " + ", ".join(bad[:5]))
            r = demo(); msg.append("patched demo " + ("fails as wanted (%s)" % (r.stdout + r.stderr).strip()[-120:].replace("\n", " / ") if r.returncode else "DOES NOT FAIL"))
        if not nocheck:
            r = sh([sys.executable, R + "/check.py", prop, "quick"], env=dict(os.environ, MAEC_REPO=WT))
            hit = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + prop)]
            why = [l.strip() for l in r.stdout.splitlines() if " case [" in l]
            msg.append("CAUGHT by %s: %s" % (prop, (why or [""])[0][:200]) if r.returncode == 1 and hit else "MISSED by %s (exit %d) %s" % (prop, r.returncode, (r.stdout + r.stderr)[-300:]))
        clean()
        print(i, "|", " | ".join(msg), flush=True)
main()
