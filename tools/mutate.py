#!/usr/bin/env python3
"""Mutation campaign to find gaps in the checks (development aid; no check uses it).
mutate.py list FILE | run [-j N] [-o OUT.jsonl] [--every K] FILE...     FILE relative to /repo, e.g. src/envelope.cpp
Every mutant is one textual change of one line. It is built in a copy under /tmp/mut and explored by the quick scenarios of the
checks in MAP until one of them reports a violation."""
import sys, os, re, json, subprocess, shutil, hashlib, threading, queue, time
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from checks import CHECKS, COMMON
SRC = os.environ.get("MAEC_REPO", "/repo"); W = "/tmp/mut"
I = "include/maec/"
MAP = {I+"amp_module.hpp": "M04", I+"audio_buffer.hpp": "G02 G01 H01", "src/audio_buffer.cpp": "G02 G01", I+"audio_module.hpp": "A02 A03 A01 M05", I+"base_module.hpp": "A02 A03 A01",
 "src/base_module.cpp": "A02 A03 A01", I+"base_oscillator.hpp": "E01 E02", "src/base_oscillator.cpp": "E01 E02", I+"chrono.hpp": "F01 M02", "src/chrono.cpp": "F01 M02",
 I+"envelope.hpp": "F02 F03 F04", "src/envelope.cpp": "F02 F03 F04", I+"filter_module.hpp": "L02", I+"fund_oscillator.hpp": "E01 E02", "src/fund_oscillator.cpp": "E01 E02",
 I+"meta_audio.hpp": "M02 M03", "src/meta_audio.cpp": "M02 M03", I+"module_mixer.hpp": "B01 B02", "src/module_mixer.cpp": "B01 B02 A02 A03", I+"module_param.hpp": "D01 E02", "src/module_param.cpp": "D01 E02",
 I+"sink_module.hpp": "A01 A02 A03", "src/sink_module.cpp": "A01 A02 A03", I+"source_module.hpp": "A01 A02 A03", "src/source_module.cpp": "A01 A02 A03", I+"utils.hpp": "H01 H02", "src/utils.cpp": "H01 H02",
 I+"dsp/buffer.hpp": "G01 G02 G03", I+"dsp/conv.hpp": "L01", I+"dsp/ft.hpp": "L03", I+"dsp/iir.hpp": "L04 L06", I+"dsp/kernel.hpp": "L05", I+"dsp/window.hpp": "L05", I+"dsp/matrix.hpp": "L06", I+"dsp/util.hpp": "L06 L05",
 I+"io/alsa_module.hpp": "M01", "src/io/alsa_module.cpp": "M01", I+"io/mstream.hpp": "J01 J02", "src/io/mstream.cpp": "J01 J02", I+"io/wav.hpp": "K05 K04 K01 K02", "src/io/wav.cpp": "K05 K01 K02 K03 K04",
 "src/dsp/conv.cpp": "L01", "src/dsp/ft.cpp": "L03 L06", "src/dsp/util.cpp": "L06 L03", "src/dsp/window.cpp": "L05", I+"meta.hpp": "A01", I+"const.hpp": "F01 A03", I+"dsp/const.hpp": "L02 L06",
 I+"parallel.hpp": "C01 C02 C03"}
def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def mutants(path):
    ls = open(os.path.join(SRC, path)).read().split("\n"); out = []; comment = False
    for n, l in enumerate(ls):
        s = l.strip()
        if comment: comment = "*/" not in l; continue
        if s.startswith("/*"): comment = "*/" not in l; continue
        if not s or s.startswith(("//", "#", "*", "using", "template", "class ", "struct ", "namespace", "friend", "public", "private", "protected", "typedef", "static_assert", "requires", "concept")): continue
        code = l.split("//")[0]
        seen = set()
        def add(new, what):
            if new != l and new not in seen: seen.add(new); out.append((n, l, new, what))
        def each(rx, rep, what):
            for m in re.finditer(rx, code): add(code[:m.start()] + (rep(m) if callable(rep) else rep) + code[m.end():], what)
        decl = re.match(r"^\s*(virtual |static |constexpr |explicit |const |inline )*[\w:<>,&\* ]+\([^()]*\)( const)?( override)?( = 0)?;\s*$", code) and not re.match(r"^\s*(this->|std::|return|\*)", code) and "(" in code and re.match(r"^\s*[\w:<>&\*]+ +[\w&\*]+\(", code)
        if decl: continue
        for a, b in ((" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" + ", " - "), (" - ", " + "), (" * ", " / "), (" / ", " * "), (" % ", " + "),
                     (" && ", " || "), (" || ", " && "), (" += ", " -= "), (" -= ", " += "), (" *= ", " = "), (" += ", " = "), ("true", "false"), ("false", "true"), ("std::min", "std::max"), ("std::max", "std::min"), ("<double>(", "<float>("), ("<int64_t>(", "<int32_t>("), ("double ", "float "), ("<std::size_t>(", "<unsigned char>(")):
            each(re.escape(a), b, "%s->%s" % (a.strip(), b.strip()))
        each(r"(?<![\w.\"'\[])\b(\d+)\b(?![\w.\"'])", lambda m: str(int(m[1]) + 1), "const+1")
        each(r"(?<![\w.\"'\[])\b([1-9]\d*)\b(?![\w.\"'])", lambda m: str(int(m[1]) - 1), "const-1")
        each(r"(?<=[(=, ])!(?=\w)", "", "drop !")
        m = re.match(r"^(\s*(?:} else )?if \()(.*)(\) \{\s*)$", code)
        if m: add(m[1] + "false && (" + m[2] + ")" + m[3], "if false"); add(m[1] + "true || (" + m[2] + ")" + m[3], "if true")
        if re.search(r"\+\+(\w|this|\))|\w\+\+", code) and "for" not in code and "while" not in code: each(r"\+\+", "--", "++->--")
        if s.endswith(";") and s.count("(") == s.count(")") and re.match(r"^(this->|std::(fill|copy|transform|advance|iter_swap|swap)|\*|\+\+|--|[\w\.\->\[\]\(\)]+\s*(=|\+=|-=|\*=|/=)\s|[\w:\->\.]+(\.|->|::|<>::)\w+\()", s) and not re.match(r"^(return|break|continue|const|auto|int|double|std::size_t|bool|char|AudioBuffer|for)\b", s): add("        ;", "delete statement")
    return out
def flagset(pid):
    c = CHECKS[pid]; return (tuple(c.get("flags", COMMON["flags"])), tuple(c.get("lib_flags", COMMON["lib_flags"])))
def inc(root): return ["-I" + root + "/include/maec", "-I" + R + "/harness", "-I" + root + "/include"]
def sources(root): return sorted("src/" + os.path.relpath(os.path.join(d, f), root + "/src") for d, _, fs in os.walk(root + "/src") for f in fs if f.endswith(".cpp"))
DEPS = {}
def prep(pids, J):
    """clean objects per check, dependencies"""
    jobs = []
    for pid in pids:
        c = CHECKS[pid]; base, lib = flagset(pid); key = hashlib.sha1(repr(flagset(pid)).encode()).hexdigest()[:8]
        for s in sources(SRC): jobs.append((SRC + "/" + s, "%s/base/%s/%s.o" % (W, key, s.replace("/", "_")), list(base) + list(lib)))
        for h in c["harness"]:
            e = list(h[1]) if isinstance(h, tuple) else c.get("harness_flags", list(lib)); h = h[0] if isinstance(h, tuple) else h
            jobs.append((R + "/harness/" + h, "%s/base/%s/%s.o" % (W, pid, h), list(base) + list(e)))
        jobs.append((R + "/harness/mc.cpp", "%s/base/%s/mc.o" % (W, pid), list(base) + c.get("mc_flags", ["-O1"])))
    jobs = {j[1]: j for j in jobs}.values()
    from concurrent.futures import ThreadPoolExecutor
    def comp(j):
        os.makedirs(os.path.dirname(j[1]), exist_ok=True)
        r = sh(["g++", *j[2], *inc(SRC), "-MMD", "-c", j[0], "-o", j[1]])
        if r.returncode: print("base build failed", j[0], r.stdout[-800:])
        d = open(j[1][:-2] + ".d").read().replace("\\\n", " ").split()
        DEPS[j[1]] = {os.path.relpath(x, SRC) for x in d if os.path.abspath(x).startswith(SRC + "/")}
        DEPS[j[1]] = {os.path.normpath(x) for x in DEPS[j[1]]}
    with ThreadPoolExecutor(J) as ex: list(ex.map(comp, jobs))
def judge(root, wd, path, pid, budget):
    c = CHECKS[pid]; base, lib = flagset(pid); key = hashlib.sha1(repr(flagset(pid)).encode()).hexdigest()[:8]; objs = []
    def obj(src, o, flags):
        if path not in DEPS[o]: return o, None
        n = wd + "/" + os.path.basename(os.path.dirname(o)) + "_" + os.path.basename(o)
        if os.path.exists(n): return n, None
        r = sh(["g++", *flags, *inc(root), "-c", src, "-o", n])
        return n, (r.stdout if r.returncode else None)
    ho, ro = [], []
    for h in c["harness"]:
        e = list(h[1]) if isinstance(h, tuple) else c.get("harness_flags", list(lib)); h = h[0] if isinstance(h, tuple) else h
        n, err = obj(R + "/harness/" + h, "%s/base/%s/%s.o" % (W, pid, h), list(base) + list(e))
        if err: return "nocompile"
        ho.append(n)
    ho.append("%s/base/%s/mc.o" % (W, pid))
    for s in sources(root):
        n, err = obj(root + "/" + s, "%s/base/%s/%s.o" % (W, key, s.replace("/", "_")), list(base) + list(lib))
        if err: return "nocompile"
        ro.append(n)
    ar = wd + "/lib.a"
    if os.path.exists(ar): os.unlink(ar)
    sh(["ar", "rcs", ar, *ro]); exe = wd + "/check"
    r = sh(["g++", "-o", exe, *ho, ar, *c.get("link", COMMON["link"])])
    if r.returncode: return "nolink"
    out = wd + "/out.json"
    if os.path.exists(out): os.unlink(out)
    env = dict(os.environ); env.pop("ASAN_OPTIONS", None)
    try: sh([exe, "--out", out, "--work", wd, "--tier", "quick", "--budget", str(budget * 8), "--slice", str(budget), "--hang", "2", "--maxviol", "1", "--workers", "1"], env=env, timeout=900)
    except subprocess.TimeoutExpired: return "timeout"
    if not os.path.exists(out): return "died"
    d = json.load(open(out))
    if d["error"]: return "error"
    if any(v["confirmed"] for v in d["violations"]): return "caught"
    if d["violations"]: return "flaky"
    return "capped" if d["capped"] else "quiet"
def main():
    a = sys.argv[1:]; J = 8; outp = W + "/out.jsonl"; every = 1; files = []; mode = a.pop(0)
    while a:
        x = a.pop(0)
        if x == "-j": J = int(a.pop(0))
        elif x == "-o": outp = a.pop(0)
        elif x == "--every": every = int(a.pop(0))
        else: files.append(x)
    work = []
    for f in files: work += [(f, *m) for m in mutants(f)][::every]
    if mode == "list":
        for w in work: print(w[0], w[1] + 1, w[4], "|", w[3].strip())
        print(len(work)); return
    os.makedirs(W, exist_ok=True)
    done = set()
    if os.path.exists(outp):
        for l in open(outp): d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
    work = [w for w in work if (w[0], w[1] + 1, w[3]) not in done]
    prep(sorted({p for f in files for p in MAP[f].split()}), J)
    q = queue.Queue(); [q.put(w) for w in work]; lock = threading.Lock(); t0 = time.time(); cnt = [0]
    def worker(k):
        wd = "%s/w%d" % (W, k); shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd); root = wd + "/repo"
        for x in ("src", "include"): shutil.copytree(SRC + "/" + x, root + "/" + x)
        while True:
            try: f, n, old, new, what = q.get_nowait()
            except queue.Empty: break
            p = root + "/" + f; orig = open(p).read(); ls = orig.split("\n"); ls[n] = new; open(p, "w").write("\n".join(ls))
            res = {}
            for o in os.listdir(wd):
                if o.endswith(".o"): os.unlink(wd + "/" + o)
            for budget in (3, 60):
                for pid in MAP[f].split():
                    if res.get(pid) == "quiet": continue
                    res[pid] = judge(root, wd, f, pid, budget)
                    if res[pid] in ("caught", "nocompile", "nolink"): break
                if set(res.values()) & {"caught", "nocompile", "nolink"}: break
            open(p, "w").write(orig)
            with lock:
                open(outp, "a").write(json.dumps({"file": f, "line": n + 1, "what": what, "old": old.strip(), "new": new, "res": res}) + "\n"); cnt[0] += 1
                if cnt[0] % 20 == 0: print("%d/%d %.0fs" % (cnt[0], len(work), time.time() - t0), flush=True)
        shutil.rmtree(wd, ignore_errors=True)
    ts = [threading.Thread(target=worker, args=(k,)) for k in range(J)]; [t.start() for t in ts]; [t.join() for t in ts]
main()
