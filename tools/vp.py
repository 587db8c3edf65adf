#!/usr/bin/env python3
"""Build from /repo's working tree, run the model checkers of one property, write its evidence.

  vp.py check C01 [quick|thorough]     exit 0 held / 1 VIOLATION / 2 the check itself failed
  vp.py build C01                      build only (prints the binaries)
  vp.py setup                          compile everything once
  vp.py manifest                       rewrite MANIFEST.json
"""
import sys, os, json, subprocess, hashlib, glob, time, re, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(V, "build"))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS, HARNESS

BASE = ["-std=gnu11", "-fPIC", "-march=haswell", "-mfpmath=sse", "-D_GNU_SOURCE", "-w", "-g", "-fno-strict-aliasing",
        "-I" + REPO + "/headers", "-I" + REPO + "/headers/RadarKit"]
VARIANT = {
    "plain": ["-O1"],
    "asan": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "inst": ["-O1", "-fsanitize=thread", "-DVP_INST"],
}
LIBS = ["-lfftw3f", "-lnetcdf", "-lpthread", "-lz", "-lm", "-lssl", "-lcrypto", "-lrt"]

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

_hdr = None
def headers_hash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        for f in sorted(glob.glob(REPO + "/headers/**/*", recursive=True)) + sorted(glob.glob(V + "/mc/*.h")):
            if os.path.isfile(f):
                h.update(f.encode()); h.update(open(f, "rb").read())
        _hdr = h.hexdigest()
    return _hdr

class BuildError(Exception):
    pass

def compile_one(src, flags):
    own = b"".join(open(f, "rb").read() for f in sorted(glob.glob(V + "/harness/*.h"))) if src.startswith(V) else b""
    key = hashlib.sha256(own + (headers_hash() + "|" + " ".join(flags) + "|" + src).encode() + open(src, "rb").read()).hexdigest()[:20]
    d = os.path.join(BUILD, "obj"); os.makedirs(d, exist_ok=True)
    o = os.path.join(d, os.path.basename(src).replace(".c", "") + "-" + key + ".o")
    if not os.path.exists(o):
        tmp = o + ".%d.tmp.o" % os.getpid()
        r = run(["gcc"] + flags + ["-c", src, "-o", tmp])
        if r.returncode:
            raise BuildError("compiling %s failed:\n%s" % (src, r.stdout))
        os.rename(tmp, o)
    return o

def build(hname):
    h = HARNESS[hname]
    variant = h.get("variant", "plain")
    inst = set(h.get("inst", []))
    jobs = []
    for s in sorted(glob.glob(REPO + "/source/*.c")):
        b = os.path.basename(s)
        if b == "RKTest.c":
            continue
        fl = VARIANT[variant]
        if b in inst or "*" in inst:
            fl = VARIANT["inst"] + h.get("iflags", [])
        jobs.append((s, BASE + fl))
    hfl = BASE + [f for f in VARIANT[variant]] + ["-I" + V + "/mc", "-Wall", "-Wno-unknown-pragmas", "-Wno-format-truncation", "-Wno-unused-function"]
    hfl = [f for f in hfl if f != "-w"]
    own = [os.path.join(V, "harness", h["src"]), os.path.join(V, "mc", "mcrt.c")] + [os.path.join(V, "mc", x) for x in h.get("extra", [])]
    hjobs = [(s, hfl + h.get("cflags", [])) for s in own]
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda a: compile_one(*a), jobs))
        hobjs = list(ex.map(lambda a: compile_one(*a), hjobs))
    nm = run(["nm"] + hobjs).stdout
    wraps = sorted(set(re.findall(r" [TtWw] __wrap_(\w+)", nm)))
    exe = os.path.join(BUILD, "bin", hname); os.makedirs(os.path.dirname(exe), exist_ok=True)
    san = ["-fsanitize=address"] if variant == "asan" else []
    r = run(["gcc", "-g"] + san + ["-o", exe + ".tmp"] + hobjs + objs + ["-Wl,--wrap=" + w for w in wraps] + ["-Wl,-z,noexecstack"] + LIBS)
    if r.returncode:
        raise BuildError("linking %s failed:\n%s" % (hname, r.stdout))
    os.rename(exe + ".tmp", exe)
    return exe

def known(prop):
    res = {}
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res

def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CHECKS[prop]
    kn = known(prop)
    ev_dir = os.path.join(V, "evidence"); os.makedirs(ev_dir, exist_ok=True)
    rdir = os.path.join(ev_dir, "replay"); os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + "-*")):
        os.remove(f)
    exes = {}
    for r in c["runs"]:
        if r["h"] not in exes:
            exes[r["h"]] = build(r["h"])
    results, viol, found, errors = [], [], [], []
    scratch = os.path.join(BUILD, "scratch", "%s-%d" % (prop, os.getpid()))
    for i, r in enumerate(c["runs"]):
        if tier == "quick" and r.get("thorough_only"):
            continue
        a = dict(r.get("quick", {}))
        if tier == "thorough":
            a.update(r.get("thorough", {}))
        limit = a.get("time", 200 if tier == "quick" else 1500)
        if tier == "quick":   # the whole check answers well within 900 s, also on code that makes every execution slow
            limit = max(20, min(limit, 700 - (time.time() - t0), 60 if viol else 1e9))
        out = os.path.join(ev_dir, ".%s-%d.json" % (prop, i))
        cmd = [exes[r["h"]], "--jobs", "8", "--time", str(limit), "--out", out]
        if "bound" in a: cmd += ["--bound", str(a["bound"])]
        params = dict(r.get("params", {})); params.update(a.get("params", {}))
        for k in sorted(kn): cmd += ["--known", k]
        for k, v in params.items(): cmd += ["--param", "%s=%d" % (k, v)]
        os.makedirs(scratch, exist_ok=True)
        if os.path.exists(out): os.remove(out)
        pr = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=scratch, errors="replace")
        if pr.returncode not in (0, 1) or not os.path.exists(out):
            errors.append("%s: exit %d\n%s" % (" ".join(cmd), pr.returncode, pr.stderr[-3000:]))
            shutil.rmtree(scratch, ignore_errors=True)
            continue
        shutil.rmtree(scratch, ignore_errors=True)
        j = json.load(open(out)); os.remove(out)
        j["cmd"] = " ".join(cmd[1:3] + cmd[7:]); j["params"] = params
        results.append(j)
        print("%s %-24s runs=%d evals=%d points=%d outcomes=%d depth<=%d bound=%d exhaustive=%s %.1fs %s" % (prop, j["harness"], j["runs"], j["evals"], j["points"],
              j["distinct_outcomes"], j["max_depth"], j["bound"], j["exhaustive"], j["wall_s"], params or ""))
        for f in j["fails"]:
            if f["key"] in kn:
                found.append((f["key"], kn[f["key"]])); continue
            if "[UNSTABLE]" in f["msg"] and f["key"] in ("hang",):
                print("  note: unstable %s ignored: %s" % (f["key"], f["msg"])); continue
            path = os.path.join(rdir, "%s-%d.txt" % (prop, len(viol) + 1))
            with open(path, "w") as fo:
                fo.write("property %s\nfailure  %s (%d executions)\n%s\n\nreplay with\n  %s --replay %s %s\n" % (prop, f["key"], f["count"], f["msg"], exes[r["h"]], f["replay"] or "0",
                         " ".join("--param %s=%d" % kv for kv in params.items())))
            viol.append((f["key"], f["msg"], path))
    # evidence
    runs = sum(j["runs"] for j in results); evals = sum(j["evals"] for j in results)
    samples = []
    for j in results:
        samples += ["%s %s: %s" % (j["harness"], j["params"] or "", s) for s in j["samples"][:3]]
    cov = dict(samples=samples[:24] or ["no execution completed"], exhaustive=bool(results) and all(j["exhaustive"] for j in results) and not errors,
               harnesses=[{k: j[k] for k in ("harness", "params", "bound", "runs", "evals", "points", "steps", "skipped", "over_bound", "max_depth", "distinct_outcomes", "exhaustive", "wall_s")} for j in results])
    if c["level"] == "model_checking":
        cov.update(states=sum(j["points"] for j in results) + runs, transitions=sum(j["steps"] for j in results) + sum(j["points"] for j in results),
                   traces_validated_against_impl=runs, explanation=c.get("rule", ""))
    else:
        cov.update(evaluations=max(evals - sum(j["skipped"] for j in results), 0), distinct_nontrivial=sum(j["distinct_outcomes"] for j in results), rule=c.get("rule", ""))
    ev = dict(property=prop, tier=tier, seed=seed, level=c["level"], coverage=cov, wall_s=round(time.time() - t0, 2), assumptions=c.get("assumptions", []), violations=len(viol))
    json.dump(ev, open(os.path.join(ev_dir, prop + ".json"), "w"), indent=1)
    for k, what in dict(found).items():
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    for e in errors:
        print("ERROR of the check: " + e)
    for k, m, p in viol:
        print("  %s: %s" % (k, m.strip()[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(p, V)))
    if viol:
        return 1
    if errors:
        return 2
    print("%s held on everything explored (%d executions, %.1fs)" % (prop, runs, time.time() - t0))
    return 0

def manifest():
    m = {"version": 1, "setup_cmd": "python3 tools/vp.py setup",
         "checks": [], "not_applicable": []}
    import checks
    if getattr(checks, "HOOKS", None): m["hooks"] = checks.HOOKS
    for line in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(line)["id"]
        if p in CHECKS and CHECKS[p].get("claimed", True):
            c = CHECKS[p]
            m["checks"].append(dict(property=p, quick_cmd="python3 tools/vp.py check %s quick" % p, thorough_cmd="python3 tools/vp.py check %s thorough" % p,
                                    evidence_file="evidence/%s.json" % p, technique=c["technique"], level=c["level"], level_note=c["note"]))
        else:
            m["not_applicable"].append(dict(property=p, reason=checks.NOT_CLAIMED.get(p, "no check has been built for this property yet")))
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")

def main():
    a = sys.argv[1:]
    if a[0] == "manifest":
        manifest(); return 0
    try:
        if a[0] == "setup":
            for h in HARNESS: print(build(h))
            return 0
        if a[0] == "build":
            for r in CHECKS[a[1]]["runs"]: print(build(r["h"]))
            return 0
        if a[0] == "check":
            return check(a[1], a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick"))
    except BuildError as e:
        print("ERROR of the check: cannot build\n" + str(e)[-4000:]); return 2
    print(__doc__); return 2

if __name__ == "__main__":
    sys.exit(main())
