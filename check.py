#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--only SPACE] [--replay FILE] [--keep]
Builds the explorer of one property against /repo's working tree, runs it, writes evidence/ID.json."""
import glob, sys, os, json, subprocess, tempfile, shutil, time, argparse, hashlib
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, V)
from specs import SPECS, LIBS  # noqa

def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)

BASE = ["-std=c++20", "-include", "cstdint", "-w", "-O1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
        "-ftrivial-auto-var-init=pattern", "-I" + REPO + "/include", "-I" + REPO + "/lib", "-I" + V + "/mc"]

def compile_one(args):
    src, obj, flags = args
    r = subprocess.run(["g++"] + BASE + flags + ["-c", src, "-o", obj], capture_output=True, text=True)
    return src, r.returncode, r.stderr

def build(spec, bdir):
    flags = ["-fsanitize=address"] if spec.get("asan", True) else []
    flags += spec.get("flags", [])
    jobs = []
    srcs = [V + "/harness/" + s for s in spec["src"]]
    for l in spec.get("libs", []):
        srcs += sorted(glob.glob(REPO + "/lib/" + LIBS[l] + "/**/*.cpp", recursive=True))
    objs = []
    for i, s in enumerate(srcs):
        o = os.path.join(bdir, "%d.o" % i)
        objs.append(o)
        jobs.append((s, o, flags))
    with ThreadPoolExecutor(8) as ex:
        for src, rc, err in ex.map(compile_one, jobs):
            if rc:
                die("build of %s failed\n%s" % (src, err[-4000:]))
    exe = os.path.join(bdir, "explorer")
    r = subprocess.run(["g++"] + flags + objs + ["-o", exe] + spec.get("link", []), capture_output=True, text=True)
    if r.returncode:
        die("link failed\n" + r.stderr[-4000:])
    return exe

def known_for(pid):
    out = []
    fn = V + "/known_findings.txt"
    if os.path.exists(fn):
        for l in open(fn, encoding="utf-8"):
            if l.startswith("known: "):
                k = json.loads(l[7:])
                if k["property"] == pid:
                    out.append(k)
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default="")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", default="8")
    ap.add_argument("--keep")
    ap.add_argument("--all", action="store_true", help="go on after a violated space")
    a = ap.parse_args()
    pid = a.id
    spec = SPECS[pid]
    t0 = time.time()
    bdir = a.keep or tempfile.mkdtemp(prefix="verif_%s_" % pid)
    os.makedirs(bdir, exist_ok=True)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=2048:handle_abort=0:symbolize=0:detect_stack_use_after_return=0"
    env["VERIF_DATA"] = V + "/data"
    env["VERIF_REPO"] = REPO
    env["LC_ALL"] = "C.UTF-8"
    try:
        exe = build(spec, bdir)
        tb = time.time() - t0
        if spec.get("prepare"):
            spec["prepare"](V, REPO, bdir, a.tier, env)
        if a.replay:
            r = json.load(open(a.replay))
            p = subprocess.run([exe, "--tier", a.tier, "--replay", r["space"], r["case"]], env=env)
            sys.exit(0 if p.returncode == 0 else 1)
        kn = known_for(pid)
        kf = os.path.join(bdir, "known.txt")
        with open(kf, "w") as f:
            for k in kn:
                f.write(k["space"] + "\t" + k["case"] + "\n")
        out = os.path.join(bdir, "out.json")
        p = subprocess.run([exe, "--tier", a.tier, "--out", out, "--tmp", bdir, "--jobs", a.jobs, "--known", kf] + (["--only", a.only] if a.only else []) + (["--all"] if a.all else []), env=env)
        if p.returncode not in (0, 1) or not os.path.exists(out):
            die("the explorer did not finish (exit %d)" % p.returncode)
        o = json.load(open(out))
        wall = time.time() - t0
        fails = o["failures"]
        seen_known = {(k["space"], k["case"]) for k in o["known"]}
        ev = {"property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1")),
              "level": "model_checking",
              "coverage": {"states": o["states"], "transitions": o["transitions"], "traces_validated_against_impl": o["cases"],
                           "distinct_outcomes": o["distinct_outcomes"], "exhaustive": bool(o["complete"]) and not a.only,
                           "bounds": spec["bounds"][0 if a.tier != "thorough" else 1],
                           "spaces": o["spaces"], "samples": o["samples"][:40],
                           "validation": "every explored trace is executed on the implementation compiled from /repo's working tree and compared with the reference model step by step or on its final observation"},
              "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "build_s": round(tb, 2), "violations": len(fails)}
        os.makedirs(V + "/evidence", exist_ok=True)
        json.dump(ev, open(V + "/evidence/%s.json" % pid, "w"), indent=1)
        for k in kn:
            if (k["space"], k["case"]) in seen_known:
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        if fails:
            os.makedirs(V + "/replays", exist_ok=True)
            for i, f in enumerate(fails[:12]):
                fn = V + "/replays/%s-%d.json" % (pid, i)
                json.dump({"property": pid, "space": f["space"], "case": f["case"], "observed": f["msg"], "how": "python3 /verif/check.py %s --replay %s" % (pid, fn)}, open(fn, "w"), indent=1)
                print("  [%s] case: %s\n      %s" % (f["space"], f["case"], f["msg"][:600]))
            print("VIOLATION property=%s replay=%s" % (pid, V + "/replays/%s-0.json" % pid))
            sys.exit(1)
        if not o["complete"]:
            die("exploration incomplete")
        print("%s holds: cases=%d states=%d transitions=%d outcomes=%d wall=%.1fs (build %.1fs)" % (pid, o["cases"], o["states"], o["transitions"], o["distinct_outcomes"], wall, tb))
        sys.exit(0)
    finally:
        if not a.keep:
            shutil.rmtree(bdir, ignore_errors=True)

main()
