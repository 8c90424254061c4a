#!/usr/bin/env python3
"""Runs the check of one property:  run.py <ID> [--tier quick|thorough] [--seed N] [--keep] [--only SUB]

Compiles every harness /verif/checks/<ID>_*.cpp against /repo's working tree, runs the binaries one after
another, merges their reports into /verif/evidence/<ID>.json.  Exit 0: held; exit 1 + VIOLATION line: broken."""
import sys, os, json, subprocess, hashlib, shutil, time, glob, tempfile, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NWGR_REPO", "/repo")    # another tree, for experiments
OUTD = os.environ.get("NWGR_OUT", VERIF)
CXX = "g++"
BASE = ["-std=c++20", "-O1", "-g1", "-w", "-include", "cstdint", "-include", "functional",
        "-I" + REPO + "/include", "-I" + VERIF + "/lib", "-pthread"]
FLAVOURS = {
    "plain": ["-D_GLIBCXX_ASSERTIONS"],
    "asan": ["-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "ubsan": ["-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"],
    "cov": ["-D_GLIBCXX_ASSERTIONS"],
}
CACHE = os.path.join(OUTD, ".cache")


def tree_hash():
    h = hashlib.sha256()
    for root in (REPO + "/include", REPO + "/bench", VERIF + "/lib"):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def directives(src):
    """// PBT-FLAGS: <g++ flags>   // PBT-FLAVOUR: plain|asan|ubsan   // PBT-CAP: quick thorough   // PBT-WORKERS: n"""
    d = {"flags": [], "flavour": "asan", "cap": [60, 1200], "workers": None, "libs": ["-ltbb"], "tier": "quick"}
    with open(src) as fh:
        for l in fh.read().splitlines()[:40]:
            m = re.match(r"//\s*PBT-(\w+):\s*(.*)", l)
            if not m:
                continue
            k, v = m.group(1), m.group(2).split()
            if k == "FLAGS":
                d["flags"] += [x.replace("$REPO", REPO).replace("$VERIF", VERIF) for x in v]
            elif k == "FLAVOUR":
                d["flavour"] = v[0]
            elif k == "CAP":
                d["cap"] = [float(x) for x in v]
            elif k == "WORKERS":
                d["workers"] = int(v[0])
            elif k == "LIBS":
                d["libs"] += v
            elif k == "TIER":
                d["tier"] = v[0]
    return d


def compile_one(src, th, scratch):
    d = directives(src)
    cmd = [CXX] + BASE + FLAVOURS[d["flavour"]] + d["flags"] + [src, "-o", "OUT"] + d["libs"]
    key = hashlib.sha256((th + " ".join(cmd) + open(src).read()).encode()).hexdigest()[:24]
    out = os.path.join(CACHE, os.path.basename(src)[:-4] + "-" + key)
    if os.path.exists(out):
        return out, None, 0.0
    os.makedirs(CACHE, exist_ok=True)
    for old in glob.glob(os.path.join(CACHE, os.path.basename(src)[:-4] + "-*")):
        try:
            os.unlink(old)
        except OSError:
            pass
    tmp = out + ".tmp%d" % os.getpid()
    t = time.time()
    p = subprocess.run([tmp if x == "OUT" else x for x in cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return None, p.stdout, time.time() - t
    os.rename(tmp, out)
    return out, None, time.time() - t


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = None
    scale = 1.0
    workers = None
    i = 1
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]; i += 1
        elif a[i] == "--seed": seed = int(a[i + 1]); i += 1
        elif a[i] == "--only": only = a[i + 1]; i += 1
        elif a[i] == "--scale": scale = float(a[i + 1]); i += 1
        i += 1
    t0 = time.time()
    srcs = sorted(glob.glob(os.path.join(VERIF, "checks", pid + "_*.cpp")) + glob.glob(os.path.join(VERIF, "checks", pid + ".cpp")))
    if tier != "thorough":    # PBT-TIER: thorough  leaves a harness to the deep run
        srcs = [s for s in srcs if directives(s)["tier"] != "thorough"]
    if not srcs:
        print("no harness for", pid)
        return 2
    scratch = tempfile.mkdtemp(prefix="nwgr-%s-" % pid)
    try:
        th = tree_hash()
        for f in sorted(glob.glob(os.path.join(VERIF, "checks", "*.hpp")) + glob.glob(os.path.join(VERIF, "checks", pid + "*.cpp"))):
            th += hashlib.sha256(open(f, "rb").read()).hexdigest()
        with ThreadPoolExecutor(min(8, os.cpu_count() or 4)) as ex:
            bins = list(ex.map(lambda s: compile_one(s, th, scratch), srcs))
        for s, (b, err, ct) in zip(srcs, bins):
            if b is None:
                print("cannot compile", s)
                print("\n".join([l for l in err.splitlines() if "error" in l][:20]) or err[-3000:])
                return 2
        tc = time.time() - t0
        subs, violated = [], []
        rdir = os.path.join(OUTD, "replays")
        os.makedirs(rdir, exist_ok=True)
        broken = []
        for s, (b, _, _) in zip(srcs, bins):
            d = directives(s)
            name = os.path.basename(s)[:-4]
            out = os.path.join(scratch, name + ".json")
            w = d["workers"] or min(8, os.cpu_count() or 4)
            cap = d["cap"][1 if tier == "thorough" else 0]
            rp = os.path.join(rdir, name)
            for old in glob.glob(rp + ".*.txt"):
                os.unlink(old)
            cmd = [b, "--seed", str(seed), "--tier", tier, "--out", out, "--replay-out", rp, "--scratch", scratch, "--workers", str(w),
                   "--cap", str(cap), "--scale", str(scale)]
            if only:
                cmd += ["--only", only]
            sub_scratch = os.path.join(scratch, name)
            os.makedirs(sub_scratch, exist_ok=True)
            p = subprocess.run(cmd, cwd=sub_scratch, env=dict(os.environ, PBT_SCRATCH=sub_scratch))
            if not os.path.exists(out):
                broken.append("%s ended with status %d and no report" % (name, p.returncode))
                continue
            r = json.load(open(out))
            for x in r["subs"]:
                x["binary"] = name
                subs.append(x)
                if "failure" in x:
                    violated.append(x)
        wall = time.time() - t0
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": sum(x["evaluations"] for x in subs),
                "distinct_nontrivial": sum(x["distinct_nontrivial"] for x in subs),
                "rule": RULES.get(pid, "") + " Cases are drawn from the generators of lib/gen.hpp by a seeded choice sequence; a case counts as "
                        "non-trivial when the harness marks it so (the labels give the classes), and distinct ones are counted by hash of the choice sequence.",
                "samples": [{"sub": x["name"], "case": s} for x in subs for s in x["samples"][:1]][:12],
                "per_check": [{k: x[k] for k in ("binary", "name", "evaluations", "distinct_nontrivial", "discards", "capped", "wall_s", "labels")} for x in subs],
                "compile_s": round(tc, 1),
            },
            "assumptions": ["g++ 13.3 -O1 with assertions; TBB of the sandbox; graphs up to some hundred thousand vertices"],
            "wall_s": round(wall, 2),
            "violations": len(violated),
        }
        os.makedirs(os.path.join(OUTD, "evidence"), exist_ok=True)
        with open(os.path.join(OUTD, "evidence", pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        rc = 0
        for x in violated:
            kf = known(pid, x)
            if kf:
                print("KNOWN-FINDING: property=%s %s" % (pid, kf))
                continue
            print("%s/%s: %s" % (x["binary"], x["name"], x["failure"]))
            print("VIOLATION property=%s replay=%s" % (pid, x.get("replay", "")))
            rc = 1
        if rc == 0 and broken:
            print("\n".join(broken))
            return 2
        if rc == 0:
            print("%s: held on %d cases (%d distinct non-trivial), %.1f s (compile %.1f s)" % (
                pid, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], wall, tc))
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def known(pid, sub):
    """known_findings.txt: `finding: property=ID sub=BINARY/NAME match=REGEX :: what fails` suppresses exactly the failure it names;
    `fixed:` lines suppress nothing."""
    f = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(f):
        return None
    for l in open(f):
        m = re.match(r"finding: property=(\S+) sub=(\S+) match=(.*?) :: (.*)", l)
        if m and m.group(1) == pid and m.group(2) == sub["binary"] + "/" + sub["name"] and re.search(m.group(3), sub["failure"]):
            return m.group(4)
    return None


RULES = {}
_rf = os.path.join(VERIF, "rules.json")
if os.path.exists(_rf):
    RULES = json.load(open(_rf))

if __name__ == "__main__":
    sys.exit(main())
