#!/usr/bin/env python3
"""Runs the check of one property:  run.py C01 [--tier quick|thorough]   or   run.py --replay FILE

Builds every target of the property from /repo's current working tree, runs the generated-input
search, and reports. Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken.
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, VERIF)
from targets import TARGETS, PROPS  # noqa: E402

CXX = "clang++"
BASE = ["-std=c++20", "-O1", "-g1", "-DNDEBUG", "-w", "-I" + os.path.join(REPO, "include"), "-I" + H]
SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "tsan": ["-fsanitize=thread"],
    "ubsan": ["-fsanitize=undefined", "-fno-sanitize-recover=all"],
}
WORKERS = 8


def log(*a):
    print(*a, flush=True)


def compile_target(name):
    t = TARGETS[name]
    out = os.path.join(BUILD, name)
    cmd = [CXX] + BASE + SAN[t.get("san", "asan")] + t.get("flags", []) + ['-DPBT_NAME="%s"' % name] + [os.path.join(H, t["src"]), "-o", out]
    cmd += t.get("libs", []) + ["-lpthread"]
    for attempt in range(2):
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
        except subprocess.TimeoutExpired:
            return name, False, "compiler timed out"
        if p.returncode == 0:
            return name, True, ""
        if p.returncode == 1 and "error:" in p.stdout:
            break  # a real diagnostic: retrying is pointless
    return name, False, " ".join(cmd) + "\n" + p.stdout


def control_compile():
    """Is the toolchain itself fine? (a file that does not use the code under test)"""
    src = os.path.join(BUILD, "control.cpp")
    with open(src, "w") as f:
        f.write("#include <vector>\n#include <thread>\nint main(){std::vector<int> v(3);return (int)v.size()-3;}\n")
    p = subprocess.run([CXX, "-std=c++20", "-fsanitize=address", src, "-o", src + ".out"], capture_output=True)
    return p.returncode == 0


def run_target(name, seed, cases, cap, replay):
    t = TARGETS[name]
    out = os.path.join(BUILD, name + ".json")
    if os.path.exists(out):
        os.remove(out)
    cmd = [os.path.join(BUILD, name), "search", "--seed", str(seed), "--cases", str(cases), "--workers",
           str(t.get("workers", WORKERS)), "--cap", str(int(cap)), "--out", out, "--replay-out", replay]
    if t.get("repeat"):
        cmd += ["--repeat", str(t["repeat"])]
    if t.get("cpu"):
        cmd += ["--cpu", str(t["cpu"])]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            res = None
    return p.returncode, res, p.stdout


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) target=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    t0 = time.time()
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay_file(sys.argv[2])
    if len(sys.argv) >= 2 and sys.argv[1] == "--selfcheck":
        os.makedirs(BUILD, exist_ok=True)
        return 0 if control_compile() else 2
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    P = PROPS[prop]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    violations = []
    results = []
    notes = []

    # ---- build, from the current tree -----------------------------------------------
    names = [n for n, _, _ in P["targets"]]
    failed = {}
    with cf.ThreadPoolExecutor(8) as ex:
        for n, ok, msg in ex.map(compile_target, names):
            if not ok:
                failed[n] = msg
    tb = time.time() - t0
    if failed:
        if not control_compile():
            log("ERROR: the compiler does not work here:", list(failed.values())[0][-2000:])
            return 2
        for n, msg in failed.items():
            rp = os.path.join(rdir, "%s-%s-build.txt" % (prop, n))
            with open(rp, "w") as f:
                f.write("# target %s no longer builds: public operations of the property can no longer be used\n" % n)
                f.write(msg)
            log("target %s does not build against the current tree:\n%s" % (n, "\n".join(
                [l for l in msg.splitlines() if "error" in l][:8])))
            violations.append((n, rp, "public API used by the property no longer compiles"))

    # ---- search ----------------------------------------------------------------------
    budget = 600 if tier == "quick" else 6 * 3600
    known = known_findings(prop)
    if not violations:
        for n, q, th in P["targets"]:
            cases = q if tier == "quick" else th
            if cases == 0:
                continue
            left = budget - (time.time() - t0)
            if left < 20:
                notes.append("time budget used up before target %s" % n)
                continue
            rp = os.path.join(rdir, "%s-%s.txt" % (prop, n))
            if os.path.exists(rp):
                os.remove(rp)
            rc, res, outp = run_target(n, seed, cases, min(left, 400 if tier == "quick" else left), rp)
            tries = 0
            while rc not in (0, 1) and tries < 2:  # not reproduced, or the machine misbehaved: again
                tries += 1
                log("target %s: inconclusive (rc %s), running again\n%s" % (n, rc, outp[-1500:]))
                rc, res, outp = run_target(n, seed, cases, min(max(30, budget - (time.time() - t0)), 400), rp)
            if rc == 4:
                notes.append("target %s: a failure that did not reproduce: %s" % (n, (res or {}).get("message", "")))
                rc = 0
            if rc not in (0, 1) or res is None:
                log("ERROR: target %s ended abnormally (rc %s)\n%s" % (n, rc, outp[-3000:]))
                return 2
            results.append(res)
            log("target %-28s cases %8d  non-trivial %8d  %.1fs" % (n, res["evaluations"], res["distinct_nontrivial"],
                                                                 res["wall_s"]))
            if rc == 1:
                log(outp.strip()[-1500:])
                with open(rp, "r+") as f:
                    body = f.read()
                    f.seek(0)
                    f.write("# property %s\n" % prop + body)
                violations.append((n, rp, res["message"]))
                break

    # ---- evidence ----------------------------------------------------------------------
    samples = []
    for r in results:
        for s in r["samples"][:2]:
            samples.append({"target": r["target"], "case": s})
    counters = {}
    for r in results:
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": P.get("level", "exploration"),
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in results),
            "rule": " | ".join(sorted(set(r["rule"] for r in results))) or "not run: a target did not build",
            "samples": samples[:12],
            "counters": counters,
            "targets": [{"target": r["target"], "cases": r["evaluations"], "planned": r["planned"],
                         "distinct_nontrivial": r["distinct_nontrivial"], "wall_s": r["wall_s"]} for r in results],
            "build_s": round(tb, 1),
            "notes": notes,
        },
        "assumptions": P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(violations),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for n, what in known:
        log("KNOWN-FINDING: property=%s %s" % (prop, what))
    if violations:
        n, rp, msg = violations[0]
        log("violated by target %s: %s" % (n, msg[:800]))
        log("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    log("property %s held on %d cases (%d distinct non-trivial), %.1fs" % (
        prop, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], time.time() - t0))
    return 0


def replay_file(path):
    name = None
    for line in open(path):
        m = re.match(r"# target (\S+)", line)
        if m:
            name = m.group(1)
            break
    os.makedirs(BUILD, exist_ok=True)
    n, ok, msg = compile_target(name)
    if not ok:
        log(msg[-3000:])
        return 1
    cmd = [os.path.join(BUILD, name), "replay", path]
    if TARGETS[name].get("repeat"):
        cmd += ["--repeat", str(TARGETS[name]["repeat"])]
    return subprocess.run(cmd).returncode


if __name__ == "__main__":
    sys.exit(main())
