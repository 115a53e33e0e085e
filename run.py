#!/usr/bin/env python3
"""Runs one check:  run.py <property> [--tier quick|thorough] [--replay FILE]

Builds the harnesses of the property from /repo's current working tree, explores them exhaustively within the
bounds of the tier, rewrites evidence/<property>.json and exits 0 (held), 1 (VIOLATION line) or 2 (no answer).
"""
import concurrent.futures as cf
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS  # noqa: E402

BUILD = os.path.join(HERE, ".build")
REPLAYS = os.path.join(HERE, "replays")
CXX = {"g++": ["g++"], "clang++": ["clang++"]}
BASE = ["-std=c++20", "-w", "-D_GLIBCXX_ASSERTIONS", "-UNDEBUG", "-fno-omit-frame-pointer",
        "-I" + os.path.join(HERE, "lib"), "-I" + os.path.join(REPO, "include")]


def sh(cmd, timeout=None, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                         start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return -99, (out or "") + "\n[timeout]"


def generate(job, bdir):
    """harness sources that are generated (overload sets etc.) come from a python generator"""
    gen = job.get("gen")
    if not gen:
        return
    out = os.path.join(bdir, job["name"] + ".gen.cpp")
    rc, o = sh([sys.executable, os.path.join(HERE, "tools", gen[0])] + list(gen[1:]) + ["--out", out], timeout=120)
    if rc:
        raise RuntimeError("generator failed: " + o)
    job["src"] = out


def build(job, bdir):
    generate(job, bdir)
    exe = os.path.join(bdir, job["name"])
    objs = []
    for n, (src, flags) in enumerate(job.get("extra_objs", [])):
        obj = exe + ".%d.o" % n
        cmd = ["g++"] + BASE + flags + ["-c", os.path.join(HERE, src), "-o", obj]
        rc, out = sh(cmd, timeout=600)
        if rc:
            return rc, " ".join(cmd) + "\n" + out
        objs.append(obj)
    src = job["src"] if os.path.isabs(job["src"]) else os.path.join(HERE, job["src"])
    cmd = CXX[job.get("cxx", "g++")] + BASE + job.get("flags", ["-O1"]) + [src] + objs + ["-o", exe] + job.get("libs", [])
    rc, out = sh(cmd, timeout=800)
    return rc, " ".join(cmd) + "\n" + out


def header_compiles(bdir, flags):
    src = os.path.join(bdir, "sanity.cpp")
    with open(src, "w") as f:
        f.write('#include "mimic++/mimic++.hpp"\n'
                'int main(){ mimicpp::Mock<int(int)> m{}; auto e = mimicpp::ScopedExpectation{m.expect_call(1) and mimicpp::finally::returns(2)}; return m(1) - 2; }\n')
    fl = [f for f in flags if f.startswith("-D")]
    rc, out = sh(["g++"] + BASE + fl + ["-O0", src, "-o", src + ".exe"], timeout=300)
    return rc == 0, out


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    jobs_n = str(min(8, os.cpu_count() or 8))
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]; i += 2
        elif a[i] == "--replay":
            replay = os.path.abspath(a[i + 1]); i += 2
        elif a[i] == "--jobs":
            jobs_n = a[i + 1]; i += 2
        else:
            print("unknown argument", a[i]); return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[prop]
    t0 = time.time()
    bdir = os.path.join(BUILD, "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evpath = os.path.join(HERE, "evidence", prop + ".json")
    try:
        return run(prop, spec, tier, seed, replay, jobs_n, bdir, evpath, t0)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def known_for(prop):
    """known (unrepaired) findings of the property: key -> description"""
    res = {}
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, desc = rest.partition(" ")
                res[key] = desc
    return res


def run(prop, spec, tier, seed, replay, jobs_n, bdir, evpath, t0):
    jobs = [dict(j) for j in spec["jobs"] if tier == "thorough" or not j.get("thorough_only")]
    if replay:
        with open(replay) as f:
            head = f.read(2000)
        name = [l.split(":", 1)[1].strip() for l in head.splitlines() if l.startswith("program:")]
        jobs = [dict(j) for j in spec["jobs"] if name and j["name"] == os.path.basename(name[0])] or jobs
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(lambda j: build(j, bdir), jobs))
    for j, (rc, out) in zip(jobs, res):
        if rc == 0:
            continue
        if " error: " not in out or "internal compiler error" in out or "No space left" in out:  # not the code's fault (memory, time)
            rc, out = build(j, bdir)
            if rc == 0:
                continue
            if " error: " not in out:
                print("harness %s could not be built; no answer\n%s" % (j["name"], out[-3000:]))
                return 2
        ok, hout = header_compiles(bdir, j.get("flags", []))
        if not ok:
            print("the library does not compile at all; no answer\n" + hout[-3000:])
            return 2
        rp = os.path.join(REPLAYS, prop + ".txt")
        with open(rp, "w") as f:
            f.write("property: %s\nprogram: %s\nThe harness no longer compiles against the library (the library itself does):\n%s\n" % (prop, j["name"], out))
        print("harness %s no longer compiles against the library:\n%s" % (j["name"], out[-3000:]))
        if j.get("compile_failure_is_violation", True):
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(rp, HERE)))
            return 1
        return 2
    build_s = time.time() - t0

    if replay:
        j = jobs[0]
        rc, out = sh([os.path.join(bdir, j["name"]), "--prop", prop, "--replay", replay], timeout=300)
        print(out)
        return rc

    total = {"executions": 0, "transitions": 0, "checks": 0, "decisions": 0, "states": 0, "distinct_outcomes": 0}
    samples, scen, cap, violated, rp = [], [], False, False, None
    budget = spec.get("limit", {}).get(tier, 500 if tier == "quick" else 3000)
    findings_seen = {}
    for j in jobs:
        st = os.path.join(bdir, j["name"] + ".stats")
        rpath = os.path.join(REPLAYS, prop + ".txt")
        left = max(30.0, budget - (time.time() - t0 - build_s))
        cmd = [os.path.join(bdir, j["name"]), "--prop", prop, "--tier", tier, "--jobs", jobs_n, "--limit", "%.0f" % left,
               "--stats", st, "--replay-out", rpath] + j.get("args", [])
        env = dict(os.environ, VERIF_REPO=REPO, VERIF_BDIR=bdir, VERIF_SEED=str(seed))
        rc, out = sh(cmd, timeout=left + 200, env=env)
        sys.stdout.write("== %s\n%s" % (j["name"], out))
        sys.stdout.flush()
        for line in out.splitlines():
            if line.startswith("FINDING key="):
                key, _, what = line[len("FINDING key="):].partition(" ")
                findings_seen.setdefault(key, what)
        if rc == 1:
            violated, rp = True, rpath
        elif rc != 0:
            print("harness %s gave no answer (exit %d)" % (j["name"], rc))
            return 2
        if os.path.exists(st):
            with open(st) as f:
                s = json.load(f)
            for k in total:
                total[k] += s.get(k, 0)
            cap = cap or s["cap_hit"]
            scen += [dict(x, harness=j["name"]) for x in s["scenarios"]]
            samples += s["samples"]
        if violated:
            break

    known = known_for(prop)
    for key, what in findings_seen.items():
        if key in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[key]))
        elif not violated:
            violated = True
            rp = os.path.join(REPLAYS, prop + ".txt")
            with open(rp, "w") as f:
                f.write("property: %s\nfinding %s: %s\n" % (prop, key, what))

    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"),
        "coverage": {
            "states": total["states"], "transitions": total["transitions"],
            "traces_validated_against_impl": total["executions"],
            "checks_evaluated": total["checks"], "decisions": total["decisions"],
            "distinct_outcomes": total["distinct_outcomes"],
            "exhaustive": not cap and not violated,
            "scenarios": scen, "samples": samples[:8],
            "method": spec["method"], "bounds": spec["bounds"],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violated else 0,
    }
    with open(evpath, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %d executions, %d transitions, %d states, %d outcomes, %.1fs (build %.1fs)%s" % (
        prop, total["executions"], total["transitions"], total["states"], total["distinct_outcomes"], time.time() - t0, build_s,
        ", TIME CAP HIT" if cap else ""))
    if violated:
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(rp, HERE)))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
