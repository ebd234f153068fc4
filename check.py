#!/usr/bin/env python3
"""Decides one property by seeded simulation: check.py <property> [quick|thorough], check.py --setup, check.py --replay FILE.

Builds the harnesses of the property from /repo's working tree together with the simulator, runs seeded simulations on all
cores, gates every violation by replaying its minimised trace in fresh processes, and writes evidence/<property>.json.
Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=<id> replay=<path>": broken.  Exit 2: error of the check.
"""
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
FINDINGS = os.path.join(VERIF, "known_findings.txt")
sys.path.insert(0, VERIF)
from props import PROPS, HARNESSES  # noqa: E402

CXX = "g++"
FLAGS = ["-std=c++14", "-w", "-O1", "-g1", "-fsanitize=thread", "-pthread", "-DCPPAD", "-DCT_USE_LAPACK", "-DHAVE_CSTDDEF",
         "-DNDEBUG", "-I" + REPO + "/ct_core/include", "-I" + REPO + "/ct_optcon/include", "-isystem", "/usr/include/eigen3"]


def tree_hash(h, root, exts=None):
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            if exts and not f.endswith(exts):
                continue
            try:
                data = open(p, "rb").read()
            except OSError:
                continue
            h.update(os.path.relpath(p, root).encode() + b"\0" + hashlib.sha256(data).digest())


def build(names):
    """-> {name: path of the executable}"""
    h = hashlib.sha256()
    for sub in ("ct_core", "ct_optcon"):
        tree_hash(h, os.path.join(REPO, sub, "include"))
    tree_hash(h, os.path.join(REPO, "ct_models", "include", "ct", "models", "Quadrotor"))
    tree_hash(h, os.path.join(REPO, "ct_models", "src", "Quadrotor"))
    tree_hash(h, os.path.join(VERIF, "sim"), (".h", ".cpp"))
    h.update(" ".join(FLAGS).encode())
    key = h.hexdigest()[:16]
    out = {}
    procs = []
    os.makedirs(BUILD, exist_ok=True)
    for old in os.listdir(BUILD):  # stale builds
        p = os.path.join(BUILD, old)
        if re.fullmatch(r"[0-9a-f]{16}", old) and old != key and time.time() - os.path.getmtime(p) > 1800:
            shutil.rmtree(p, ignore_errors=True)
    bd = os.path.join(BUILD, key)
    os.makedirs(bd, exist_ok=True)
    os.utime(bd)
    gen = []
    if not os.path.exists(os.path.join(REPO, "ct_core/include/ct/core/templateDir.h")):  # written by the repository's own build
        gen = ["-I" + os.path.join(bd, "gen"), "-I" + os.path.join(bd, "gen/ct/core")]
        os.makedirs(os.path.join(bd, "gen/ct/core"), exist_ok=True)
        with open(os.path.join(bd, "gen/ct/core/templateDir.h"), "w") as f:
            f.write('#pragma once\n#include <string>\nnamespace ct {\nnamespace core {\n'
                    'static const std::string CODEGEN_TEMPLATE_DIR = "";\nstatic const std::string CODEGEN_OUTPUT_DIR = "";\n}\n}\n')
    lock = open(os.path.join(bd, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    rt = os.path.join(bd, "detsim.o")
    if not os.path.exists(rt):
        procs.append(("detsim", rt, subprocess.Popen(
            [CXX, "-std=c++17", "-O2", "-g1", "-c", os.path.join(VERIF, "sim", "detsim.cpp"), "-o", rt + ".tmp"],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for n in names:
        hh = hashlib.sha256()
        src = os.path.join(VERIF, "harness", n + ".cpp")
        for f in (src, os.path.join(VERIF, "harness", "common.h")):
            hh.update(open(f, "rb").read())
        hh.update(repr(HARNESSES[n]).encode())
        exe = os.path.join(bd, n + "-" + hh.hexdigest()[:10])
        out[n] = exe
        if os.path.exists(exe):
            continue
        cmd = [CXX] + FLAGS + gen + [f.replace("{REPO}", REPO) for f in HARNESSES[n].get("flags", [])] + ["-c", src, "-o", exe + ".o"]
        procs.append((n, exe, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    bad = False
    texts = []
    for n, dst, p in procs:
        txt = p.communicate()[0].decode(errors="replace")
        if p.returncode:
            bad = True
            texts.append("build of %s failed:\n%s" % (n, txt[-4000:]))
        elif n == "detsim":
            os.rename(rt + ".tmp", rt)
    if bad:
        print("\n".join(texts), file=sys.stderr)
        sys.exit(2)
    for n, exe, p in procs:
        if n == "detsim":
            continue
        subprocess.check_call(["objcopy", "--redefine-sym", "memcpy=__wrap_memcpy", "--redefine-sym", "memmove=__wrap_memmove",
                               "--redefine-sym", "memset=__wrap_memset", exe + ".o"])
        subprocess.check_call([CXX, "-no-pie", "-o", exe + ".tmp", exe + ".o", rt, "-llapack", "-lblas", "-ldl", "-pthread"])
        os.rename(exe + ".tmp", exe)
        os.unlink(exe + ".o")
    fcntl.flock(lock, fcntl.LOCK_UN)
    return out


def symbolise(exe, text):
    addrs = sorted(set(re.findall(r"\{([0-9a-f]+)\}", text)))
    names = {}
    if addrs:
        try:
            r = subprocess.run(["addr2line", "-fCe", exe] + addrs, capture_output=True, text=True, timeout=120).stdout.split("\n")
            for i, a in enumerate(addrs):
                fn = re.sub(r"<.*>", "<>", r[2 * i])[:90]
                loc = r[2 * i + 1].split(" ")[0].replace(REPO + "/", "")
                names[a] = "?" if fn.startswith("?") else "%s (%s)" % (fn, loc)
        except (subprocess.SubprocessError, IndexError, OSError):
            pass
    return re.sub(r"\{([0-9a-f]+)\}", lambda m: names.get(m.group(1), "0x" + m.group(1)), text)


def load_findings():
    """lines: known: property=<id> scenario=<s> class=<c> match=<regex> | what fails"""
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"known: property=(\S+) scenario=(\S+) class=(\S+) match=(.*?) \| (.*)$", line.strip())
            if m:
                out.append(dict(zip(("property", "scenario", "class", "match", "what"), m.groups())))
    return out


def run_scenario(exe, scen, seed, count, limit, det, ncpu, work, shrink):
    procs = []
    for c in range(ncpu):
        o = os.path.join(work, "%s.%d" % (scen, c))
        n = (count + ncpu - 1 - c) // ncpu
        if n <= 0:
            continue
        procs.append((o, subprocess.Popen(
            [exe, "--scenario", scen, "--base", str(seed), "--first", str(c), "--stride", str(ncpu), "--count", str(n), "--limit",
             str(limit), "--out", o, "--det", str(det), "--cpu", str(CPUS[c % len(CPUS)]), "--shrink", str(shrink), "--wall", "60"],
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=work)))
    for o, p in procs:
        try:
            p.wait(timeout=limit + shrink * 2 + 200)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    return [o for o, _ in procs]


def replay_ok(exe, path):
    for _ in range(2):
        p = subprocess.run([exe, "--replay", path], capture_output=True, text=True)
        if p.returncode != 1 or "REPRODUCED" not in p.stdout or "NOT REPRODUCED" in p.stdout:
            return False
    return True


CPUS = sorted(os.sched_getaffinity(0))


def check(pid, tier):
    t0 = time.time()
    prop = PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    base = seed * 1000 + int(pid[1:])  # every property explores its own seeds
    ncpu = max(1, min(8, len(CPUS)))
    names = sorted(set(s["harness"] for s in prop["scenarios"]))
    exes = build(names)
    tb = time.time() - t0
    work = os.path.join(BUILD, "run-%s-%d" % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    findings = [f for f in load_findings() if f["property"] == pid]
    tot = dict(runs=0, points=0, decisions=0, switches=0, accesses=0, sim_s=0.0, det_checked=0, det_bad=0, infra=0)
    faults, probes, per, samples, notes = {}, {}, {}, [], []
    hashes = set()
    nontrivial = set()
    violations, known_hit = [], {}
    cpu_s = 0.0
    errors = []
    for s in prop["scenarios"]:
        exe = exes[s["harness"]]
        scen = s["scenario"]
        count = s["quick"] if tier == "quick" else s.get("thorough", s["quick"] * 12)
        count = int(count * float(os.environ.get("VERIF_SCALE", "1")))
        limit = s.get("limit", 60) if tier == "quick" else s.get("limit_thorough", 600)
        outs = run_scenario(exe, scen, base, count, limit, 50, ncpu, work, 20 if tier == "quick" else 90)
        pr = dict(runs=0, violations=0, wall_s=0.0)
        for o in outs:
            done = False
            lines = []
            if os.path.exists(o):
                for line in open(o, errors="replace"):
                    try:
                        lines.append(json.loads(line))
                    except ValueError:
                        pass
            vmsg = None
            for d in lines:
                if "summary" in d:
                    done = True
                    for k in tot:
                        if k in d:
                            tot[k] += d[k]
                    pr["runs"] += d["runs"]
                    pr["violations"] += d["violations"]
                    pr["wall_s"] = max(pr["wall_s"], d["wall_s"])
                    cpu_s += d["wall_s"]
                    for k, v in d["faults"].items():
                        a = faults.setdefault(k, [0, 0])
                        a[0] += v[0]
                        a[1] += v[1]
                    for k, v in d["probes"].items():
                        a = probes.setdefault(k, [0, 0])
                        a[0] += v[0]
                        a[1] += v[1]
                elif "infra" in d:
                    notes.append("harness trouble in %s seed %s: %s" % (scen, d["seed"], d["msg"][:300]))
                elif "nondeterminism" in d:
                    notes.append("nondeterminism in %s: %s" % (scen, json.dumps(d)))
                elif "minimised" in d:
                    pass
                elif d.get("rc") == 1:
                    vmsg = d
                elif d.get("rc") == 0 and len(samples) < 4 * len(prop["scenarios"]) and o.endswith(".0"):
                    samples.append({"scenario": scen, "seed": d["seed"], "params": d["params"], "scheduling_points": d["points"],
                                    "context_switches": d["switches"], "schedule_hash": d["sched_hash"], "faults_fired": d["faults"],
                                    "ndev": d["ndev"]})
            if not done:
                errors.append("no summary from %s" % os.path.basename(o))
            if vmsg:
                rfile = o + ".replay"
                if not os.path.exists(rfile) or not replay_ok(exe, rfile):
                    # the trace did not fit or does not carry over: replay by seed alone
                    with open(rfile, "w") as f:
                        f.write("detsim-replay 1\nmode seed\nscenario %s\nseed %d\nclass %s\nloghash %s schedhash %s\nend\n" % (
                            scen, vmsg["seed"], vmsg["class"], "0", "0"))
                    if not replay_ok(exe, rfile):
                        notes.append("violation of seed %s in %s (%s) did not reproduce and is not reported" % (
                            vmsg["seed"], scen, vmsg["class"]))
                        errors.append("unreproducible violation")
                        continue
                msg = symbolise(exe, vmsg["msg"])
                k = next((f for f in findings if f["scenario"] == scen and f["class"] == vmsg["class"] and re.search(f["match"], msg)), None)
                if k:
                    known_hit[k["what"]] = known_hit.get(k["what"], 0) + 1
                    continue
                dst = os.path.join(rdir, "%s-%s-%s-%s.replay" % (pid, scen, vmsg["class"], vmsg["seed"]))
                shutil.copy(rfile, dst)
                with open(dst, "a") as f:
                    f.write("# property %s harness %s\n# %s\n" % (pid, s["harness"], msg.replace("\n", " ")))
                violations.append((dst, scen, vmsg["class"], vmsg["seed"], msg))
            hf = o + ".hashes"
            if os.path.exists(hf):
                data = open(hf, "rb").read()
                for i in range(0, len(data) - 23, 24):
                    a, b, c = struct.unpack_from("<QQQ", data, i)
                    if not prop.get("threads", True):
                        a ^= c
                    hashes.add(a)
                    if b > 0:
                        nontrivial.add(a)
        per[s["harness"] + "/" + scen] = pr
        if violations and tier == "quick":
            break
    shutil.rmtree(work, ignore_errors=True)
    wall = time.time() - t0
    minreach = prop.get("probes", [])
    unreached = [p for p in minreach if probes.get(p, [0])[0] == 0]
    if unreached:
        notes.append("conditions not reached in this run: " + ", ".join(unreached))
    multi = prop.get("threads", True)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": len(violations),
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(nontrivial) if multi else len(hashes),
            "rule": ("One evaluation is one simulated run from one seed; runs are distinct when the hash over all scheduling decisions, "
                     "wake-up orders, clock readings and fault firings" + ("" if multi else " and over the observed results") + " differs" +
                     (", and non-trivial when at least one context switch away from a runnable thread happened." if multi else
                      "; single-threaded scenario, non-trivial because every run draws its own operations, delays and faults.")),
            "samples": samples[:6],
            "runs_per_hour": int(tot["runs"] / max(1e-9, wall - tb) * 3600),
            "seeds": "derived from VERIF_SEED=%d, the property, the scenario and the run index" % seed,
            "simulated_seconds": round(tot["sim_s"], 3),
            "scheduling_points": tot["points"], "scheduling_decisions": tot["decisions"], "context_switches": tot["switches"],
            "instrumented_memory_accesses": tot["accesses"],
            "faults_injected": {k: {"fired": v[0], "opportunities": v[1]} for k, v in sorted(faults.items())},
            "conditions_reached": {k: {"times": v[0], "runs": v[1]} for k, v in sorted(probes.items())},
            "determinism_reruns": tot["det_checked"], "determinism_mismatches": tot["det_bad"],
            "distinct_executions": len(hashes), "per_scenario": per, "build_s": round(tb, 1),
            "real_code": prop["real"], "stubs": prop["stubs"],
        },
        "assumptions": prop["assumptions"],
        "notes": notes, "known_findings_met": known_hit,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for f in findings:
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    print("%s %s: %d runs (%d distinct schedules, %d points, %.1f simulated s), build %.0f s, total %.0f s, determinism %d/%d" % (
        pid, tier, tot["runs"], len(hashes), tot["points"], tot["sim_s"], tb, wall, tot["det_checked"] - tot["det_bad"], tot["det_checked"]))
    for n in notes:
        print("note: " + n)
    if violations:
        seen = set()
        for dst, scen, cls, sd, msg in violations:
            if (scen, cls) in seen:
                continue
            seen.add((scen, cls))
            print("%s: %s in scenario %s, seed %s: %s" % (pid, cls, scen, sd, msg))
            print("VIOLATION property=%s replay=%s" % (pid, dst))
        return 1
    if errors:
        print("check error: " + "; ".join(errors), file=sys.stderr)
        return 2
    if tot["det_bad"]:
        print("check error: nondeterminism", file=sys.stderr)
        return 2
    return 0


def replay(path):
    txt = open(path).read()
    m = re.search(r"^# property (\S+) harness (\S+)", txt, re.M)
    if not m:
        print("no harness named in " + path)
        return 2
    exe = build([m.group(2)])[m.group(2)]
    p = subprocess.run([exe, "--replay", path], capture_output=True, text=True)
    print(symbolise(exe, p.stdout))
    return p.returncode


def main():
    if sys.argv[1] == "--setup":
        build(sorted(HARNESSES))
        return 0
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    return check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:  # an error of the check is never a verdict
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
