#!/usr/bin/env python3
"""Builds and runs the check of one property.

  check.py C01                  run (VERIF_SEED, VERIF_TIER from the environment)
  check.py C01 --replay FILE    run one saved case again
  check.py --setup              build the framework for every property once

Exit 0: the property held on everything explored. Exit 1 and a VIOLATION line:
it is broken. Anything else is an error of the check itself.
"""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MAEC_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
sys.path.insert(0, VERIF)
from registry import CHECKS  # noqa: E402

CXX = "g++"
BASE = ["-std=c++23", "-g1", "-pthread", "-w", "-I" + os.path.join(REPO, "include", "maec"),
        "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "fw")]
MODES = {
    # address errors and undefined behaviour that can't be meant; signed
    # overflow and float casts are left out (not part of any property)
    "asan": ["-O1", "-fno-omit-frame-pointer",
             "-fsanitize=address,bounds,null,return,integer-divide-by-zero,unreachable",
             "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    "plain": ["-O2"],
}
# C32 includes the ALSA back end, on a stand-in for the sound library; everything else is linked
SKIP = {"alsa_module.cpp"}


def sh_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:"
                         "max_malloc_fill_size=16777216:malloc_fill_byte=190:detect_stack_use_after_return=1")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1"
    return e


def repo_files():
    out = []
    for top in ("include", "src"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in fs:
                if f.endswith((".hpp", ".cpp", ".h")):
                    out.append(os.path.join(d, f))
    return sorted(out)


def literals():
    """Whole numbers in the sources: drawn sizes are at times one of them."""
    out = set()
    for f in repo_files():
        s = re.sub(r"/\*.*?\*/|//[^\n]*|\"(\\.|[^\"\\])*\"", " ", open(f, errors="replace").read(), flags=re.S)
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F']+|\d[\d']*)(?:[uUlL]*)(?![\w.])", s):
            v = int(m.group(1).replace("'", ""), 16 if m.group(1)[:2] in ("0x", "0X") else 10)
            if 8 < v < 1 << 40:
                out.add(v)
    return sorted(out)


def digest(files, extra):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    h.update(repr(extra).encode())
    return h.hexdigest()


class BuildError(Exception):
    pass


def compile_one(src, obj, flags):
    if os.path.exists(obj):
        return
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run([CXX, *BASE, *flags, "-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("cannot compile %s\n%s" % (src, r.stderr[-6000:]))
    os.replace(tmp, obj)


def build(pid, mode, repo_hash, defines=()):
    """Objects are named by the content they are made from: nothing stale can be linked."""
    os.makedirs(BUILD, exist_ok=True)
    flags = MODES[mode]
    key = digest([], (repo_hash, mode, flags, BASE))[:24]
    odir = os.path.join(BUILD, mode + "-" + key)
    os.makedirs(odir, exist_ok=True)
    jobs, objs = [], []
    for f in repo_files():
        if not f.endswith(".cpp") or os.path.basename(f) in SKIP:
            continue
        rel = os.path.relpath(f, os.path.join(REPO, "src")).replace("/", "_")
        o = os.path.join(odir, rel + ".o")
        objs.append(o)
        jobs.append((f, o, flags))
    harness = os.path.join(VERIF, "props", pid + ".cpp")
    fw = [os.path.join(VERIF, "fw", f) for f in sorted(os.listdir(os.path.join(VERIF, "fw"))) if f.endswith((".hpp", ".cpp"))]
    hkey = digest([harness] + fw, (key, defines))[:24]
    hobj = os.path.join(odir, "h-%s-%s.o" % (pid, hkey))
    jobs.insert(0, (harness, hobj, flags + ["-D" + d for d in defines]))
    with ThreadPoolExecutor(8) as ex:
        for r in [ex.submit(compile_one, *j) for j in jobs]:
            r.result()
    exe = os.path.join(odir, "check-%s-%s" % (pid, hkey))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX, *BASE, *flags, hobj, *objs, "-o", tmp, *LIBS], capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("cannot link %s\n%s" % (pid, r.stderr[-6000:]))
        os.replace(tmp, exe)
    return exe


LIBS = []


def known_findings(pid):
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) section=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        repo_hash = digest(repo_files(), "")
        # (checks run in copies of their own and build what they need; this
        # only makes sure that they can)
        build("C31", "asan", repo_hash)
        return 0
    pid = args[0]
    spec = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in args:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:12], 16)
    t0 = time.time()
    repo_hash = digest(repo_files(), "")
    env = sh_env()
    env["PBT_DICT"] = " ".join(map(str, literals()))
    if spec.get("confirm"):
        env["PBT_CONFIRM"] = str(spec["confirm"])
    work = tempfile.mkdtemp(prefix="maec-%s-" % pid)
    try:
        if "--replay" in args:
            path = os.path.abspath(args[args.index("--replay") + 1])
            mode = json.load(open(path)).get("mode", spec["runs"][0]["mode"])
            exe = build(pid, mode, repo_hash)
            r = subprocess.run([exe, "--replay", path, "--workdir", work, "--timeout", str(spec.get("timeout", 20))], env=env)
            if r.returncode == 1:
                print("VIOLATION property=%s replay=%s" % (pid, path))
            return r.returncode
        merged = {"evaluations": 0, "distinct_nontrivial": 0, "discarded": 0}
        sections, samples, viol = {}, [], None
        unrep, trunc = 0, False
        for run in spec["runs"]:
            if run.get("only_tier") and run["only_tier"] != tier:
                continue
            exe = build(pid, run["mode"], repo_hash)
            out = os.path.join(work, run["mode"] + ".json")
            cmd = [exe, "--property", pid, "--seed", str(seed), "--tier", tier, "--workdir", work, "--out", out,
                   "--workers", str(run.get("workers", 8)), "--timeout", str(spec.get("timeout", 20)),
                   "--max-time", str(run.get("max_time", {"quick": 120, "thorough": 2400})[tier]),
                   "--shrink-time", "40" if tier == "quick" else "120"]
            if run.get("only"):
                cmd += ["--only", run["only"]]
            scale = run.get("scale", 1) * (run.get("quick", 1) if tier == "quick" else 1)
            if scale != 1:
                cmd += ["--scale", str(scale)]
            r = subprocess.run(cmd, env=env, capture_output=True, text=True, errors="replace")
            sys.stdout.write(r.stdout)
            sys.stderr.write(r.stderr)
            if r.returncode not in (0, 1, 4):
                print("check error: the driver of %s ended with %d" % (pid, r.returncode))
                return 2
            d = json.load(open(out))
            for k in merged:
                merged[k] += d[k]
            unrep += d["unreproduced"]
            trunc = trunc or d["truncated"]
            for name, s in d["sections"].items():
                label = name if run["mode"] == "asan" else name + " (" + run["mode"] + ")"
                for x in s.pop("samples")[:2]:
                    samples.append(label + ": " + x)
                sections[label] = s
            if d["violation"] is not None:
                os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
                dst = os.path.join(VERIF, "replays", "%s-seed%d.json" % (pid, seed))
                rep = json.load(open(d["replay"]))
                rep["mode"] = run["mode"]
                rep["seed"] = seed
                json.dump(rep, open(dst, "w"), indent=1)
                viol = (dst, d["violation"])
                break
            if r.returncode == 4:
                break
        merged["rule"] = spec["rule"] + " Per section: " + " | ".join(
            "%s: %s" % (n, s["rule"]) for n, s in sections.items())
        merged["samples"] = samples[:24]
        merged["sections"] = {n: {k: v for k, v in s.items() if k != "rule"} for n, s in sections.items()}
        merged["truncated_by_time_cap"] = trunc
        merged["unreproduced_failures"] = unrep
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": merged,
              "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
              "violations": 1 if viol else 0}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if viol:
            print(viol[1])
            print("VIOLATION property=%s replay=%s" % (pid, viol[0]))
            return 1
        for sec, what in known_findings(pid):
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
        print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (
            pid, merged["evaluations"], merged["distinct_nontrivial"], ev["wall_s"]))
        return 0
    except BuildError as e:
        print("check error:", e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
