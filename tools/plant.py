#!/usr/bin/env python3
"""Makes and verifies planted bugs (seeded/<id>/). No check uses this.

  plant.py DEFS.py [id ...]

DEFS.py defines BUGS: dicts with id, property, needs, breaks, edits [(file, old,
new)], demo (C++ source; main returns nonzero when the property is broken).
Every bug is built and tested with the stable tests in a copy of /repo that is
bind mounted on /repo in a mount namespace of its own.
"""
import importlib.util, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
WORK = "/tmp/plantwork"
JOBS = 4
DEMO = """#!/bin/bash
# Run in /repo: exits 0 when the property holds, nonzero otherwise.
set -u
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 0
trap 'rm -r "$work"' EXIT
FLAGS="-std=c++23 -O1 -w -pthread %s -Iinclude/maec -Iinclude"
SRC=$(ls src/*.cpp src/dsp/*.cpp src/io/wav.cpp src/io/mstream.cpp)
echo $SRC "$here/demo.cpp" | tr ' ' '\\n' |
    xargs -P 8 -I{} sh -c 'g++ '"$FLAGS"' -c "{}" -o "'"$work"'/$(echo "{}" | tr / _).o"' || exit 2
g++ $FLAGS "$work"/*.o -o "$work/demo" || exit 2
cd "$work" && timeout 60 ./demo
"""

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def inrepo(copy, cmd, timeout=600):
    return subprocess.run(["unshare", "-Urm", "bash", "-c",
                           "mount --bind %s /repo && cd /repo && %s" % (copy, cmd)],
                          capture_output=True, text=True, timeout=timeout)

def root_commit():
    return sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.split()[0]

def original(patch):
    """Are the removed lines the original repository's?"""
    root = root_commit()
    fname, bad = None, []
    line = 0
    blame = {}
    for l in patch.splitlines():
        if l.startswith("--- a/"):
            fname = l[6:]
            out = sh("git -C /repo blame -l -s --root %s" % fname).stdout.splitlines()
            blame = {i + 1: b.split()[0].lstrip("^") for i, b in enumerate(out)}
        elif l.startswith("@@"):
            line = int(l.split()[1].split(",")[0][1:])
        elif l.startswith("-") and not l.startswith("---"):
            if not root.startswith(blame[line][:39]):
                bad.append("%s:%d" % (fname, line))
            line += 1
        elif l.startswith(" "):
            line += 1
    return bad

def one(bug, copy):
    out = os.path.join(SEEDED, bug["id"])
    sh("git -C %s checkout -q -- ." % copy)
    for f, old, new in bug["edits"]:
        p = os.path.join(copy, f)
        s = open(p).read()
        n = bug.get("count", 1)
        if s.count(old) != n and "nth" not in bug:
            return "%s: %d matches in %s" % (bug["id"], s.count(old), f)
        if "nth" in bug:
            parts = s.split(old)
            k = bug["nth"]
            s = old.join(parts[:k]) + new + old.join(parts[k:])
        else:
            s = s.replace(old, new)
        open(p, "w").write(s)
    patch = sh("git -C %s diff" % copy).stdout
    bad = original(patch)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(patch)
    open(os.path.join(out, "demo.cpp"), "w").write(bug["demo"].lstrip())
    open(os.path.join(out, "demo.sh"), "w").write(DEMO % bug.get("flags", ""))
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    try:
        r = inrepo(copy, "bash %s/demo.sh" % out)
        demo_bad = r.returncode
        t = inrepo(copy, "bash /opt/vp/test.sh %s/_build/out.json" % "/repo")
        try:
            res = json.load(open(copy + "/_build/out.json"))
            missing = sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(res["passed"]))
        except Exception as e:
            missing = ["no result " + t.stdout[-800:] + t.stderr[-500:]]
        sh("git -C %s checkout -q -- ." % copy)
        g = inrepo(copy, "bash %s/demo.sh" % out)
        demo_good = g.returncode
    except subprocess.TimeoutExpired as e:
        sh("git -C %s checkout -q -- ." % copy)
        return "%s: TIMEOUT %s" % (bug["id"], e.cmd[-1][-80:])
    ok = demo_bad not in (0, 2) and demo_good == 0 and not missing
    return "%s: %s demo bad=%d good=%d failing tests=%s not original=%s %s" % (
        bug["id"], "OK" if ok else "REJECT", demo_bad, demo_good, missing[:3], bad,
        "" if ok else (r.stdout + r.stderr + g.stdout + g.stderr)[-600:])

def main():
    spec = importlib.util.spec_from_file_location("defs", sys.argv[1])
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    bugs = [b for b in m.BUGS if not sys.argv[2:] or b["id"] in sys.argv[2:]]
    q = Queue()
    for i in range(min(JOBS, len(bugs))):
        c = "%s/%d" % (WORK, i)
        if not os.path.isdir(c):
            os.makedirs(WORK, exist_ok=True)
            sh("cp -a /repo %s" % c)
        sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD" % (c, c))
        q.put(c)
    def run(b):
        c = q.get()
        try:
            r = one(b, c)
        except Exception as e:
            r = "%s: EXC %r" % (b["id"], e)
        finally:
            q.put(c)
        print(r, flush=True)
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(run, bugs))

main()
