#!/usr/bin/env python3
"""Mechanical mutants of the sources, run against the checks that should see them.

mutate.py [-j N] [--files re] [--out FILE] [--sample N]
A mutant that no mapped check reports is printed as SURVIVED. It works on copies in /tmp/mut only.
"""
import argparse, hashlib, os, random, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mut"
MAP = {
    "dsp/buffer": "C01 C02 C03 C16 C09", "audio_buffer": "C04 C02", "audio_module": "C13 C14 C15 C16 C17",
    "base_module": "C15 C13 C14", "module_mixer": "C16 C14 C15 C13", "module_param": "C17 C15 C14 C22",
    "sink_module": "C13 C14 C15", "source_module": "C13 C15 C14", "meta_audio": "C18 C20 C13 C15 C14", "meta": "C13",
    "parallel": "C19", "chrono": "C25 C20 C23", "base_oscillator": "C21 C22", "fund_oscillator": "C21 C22",
    "envelope": "C23 C24", "filter_module": "C09 C10", "dsp/conv": "C05 C09", "dsp/ft": "C06 C07 C05", "dsp/iir": "C11",
    "dsp/kernel": "C08 C10", "dsp/window": "C08", "dsp/matrix": "C12", "dsp/util": "C06 C12 C08", "io/wav": "C26 C27 C28",
    "io/mstream": "C29 C26 C27", "amp_module": "C30", "utils": "C31", "io/alsa_module": "C32", "const": "C21 C13", "dsp/filt": "C10",
}
def strip(lines):
    """Code of each line, without comments and strings."""
    out, block = [], False
    for l in lines:
        r, i, s = "", 0, None
        while i < len(l):
            if block:
                if l.startswith("*/", i): block = False; i += 2; r += "  "; continue
                r += " "; i += 1; continue
            if s:
                if l[i] == "\\": r += "  "; i += 2; continue
                if l[i] == s: s = None
                r += " "; i += 1; continue
            if l.startswith("//", i): r += " " * (len(l) - i); break
            if l.startswith("/*", i): block = True; r += "  "; i += 2; continue
            if l[i] in "\"'": s = l[i]; r += " "; i += 1; continue
            r += l[i]; i += 1
        out.append("" if r.lstrip().startswith("#") else r)
    return out
OPS = [(r"(?<![<>=!+\-*/&|-])<(?![<=])", ["<="]), (r"<=", ["<"]), (r"(?<![->=])>(?![>=])", [">="]), (r">=", [">"]),
       (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
       (r"(?<![+])\+\+(?!\+)", ["--"]), (r"(?<![-])--(?!-)", ["++"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\*=", ["="]),
       (r"(?<=[\w)\]]) \+ (?=[\w(])", [" - "]), (r"(?<=[\w)\]]) - (?=[\w(])", [" + "]), (r"(?<=[\w)\]]) \* (?=[\w(])", [" / "]),
       (r"(?<=[\w)\]]) / (?=[\w(])", [" * "]), (r"(?<=[\w)\]]) % (?=[\w(])", [" / "]),
       (r"(?<![\w.])(\d+)(?![\w.])", ["+1"]), (r"(?<![\w])(\d+\.\d*)(?!\w)", ["*1.5"]), (r"!(?=[\w(])", [""]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"])]
# local variables, members and casts of a narrower type
NARROW = [(r"\bint(?= \w+(?: = |;|\{))", ["int16_t"]), (r"\bint64_t(?= \w+(?: = |;|\{))", ["int32_t"]), (r"\buint32_t(?= \w+(?: = |;|\{))", ["uint16_t"]),
          (r"\b(?:std::)?size_t(?= \w+(?: = |;|\{))", ["uint16_t"]), (r"\bdouble(?= \w+(?: = |;|\{))", ["float"]), (r"\bauto(?= \w+ = )", ["float", "int16_t"]),
          (r"(?<=static_cast<)int(?=>)", ["int16_t"]), (r"(?<=static_cast<)int64_t(?=>)", ["int32_t"]), (r"(?<=static_cast<)(?:std::)?size_t(?=>)", ["uint16_t"]),
          (r"(?<=static_cast<)uint32_t(?=>)", ["uint16_t"]), (r"(?<=static_cast<)double(?=>)", ["float"]),
          (r"\b(?:int64_t)(?= \w+\()", ["int32_t"]), (r"\b(?:double)(?= \w+\()", ["float"]), (r"\b(?:std::)?size_t(?= \w+\()", ["uint16_t"]), (r"\bint(?= \w+\()", ["int16_t"])]
def mutants(path, rel):
    lines = open(path).read().split("\n"); code = strip(lines); out = []
    for n, c in enumerate(code):
        if not c.strip() or re.match(r"\s*(template|using|namespace|class|struct|enum|friend|typedef|public|private|protected)\b", c): continue
        for rx, reps in OPS:
            for m in re.finditer(rx, c):
                if m.group(0) in ("<", ">") and re.search(r"(template|static_cast|reinterpret_cast|std::\w+|unique_ptr|vector|Iterator|Buffer|complex|make_\w+|get_val|numeric_limits|\w+_t)\s*<", c) : continue
                if m.group(0) in ("<", ">") and not (c[max(0, m.start()-1)] == " " and c[m.end():m.end()+1] == " "): continue
                for r in reps:
                    if r == "+1": r2 = str(int(m.group(0)) + 1)
                    elif r == "*1.5": r2 = "(%s * 1.5 + 0.25)" % m.group(0)
                    else: r2 = r
                    out.append((n, lines[n][:m.start()] + r2 + lines[n][m.end():]))
        if OPS is NARROW: continue
        s = c.strip()
        # a whole statement on one line
        if re.match(r"^(this->|[\w:]+(->|\.|\(|\[)|\*|\+\+|--|[\w:]+ [-+*/]?= |[\w:.>-]+(\[.*\])? [-+*/]?= ).*;$", s) and not re.match(r"^(return|throw|using|delete)\b", s):
            ind = len(c) - len(c.lstrip())
            prev = next((code[k].strip() for k in range(n - 1, -1, -1) if code[k].strip()), "")
            if prev.endswith((";", "{", "}", ":")) : out.append((n, " " * ind + ";"))
        m = re.match(r"^(\s*(?:\} else )?if \()(.*)(\) \{?)$", c)
        if m:
            out.append((n, m.group(1) + "true" + m.group(3))); out.append((n, m.group(1) + "false" + m.group(3)))
    seen, res = set(), []
    for n, l in out:
        if l != lines[n] and (n, l) not in seen: seen.add((n, l)); res.append((rel, n, lines[n], l))
    return res
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-j", type=int, default=4); ap.add_argument("--files", default=""); ap.add_argument("--out", default="/tmp/mut/out.txt")
    ap.add_argument("--sample", type=int, default=0); ap.add_argument("--list", action="store_true"); ap.add_argument("--narrow", action="store_true"); ap.add_argument("--base", type=int, default=0); ap.add_argument("--redo", help="file with SURVIVED lines to run again"); ap.add_argument("--checks")
    a = ap.parse_args()
    global OPS
    if a.narrow: OPS = NARROW
    ms = []
    for top in ("include/maec", "src"):
        for d, _, fs in os.walk("/repo/" + top):
            for f in sorted(fs):
                p = os.path.join(d, f); rel = os.path.relpath(p, "/repo")
                key = os.path.splitext(re.sub(r"^(include/maec|src)/", "", rel))[0]
                if key not in MAP or not re.search(a.files, rel): continue
                x = mutants(p, rel)
                if a.sample and len(x) > a.sample: x = sorted(random.Random(rel).sample(x, a.sample))
                ms += [(m, MAP[key].split()) for m in x]
    if a.redo:
        want = set(re.sub(r"^SURVIVED *", "", l.split(" [")[0]).strip() for l in open(a.redo) if l.startswith("SURVIVED"))
        ms = [m for m in ms if "%s:%d" % (m[0][0], m[0][1] + 1) + " " + m[0][3].strip() in want]
    print(len(ms), "mutants", flush=True)
    if a.list:
        for m, _ in ms: print(m)
        return
    done = set(l.split("|||")[1].strip() for l in open(a.out) if "|||" in l) if os.path.exists(a.out) else set()
    q = Queue()
    for i in range(a.j):
        w = "%s/%d" % (W, i + a.base); os.makedirs(w + "/verif", exist_ok=True); os.makedirs(w + "/repo", exist_ok=True)
        subprocess.run("rsync -a --delete /repo/include /repo/src %s/repo/; cd %s && rsync -a --delete check.py registry.py fw props properties.jsonl KNOWN_FINDINGS.txt %s/verif/ && sed -i 's#^CXX = .*#CXX = \"/tmp/mut/mcc\"#' %s/verif/check.py; mkdir -p %s/verif/evidence" % (w, VERIF, w, w, w), shell=True)
        q.put(w)
    fh = open(a.out, "a")
    def one(x):
        (rel, n, old, new), checks = x
        mid = "%s:%d %s" % (rel, n + 1, new.strip())
        if mid in done: return
        if a.checks: checks = a.checks.split(",")
        w = q.get(); t = time.time()
        try:
            p = os.path.join(w, "repo", rel); src = open(p).read(); L = src.split("\n"); assert L[n] == old
            L[n] = new; open(p, "w").write("\n".join(L))
            res = "SURVIVED"
            try:
                for c in checks:
                    env = dict(os.environ, MAEC_REPO=w + "/repo", VERIF_SEED="1", VERIF_TIER="quick")
                    try: r = subprocess.run(["timeout", "-k", "5", "240", "python3", "check.py", c], cwd=w + "/verif", env=env, capture_output=True, text=True)
                    except Exception as e: res = "ERR %r" % e; break
                    if r.returncode == 1 and "VIOLATION" in r.stdout: res = "killed " + c; break
                    if r.returncode:
                        o = r.stdout + r.stderr
                        res = "nocompile" if "cannot compile" in o or "cannot link" in o else "BROKEN %s rc=%d %s" % (c, r.returncode, o[-200:].replace("\n", " ")); break
            finally:
                open(p, "w").write(src)
                subprocess.run("find %s/verif/.build -delete 2>/dev/null; find %s/verif/replays -delete 2>/dev/null" % (w, w), shell=True)
            fh.write("%s ||| %s ||| %s ||| %.0f\n" % (res, mid, old.strip(), time.time() - t)); fh.flush()
            if not res.startswith(("killed", "nocompile")): print(res, mid, "[was:", old.strip(), "]", flush=True)
        finally: q.put(w)
    random.Random(1).shuffle(ms)
    with ThreadPoolExecutor(a.j) as ex: list(ex.map(one, ms))
main()
