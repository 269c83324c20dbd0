#!/usr/bin/env python3
"""Applies textual mutants to a scratch copy of /repo and runs checks on them.
usage: mut.py FILE.mut [name-substring]
FILE.mut holds blocks:  === name | checks | bug|ok
                        --- path
                        <<<<
                        old
                        ====
                        new
                        >>>>
"""
import sys, subprocess, shutil, os, tempfile, re
from concurrent.futures import ThreadPoolExecutor
BIN = os.environ.get("CHK", "/tmp/chk")
def parse(fn):
    out = []; cur = None
    for blk in re.split(r'(?m)^=== ', open(fn).read())[1:]:
        head, body = blk.split("\n", 1)
        name, checks, kind = [x.strip() for x in head.split("|")]
        edits = []
        path = None
        for m in re.finditer(r'(?ms)^--- (\S+)\n|^<<<<\n(.*?)^====\n(.*?)^>>>>$', body):
            if m.group(1): path = m.group(1)
            else: edits.append((path, m.group(2), m.group(3)))
        out.append((name, checks, kind, edits))
    return out
def run(m):
    name, checks, kind, edits = m
    d = tempfile.mkdtemp(prefix="mut")
    try:
        subprocess.check_call(["rsync", "-a", "--exclude", ".git", "--exclude", "csharp", "--exclude", "java", "/repo/", d + "/repo/"])
        v = d + "/verif"; os.makedirs(v)
        os.symlink("/verif/stubs", v + "/stubs")
        if os.path.exists("/verif/known-findings.json"): shutil.copy("/verif/known-findings.json", v)
        for p, old, new in edits:
            f = d + "/repo/" + p; s = open(f).read()
            if old not in s and old[:-1] in s: old, new = old[:-1], new[:-1]
            if s.count(old) < 1: return name, kind, "NOT-APPLICABLE", "old text not found in " + p + "\n" + old
            s = s.replace(old, new, 1); open(f, "w").write(s)
        b = subprocess.run("cd %s/repo && gofmt -l internal *.go | head -5; . /opt/vp/env.sh 2>/dev/null; true" % d, shell=True, capture_output=True, text=True)
        r = subprocess.run([BIN, "-repo", d + "/repo", "-verif", v, "-property", checks], capture_output=True, text=True, timeout=int(os.environ.get("T","900")))
        viol = re.findall(r'VIOLATION property=(\S+)', r.stdout)
        st = "caught" if viol else ("quiet" if r.returncode == 0 else "ERROR")
        return name, kind, st, ",".join(viol) + "\n" + "\n".join(l[:330] for l in r.stdout.splitlines() if not l.startswith(("OK", "VIOL", "KNOWN")))[:1200] + r.stderr[-600:]
    finally:
        shutil.rmtree(d)
ms = parse(sys.argv[1])
if len(sys.argv) > 2: ms = [m for m in ms if sys.argv[2] in m[0]]
bad = 0
with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
    for name, kind, st, out in ex.map(run, ms):
        good = (kind == "bug" and st == "caught") or (kind == "ok" and st == "quiet")
        if not good: bad += 1
        print(("    " if good else "!!! ") + f"{name} [{kind}] {st} {out.splitlines()[0] if out else ''}")
        if not good or os.environ.get("V"): print("        " + "\n        ".join(out.splitlines()[1:]))
print(len(ms), "mutants,", bad, "unexpected")
