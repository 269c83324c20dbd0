#!/usr/bin/env python3
"""Generates and validates planted bugs.  usage: mkseed.py FILE.seed [name-substring]
Block:  === id | property | package dir
        needs: ...
        breaks: ...
        --- path / <<<< old ==== new >>>>   (as in mut.py)
        %%% test
        go test source (in-package), up to the next ===
"""
import sys, re, os, subprocess, tempfile, shutil, json
from concurrent.futures import ThreadPoolExecutor
V = "/verif"
DEMO = r'''#!/bin/bash
# Copies the Go sources of the current tree to a scratch folder, adds the test beside this
# file to package @PKG@ and runs it there.
here=$(cd "$(dirname "$0")" && pwd); src=$PWD
tmp=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/repo" "$tmp/mod" "$tmp/st"
tar xzf "$here/stubs.tgz" -C "$tmp/st"
cp "$src"/*.go "$src/go.mod" "$src/go.sum" "$tmp/repo/" && cp -a "$src/internal" "$tmp/repo/" || exit 2
[ -d "$src/docs" ] && cp -a "$src/docs" "$tmp/repo/"
find "$tmp/repo" -name '*_test.go' -delete
cp "$here/demo_test.go" "$tmp/repo/@PKG@/zz_demo_test.go"
cp "$src/go.mod" "$src/go.sum" "$tmp/mod/"
for root in stubs runstubs; do
  for m in $(cd "$tmp/st/$root" && find . -name go.mod -printf '%h\n' | sed 's#^\./##'); do
    echo "replace $m => $tmp/st/$root/$m" >> "$tmp/mod/go.mod"
  done
done
export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS=-mod=mod HOME=${HOME:-/root}
cd "$tmp/repo" || exit 2
timeout 250 go test @FLAGS@ -count=1 -timeout 120s -modfile="$tmp/mod/go.mod" ./@PKG@
'''
def parse(fn):
    for blk in re.split(r'(?m)^=== ', open(fn).read())[1:]:
        head, body = blk.split("\n", 1)
        p = [x.strip() for x in head.split("|")]
        body, test = body.split("%%% test\n", 1)
        d = dict(id=p[0], prop=p[1], pkg=p[2], flags=p[3] if len(p) > 3 else "", test=test, edits=[])
        d["needs"] = re.search(r'(?m)^needs: (.*)$', body).group(1)
        d["breaks"] = re.search(r'(?m)^breaks: (.*)$', body).group(1)
        path = None
        for m in re.finditer(r'(?ms)^--- (\S+)\n|^<<<<\n(.*?)^====\n(.*?)^>>>>$', body):
            if m.group(1): path = m.group(1)
            else: d["edits"].append((path, m.group(2), m.group(3)))
        yield d
def one(d):
    out = "%s/seeded/%s" % (V, d["id"])
    t = tempfile.mkdtemp(prefix="seed")
    try:
        for k in "ab":
            subprocess.check_call(["rsync", "-a", "--exclude", ".git", "--exclude", "csharp", "--exclude", "java", "/repo/", t + "/" + k + "/"])
        for p, old, new in d["edits"]:
            f = t + "/b/" + p; s = open(f).read()
            if s.count(old) < 1: return d["id"], "old text not found in %s:\n%s" % (p, old)
            open(f, "w").write(s.replace(old, new, 1))
        r = subprocess.run("gofmt -l " + " ".join(t + "/b/" + p for p, _, _ in d["edits"]), shell=True, capture_output=True, text=True)
        if r.stdout or r.returncode: return d["id"], "gofmt: " + r.stdout + r.stderr
        os.makedirs(out, exist_ok=True)
        diff = ""
        for p in sorted(set(p for p, _, _ in d["edits"])):
            x = subprocess.run(["diff", "-u", "--label", "a/" + p, "--label", "b/" + p, t + "/a/" + p, t + "/b/" + p], capture_output=True, text=True)
            diff += x.stdout
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo_test.go", "w").write(d["test"])
        open(out + "/demo.sh", "w").write(DEMO.replace("@PKG@", d["pkg"]).replace("@FLAGS@", d["flags"])); os.chmod(out + "/demo.sh", 0o755)
        shutil.copy(V + "/tools/stubs.tgz", out + "/stubs.tgz")
        json.dump({"property": d["prop"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        a = subprocess.run(out + "/demo.sh", cwd=t + "/a", capture_output=True, text=True)
        b = subprocess.run(out + "/demo.sh", cwd=t + "/b", capture_output=True, text=True)
        msg = []
        if a.returncode: msg.append("demo fails on the clean tree\n" + (a.stdout + a.stderr)[-1500:])
        if not b.returncode: msg.append("demo passes with the patch")
        elif "build failed" in b.stdout + b.stderr or "setup failed" in b.stdout + b.stderr: msg.append("patched tree does not build\n" + (b.stdout + b.stderr)[-1500:])
        v = t + "/verif"; os.makedirs(v); os.symlink(V + "/stubs", v + "/stubs"); shutil.copy(V + "/known-findings.json", v)
        c = subprocess.run([os.environ.get("CHK", "/tmp/chk"), "-repo", t + "/b", "-verif", v, "-property", d["prop"]], capture_output=True, text=True)
        vio = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION property=" + d["prop"])]
        if c.returncode != 1 or not vio: msg.append("NOT CAUGHT: exit %d\n%s" % (c.returncode, c.stdout[-600:] + c.stderr[-300:]))
        if os.environ.get("V"): msg.append(c.stdout[-900:] + b.stdout[-900:])
        return d["id"], "\n".join(msg)
    finally:
        subprocess.run("rm -rf " + t, shell=True)
sub = sys.argv[2] if len(sys.argv) > 2 else ""
todo = [d for d in parse(sys.argv[1]) if sub in d["id"]]
bad = 0
with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
    for i, msg in ex.map(one, todo):
        print(("ok  " if not msg else "!!! ") + i, msg); bad += bool(msg)
sys.exit(bad > 0)
