#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of /repo and writes /verif/seeded/<id>/.

mkseed.py [id...]        definitions come from tools/bugs.py
mkseed.py --run [id...]  also runs the property's check against each bug (in
                         /repo: applies the patch, checks, undoes it)
"""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, os.path.join(V, "tools"))
import bugs
sys.path.insert(0, V)
import check
ENV = check.go_env()
DEMO = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken (cwd is the repository)
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp "$here/main.go.txt" "$d/main.go"
printf 'module demo\\n\\ngo 1.16\\n\\nrequire github.com/aiq/tok v0.0.0\\n\\nreplace github.com/aiq/tok => %s\\n' "$repo" > "$d/go.mod"
cd "$d"
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
go build -o demo . || exit 3
timeout 60 ./demo
'''
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
def main():
    args = sys.argv[1:]
    run = "--run" in args
    ids = [a for a in args if not a.startswith("-")]
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if False else None
    for b in bugs.BUGS:
        if ids and b["id"] not in ids:
            continue
        out = os.path.join(V, "seeded", b["id"])
        if not ids and not run and os.path.exists(out):
            continue
        if not run:
            w = tempfile.mkdtemp(prefix="seed-")
            try:
                r = os.path.join(w, "repo")
                shutil.copytree("/repo", r, symlinks=True)
                d = os.path.join(w, "demo")
                os.makedirs(d)
                open(os.path.join(d, "demo.sh"), "w").write(DEMO)
                open(os.path.join(d, "main.go.txt"), "w").write(b["demo"].lstrip())
                p = sh(["bash", os.path.join(d, "demo.sh")], r)
                if p.returncode != 0:
                    print(b["id"], "BAD: demo fails on the unchanged tree", p.returncode, p.stdout[-800:]); continue
                bad = False
                for f, old, new in b["edits"]:
                    path = os.path.join(r, f)
                    s = open(path).read()
                    if s.count(old) != 1:
                        print(b["id"], "BAD: %d matches in %s for %r" % (s.count(old), f, old)); bad = True; break
                    open(path, "w").write(s.replace(old, new))
                if bad: continue
                p = sh(["go", "build", "./..."], r)
                if p.returncode != 0:
                    print(b["id"], "BAD: build", p.stdout[-800:]); continue
                p = sh(["go", "test", "-vet=off", "-count=1", "-timeout", "120s", "./..."], r)
                if p.returncode != 0:
                    print(b["id"], "BAD: tests fail", p.stdout[-800:]); continue
                p = sh(["bash", os.path.join(d, "demo.sh")], r)
                if p.returncode in (0, 3):
                    print(b["id"], "BAD: demo with the bug exits", p.returncode, p.stdout[-500:]); continue
                diff = sh(["git", "diff", "-U0"], r).stdout
                own = orig = 0
                f = None
                for line in diff.splitlines():
                    if line.startswith("--- a/"):
                        f = line[6:]
                        blame = sh(["git", "blame", "-s", "HEAD", "--", f], r).stdout.splitlines()
                    elif line.startswith("@@"):
                        a = line.split()[1][1:].split(",")
                        n0, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                        for k in range(n0, n0 + n):
                            if blame[k-1].startswith("^") or blame[k-1].startswith("0adaed3"): orig += 1
                            else: own += 1
                if own or not orig:
                    print(b["id"], "note: changes %d original and %d own lines" % (orig, own))
                diff = sh(["git", "diff"], r).stdout
                os.makedirs(out, exist_ok=True)
                open(os.path.join(out, "patch.diff"), "w").write(diff)
                for n in ("demo.sh", "main.go.txt"):
                    shutil.copy(os.path.join(d, n), os.path.join(out, n))
                json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
                print(b["id"], "kept:", p.stdout.strip()[:150])
            finally:
                shutil.rmtree(w, ignore_errors=True)
        else:
            patch = os.path.join(out, "patch.diff")
            if not os.path.exists(patch):
                print(b["id"], "no patch"); continue
            p = sh(["git", "apply", patch], "/repo")
            if p.returncode: print(b["id"], "does not apply", p.stdout); continue
            try:
                e = dict(os.environ)
                p = subprocess.run([sys.executable, "check.py", b["property"]], cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            finally:
                sh(["git", "checkout", "--", "."], "/repo")
            caught = p.returncode == 1 and "VIOLATION property=" + b["property"] in p.stdout
            print(b["id"], b["property"], "CAUGHT" if caught else "MISSED rc=%d %s" % (p.returncode, p.stdout[-600:]), flush=True)
main()
