#!/usr/bin/env python3
"""Mutation sweep.  run.py tests MUTS OUT: which mutants compile and pass the
tests of /repo.  run.py drive OUT RES: which suites of the driver record other
rows for them and, by TLC, which properties are then reported."""
import json, os, subprocess, sys, tempfile, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor
V = "/verif"
sys.path.insert(0, V)
import check
ENV = check.go_env()
W = int(os.environ.get("W", "8"))
MODULE = {"calls": "CallTrace", "sess": "SessTrace", "read": "ReaderTrace", "json": "GrammarTrace", "mxt": "GrammarTrace", "lua": "GrammarTrace"}

def overlay(m, d):
    src = open(m["file"] if m["file"].startswith("/") else "/repo/" + m["file"], "rb").read()
    new = src[:m["a"]] + m["new"].encode() + src[m["b"]:]
    f = os.path.join(d, "x.go")
    open(f, "wb").write(new)
    o = os.path.join(d, "overlay.json")
    json.dump({"Replace": {"/repo/" + m["file"]: f}}, open(o, "w"))
    return o

def sh(cmd, cwd, timeout):
    try:
        return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return None

def test(m):
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        o = overlay(m, d)
        p = sh(["timeout", "60", "go", "build", "-overlay", o, "./..."], "/repo", 90)
        if p is None or p.returncode: return "build"
        p = sh(["timeout", "60", "go", "test", "-vet=off", "-timeout", "20s", "-overlay", o, ".", "./grammar/..."], "/repo", 90)
        return "survives" if p is not None and p.returncode == 0 else "killed"
    finally:
        shutil.rmtree(d, ignore_errors=True)

SUITES = ["C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C13grammar","C14","C15","C16","C17","C18","C19","C20","C21","C22","C23","C24","C25","C26","C27","C28","C29","C29read","C30","C31"]
HIST = ["S02","S03","S04","S05","S06","S07","S08","S09","S30"]
SCAN = ["C02","C03","C04","C05","C06","C07","C08","C09","C30","C01","C29"] + HIST
TRACE = {**{s: "SessTrace" for s in HIST}, **{s: "ReaderTrace" for s in SUITES}, **{s: "CallTrace" for s in ("C02","C03","C04","C05","C06","C07","C08","C09","C30")},
  "C01": "SessTrace", "C29": "SessTrace", **{s: "SegTrace" for s in ("C19","C20","C21","C22")}, "C23": "RuleTrace",
  "C13grammar": "GrammarTrace", "C25": "GrammarTrace", "C26": "GrammarTrace", "C27": "GrammarTrace"}
INV = {"ReaderTrace": "WhatOK", "SessTrace": "FirstOK InText"}
BASE = {}
# the suites that touch a file, the likely ones first
NEAR = {
  "grammar/lua.go": ["C27", "C13grammar", "C23"], "grammar/json.go": ["C25", "C13grammar", "C23"], "grammar/mxt.go": ["C26", "C13grammar", "C23"],
  "grammar.go": ["C23", "C18", "C16", "C11", "C28"], "monitor.go": ["C18", "C28"], "tracker.go": ["C16", "C29", "C29read", "C17", "C28"],
  "segment.go": ["C19", "C21", "C22", "C20"], "graph.go": ["C20", "C21"], "token.go": ["C19", "C31", "C30", "C22", "C20"],
  "error.go": ["C14", "C31"], "scanner_rev.go": ["C05", "C06", "C07", "C04", "C02"] + HIST + ["C01", "C30", "C29", "C12"],
  "scanner.go": SCAN + ["C12", "C14", "C31"],
  "reader.go": ["C11", "C12", "C14", "C24", "C15", "C13", "C10", "C16", "C17", "C18", "C28", "C31", "C29read", "C08", "C23"],
  "read.go": ["C08", "C09", "C11", "C24", "C14", "C31", "C10", "C12", "C13", "S08", "S09", "C02", "C03"],
}

def rows(drv, s, out, limit):
    p = sh([drv, s, "-seed", "1", "-tier", "quick", "-out", out, "-limit", str(limit)], "/tmp", 300)
    if p is None: return "timeout"
    if p.returncode: return "stopped"
    return [hashlib.md5(l.encode()).digest() for l in open(out)]

def drive(m):
    d = tempfile.mkdtemp(prefix="mut-")
    res = {}
    try:
        o = overlay(m, d) if m else None
        drv = os.path.join(d, "drv")
        p = sh(["go", "build"] + (["-overlay", o] if o else []) + ["-o", drv, "."], V + "/driver", 200)
        if p is None or p.returncode: return {"error": p.stdout[-500:] if p else "timeout"}
        for s in (NEAR.get(m["file"], SUITES) if m else SUITES + HIST):
            out = os.path.join(d, s)
            got = rows(drv, s, out, 10)
            if not m:
                res[s] = got
                continue
            if isinstance(got, str):
                res[s] = got
            elif got != BASE[s]:
                lines = open(out).read().splitlines()
                diff = [l for i, l in enumerate(lines) if i >= len(BASE[s]) or got[i] != BASE[s][i]]
                diff.sort(key=len)
                with open(out + ".d", "w") as f:
                    f.write("\n".join(diff[:100] + diff[100::max(1, len(diff) // 100)]) + "\n")
                mod = TRACE[s]
                cfg = os.path.join(d, "c.cfg")
                open(cfg, "w").write("SPECIFICATION Spec\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % INV.get(mod, "RowOK"))
                e = dict(os.environ, ROWS=out + ".d", PROP="C" + s[1:3])
                try:
                    p = subprocess.run(["java", "-Xss256m", "-Xmx3g", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-cp", check.JAVA_CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", d + "/meta", "-workers", "1", "-config", cfg, mod + ".tla"],
                        cwd=check.SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
                    n = sum(1 for l in p.stdout.splitlines() if l.startswith('"MISMATCH'))
                    res[s] = "%d of %d" % (n, len(diff)) if "No error has been found" in p.stdout else "tlc error"
                except subprocess.TimeoutExpired:
                    res[s] = "tlc timeout"
            if os.path.exists(out): os.remove(out)
            if any(not v.startswith("0 ") for v in res.values()) and m.get("first", True):
                break
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)

def main():
    what, src, dst = sys.argv[1:4]
    muts = [json.loads(l) for l in open(src)]
    if what == "drive":
        muts = [m for m in muts if m["res"] == "survives"]
        BASE.update(drive(None))
    f = test if what == "tests" else drive
    with ThreadPoolExecutor(W) as ex, open(dst, "w") as out:
        for m, r in zip(muts, ex.map(f, muts)):
            out.write(json.dumps(dict(m, res=r) if what == "tests" else dict(m, det=r)) + "\n")
            out.flush()
main()
